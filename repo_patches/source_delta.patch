From cef3202ef3c76743f672aea73a9924300146d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 01/32] fix: treat {x} in a field format as a nested field when
 parsing

In a field-level format, Display reads {x} as the nested field x of that
field, but FromStr looked x up among the fields of the containing type: the
declaration was rejected, or the text was silently parsed into another field.
---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7086605..0b69f78 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,7 +212,7 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
-                    if keys.len() == 1 {
+                    if keys.len() == 1 && vb.fields().is_some() {
                         self.push_field(vb, &keys[0], format.span)?;
                         continue;
                     }
-- 
2.43.0


From ad185827644c2e6fc85e5d79a860089829acfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 02/32] fix: let any field name be used with #[from_str(new =
 ...)]

The variables for the new expression were bound one after the other, so a
field named c, s or p hid the local the code for the following fields reads.
---
 parse-display-derive/src/parser_builder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 0b69f78..630adc5 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -350,12 +350,15 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let code = if let Some(new_expr) = &self.new_expr {
-            let mut code = TokenStream::new();
+            // Parse every field before binding any variable, so that a field name cannot hide
+            // a variable used to parse the remaining fields.
+            let mut vars = Vec::new();
+            let mut exprs = Vec::new();
             for (key, field) in &self.fields {
-                let expr = field.build_field_init_expr(&names, key, self.span)?;
-                let var = key.new_arg_var();
-                code.extend(quote! { let #var = #expr; });
+                exprs.push(field.build_field_init_expr(&names, key, self.span)?);
+                vars.push(key.new_arg_var());
             }
+            let mut code = quote! { let (#(#vars,)*) = (#(#exprs,)*); };
             let crate_path = self.crate_path;
             code.extend(quote! {
                 if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
-- 
2.43.0


From cdb1b9e9da3c763ff7b8e3ef0833462a4f2d45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 03/32] fix: accept raw identifier fields with #[from_str(new =
 ...)]

The variable for a field named r#fn was parsed from the text "fn", which
made the derive macro panic.
---
 parse-display-derive/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..d87d74c 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1131,10 +1131,9 @@ impl FieldKey {
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-            Self::Named(s) => parse_str(s),
-            Self::Unnamed(idx) => parse_str(&format!("_{idx}")),
+            Self::Named(s) => format_ident!("r#{s}"),
+            Self::Unnamed(idx) => format_ident!("_{idx}"),
         }
-        .unwrap()
     }
 }
 impl std::fmt::Display for FieldKey {
-- 
2.43.0


From ed4d75ef74950615abc8069e2c93a7141109e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 04/32] fix: give a #[from_str(default)] value the type of its
 field

With #[from_str(new = ...)], a default field that the expression does not use
left the type of its default value undetermined: the derive did not compile.
---
 parse-display-derive/src/parser_builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 630adc5..c1b1dee 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -553,7 +553,8 @@ impl<'a> FieldEntry<'a> {
                 self.crate_path,
             )?))
         } else if self.use_default {
-            Ok(Some(quote! { ::core::default::Default::default() }))
+            let ty = &self.source.ty;
+            Ok(Some(quote! { <#ty as ::core::default::Default>::default() }))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 91bb6032397a66417d68b65c340e8e3c0e2019a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 05/32] fix: do not show the r# of a raw identifier in a
 variant name

r#fn was displayed as "r#fn", or "r_fn" and the like with a style.
---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index d87d74c..811f5ea 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -617,7 +617,7 @@ impl DisplayStyle {
             }
         }
 
-        let s = ident.to_string();
+        let s = ident.unraw().to_string();
         let (line_head, word_head, normal, sep) = match self {
             DisplayStyle::None => {
                 return s;
-- 
2.43.0


From c9e49cda7d87947eeedf269ce38729e93e8ab6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 06/32] fix: use T, not Option<T>, for opt fields with a custom
 parser

#[display(opt)] together with with = ... or regex_infer asked the format for
an Option<T> when parsing, although it formats (and documents) a T: no such
declaration compiled.
---
 parse-display-derive/src/parser_builder.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index c1b1dee..0e2a30f 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -14,7 +14,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -226,8 +226,9 @@ impl<'a> ParserBuilder<'a> {
                             match vb {
                                 VarBase::Struct { .. } => {}
                                 VarBase::Variant { .. } => {}
-                                VarBase::Field { field, key, .. } => {
-                                    self.with.push(With::new(c, key, with_expr, &field.ty));
+                                VarBase::Field { key, .. } => {
+                                    let ty = self.fields[*key].value_ty();
+                                    self.with.push(With::new(c, key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
                                     self.with.push(With::new(c, key, with_expr, ty));
@@ -514,6 +515,15 @@ impl<'a> FieldEntry<'a> {
             crate_path,
         })
     }
+    /// The type whose text is in the format: the `T` of an `Option<T>` with `#[display(opt)]`.
+    fn value_ty(&self) -> &'a Type {
+        let ty = &self.source.ty;
+        if self.hattrs.opt.value() {
+            get_option_element(ty).unwrap_or(ty)
+        } else {
+            ty
+        }
+    }
     #[allow(clippy::collapsible_else_if)]
     fn set_capture(&mut self, keys: &[FieldKey], capture_next: &mut usize) -> String {
         let idx = if keys.is_empty() {
@@ -554,7 +564,9 @@ impl<'a> FieldEntry<'a> {
             )?))
         } else if self.use_default {
             let ty = &self.source.ty;
-            Ok(Some(quote! { <#ty as ::core::default::Default>::default() }))
+            Ok(Some(
+                quote! { <#ty as ::core::default::Default>::default() },
+            ))
         } else {
             Ok(None)
         }
@@ -699,7 +711,7 @@ fn str_expr_to_parse_capture_expr(
     crate_path: &Path,
 ) -> TokenStream {
     if let Some(with) = &field.hattrs.with {
-        let ty = &field.source.ty;
+        let ty = field.value_ty();
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-- 
2.43.0


From 9dc1df8f0014e925c8322bf80259ada04feab546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 07/32] fix: pass format parameters on to the value of an opt
 field

The parameters in "{a:>5}" were dropped when a is an #[display(opt)] field
without a format of its own.
---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 811f5ea..12d47a7 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -933,7 +933,7 @@ impl VarBase<'_> {
                     #crate_path::helpers::OptionFormatHelper::<#inner_ty, _> {
                         value: &#in_expr,
                         f: |#ident : &#inner_ty, #formatter_ident : &mut ::core::fmt::Formatter| {
-                             ::core::write!(#formatter_ident, "{}", #out_expr)
+                             ::core::fmt::Display::fmt(&#out_expr, #formatter_ident)
                         },
                         none_value: "",
                     }
-- 
2.43.0


From 15e317b9502ccac5912707f411c4a693cace3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 08/32] fix: name std items by full path in the code FromStr
 generates

String, format! and format_args! were resolved where the derive is used: an
enum with an imported variant String, a type parameter String or a local
macro of that name broke the derive.
---
 parse-display-derive/src/lib.rs            | 10 +++++-----
 parse-display-derive/src/parser_builder.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 12d47a7..93407fe 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -201,7 +201,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -282,7 +282,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { #s.into() }
+            quote! { <::std::string::String as ::core::convert::From<&str>>::from(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -292,7 +292,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 })
                 .collect::<Vec<_>>();
             let fmt = fmts.join("|");
-            quote! { format!(#fmt, #(#regex_args,)*) }
+            quote! { ::std::format!(#fmt, #(#regex_args,)*) }
         };
 
         ts.extend(impl_trait(
@@ -300,7 +300,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -961,7 +961,7 @@ impl VarBase<'_> {
     ) -> Result<TokenStream> {
         if let Some(format) = format {
             let args = format.format_args(self, with, bounds, cx)?;
-            Ok(quote! { format_args!(#args) })
+            Ok(quote! { ::core::format_args!(#args) })
         } else {
             self.format_arg("", format_spec, span, with, bounds, cx)
         }
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 0e2a30f..f9ff57e 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -306,7 +306,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { #s.into() })
+                Ok(quote! { <::std::string::String as ::core::convert::From<&str>>::from(#s) })
             }
         }
     }
-- 
2.43.0


From 82fd9fcaf8b0f3df9480dbd28eb176dc855c6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 09/32] fix: let an enum with a variant named Err derive
 FromStr

Self::Err in the generated signature was ambiguous between the variant and
the associated type, which rustc denies.
---
 parse-display-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 93407fe..fb98bbe 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -187,7 +187,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -267,7 +267,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
-- 
2.43.0


From 48b44776b650c2b4104c91bcf6b34010c2644649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 10/32] fix: separate the names of a nested field in the error
 message

The message for {a.x} said: field `ax` parse failed.
---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index f9ff57e..fd9e273 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -585,7 +585,7 @@ impl<'a> FieldEntry<'a> {
             }
         }
         for (keys, idx) in &self.deep_captures {
-            let field_name = key.to_string() + &join(keys, ".");
+            let field_name = format!("{key}.{}", join(keys, "."));
             let expr = build_parse_capture_expr(
                 &field_name,
                 capture_index(*idx, names),
-- 
2.43.0


From 19db170050d4f6b6b3cfe0bd12400abcd09ab788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 11/32] fix: let an enum without variants derive Display

A reference to such an enum is not empty, so matching on it needs an arm.
---
 parse-display-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index fb98bbe..33c6923 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -149,9 +149,14 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         arms.push(make_arm(&hattrs, variant, &mut bounds, &cx)?);
     }
     let trait_path = parse_quote!(::core::fmt::Display);
+    let value = if arms.is_empty() {
+        quote!(*self)
+    } else {
+        quote!(self)
+    };
     let contents = quote! {
         fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-            match self {
+            match #value {
                 #(#arms)*
             }
         }
-- 
2.43.0


From 57fb0364e18f8619c55c3b762de18f1a8a611352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 12/32] fix: let from_str(with) override display(with) in any
 attribute order

---
 parse-display-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 33c6923..5493128 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -427,6 +427,9 @@ impl HelperAttributes {
             if a.path().is_ident("display") {
                 hattrs.set_display_args(a.parse_args()?)?;
             }
+        }
+        // After all `#[display]`, since `#[from_str(with = ...)]` overrides `#[display(with = ...)]`.
+        for a in attrs {
             if use_from_str && a.path().is_ident("from_str") {
                 hattrs.push_from_str_warning_spans(a)?;
                 hattrs.set_from_str_args(a.parse_args()?);
-- 
2.43.0


From 78fd12542f6299cff171e16ce1292ffb9d9ae21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 13/32] fix: accept a line break as a fill character

---
 parse-display-derive/src/format_syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/format_syntax.rs b/parse-display-derive/src/format_syntax.rs
index 226b7f5..0f80f7b 100644
--- a/parse-display-derive/src/format_syntax.rs
+++ b/parse-display-derive/src/format_syntax.rs
@@ -96,7 +96,7 @@ impl<'a> FormatSpec<'a> {
     pub fn parse(s: &'a str) -> std::result::Result<Self, FormatParseError> {
         let re = regex!(
             "^\
-             ((?<fill>.)?\
+             ((?<fill>(?s:.))?\
              (?<align>[<>^]))??\
              (?<sign>[+-])?\
              (?<is_alternate>#)?\
-- 
2.43.0


From 6ac872fae2e94e1539645c7500652a97b3137d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 14/32] fix: accept every nested field as a capture in a regex

---
 parse-display-derive/src/parser_builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index fd9e273..330954a 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -125,7 +125,7 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]+$");
+        let regex_number = regex!("^[0-9]");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
@@ -136,11 +136,11 @@ impl<'a> ParserBuilder<'a> {
             }
             let key = &c[IDX_KEY];
             let key = if key.is_empty() {
-                "self".into()
+                "self"
             } else {
-                key.replace('.', "_")
+                key
             };
-            let key = regex_number.replace(&key, "_$0");
+            let key = regex_number.replace(key, "_$0");
             format!("{esc}(?<{key}>")
         });
         if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
-- 
2.43.0


From 5736898dc0f5810e739a1e6135d00da96df1a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 15/32] fix: let the inferred float pattern take the fraction

regex_infer on an f32 or f64 field followed by a field without text in
between split "1.5kg" as "1." and "5kg", because the alternative
without a fraction was tried first.
---
 parse-display/src/from_str_regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display/src/from_str_regex.rs b/parse-display/src/from_str_regex.rs
index c7a3c12..bd6d75b 100644
--- a/parse-display/src/from_str_regex.rs
+++ b/parse-display/src/from_str_regex.rs
@@ -185,7 +185,7 @@ impl FromStrRegex for NonZero<isize> {
 }
 
 fn regex_f() -> String {
-    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?inf|nan)".into()
+    r"(?i:[+-]?([0-9]*\.[0-9]+|[0-9]+\.?)(e[+-]?[0-9]+)?|[+-]?inf|nan)".into()
 }
 impl FromStrRegex for f32 {
     fn from_str_regex() -> String {
-- 
2.43.0


From 8a3fd86c3f07a8acb0809798d8674cd63c7b1045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 16/32] fix: keep the group of a repeated repetition in a regex

The regex is printed from its Hir, which drops the group in (?:a+)? and
thereby turns it into the lazy a+?.
---
 parse-display-derive/src/regex_utils.rs | 33 +++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 35849f1..212513a 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,6 +1,6 @@
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::Hir;
+use regex_syntax::hir::{Capture, Hir, HirKind, Repetition};
 
 pub fn to_hir(s: &str) -> Hir {
     regex_syntax::Parser::new().parse(s).unwrap()
@@ -35,7 +35,36 @@ pub fn hirs_with_start_end(hirs: &[Hir]) -> Vec<Hir> {
     hs
 }
 pub fn to_regex_string(hirs: &[Hir]) -> String {
-    Hir::concat(hirs.to_vec()).to_string()
+    group_repeated(&Hir::concat(hirs.to_vec())).to_string()
+}
+
+/// Put a repetition that is repeated again in a group.
+///
+/// `Hir` is printed without such a group, which turns `(?:a+)?` into `a+?`.
+fn group_repeated(hir: &Hir) -> Hir {
+    match hir.kind() {
+        HirKind::Empty | HirKind::Literal(_) | HirKind::Class(_) | HirKind::Look(_) => hir.clone(),
+        HirKind::Repetition(rep) => {
+            let mut sub = group_repeated(&rep.sub);
+            if let HirKind::Repetition(_) = sub.kind() {
+                sub = Hir::capture(Capture {
+                    index: 0,
+                    name: None,
+                    sub: Box::new(sub),
+                });
+            }
+            Hir::repetition(Repetition {
+                sub: Box::new(sub),
+                ..rep.clone()
+            })
+        }
+        HirKind::Capture(capture) => Hir::capture(Capture {
+            sub: Box::new(group_repeated(&capture.sub)),
+            ..capture.clone()
+        }),
+        HirKind::Concat(hirs) => Hir::concat(hirs.iter().map(group_repeated).collect()),
+        HirKind::Alternation(hirs) => Hir::alternation(hirs.iter().map(group_repeated).collect()),
+    }
 }
 
 fn replace_asts(asts: &mut Vec<Ast>, f: &mut impl FnMut(&mut Ast) -> bool) {
-- 
2.43.0


From 1d5b11c173092577937f892cae6eba62e68a2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 17/32] fix: let the pattern of an enum without parsed variants
 match nothing

---
 parse-display-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 5493128..a2d9a89 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -286,7 +286,12 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .into_iter()
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
-            let s = fmts.join("|");
+            let s = if fmts.is_empty() {
+                // no variant can be parsed, so nothing matches
+                "[a&&b]".to_string()
+            } else {
+                fmts.join("|")
+            };
             quote! { <::std::string::String as ::core::convert::From<&str>>::from(#s) }
         } else {
             let fmts = regex_fmts
-- 
2.43.0


From 3fb810138c243a65d3a9f04c555163060053c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 18/32] fix: give the variables of a new expression the types
 of their fields

Without it a field the expression calls a method on, or does not use,
had no known type.
---
 parse-display-derive/src/parser_builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 330954a..177f827 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -354,12 +354,14 @@ impl<'a> ParserBuilder<'a> {
             // Parse every field before binding any variable, so that a field name cannot hide
             // a variable used to parse the remaining fields.
             let mut vars = Vec::new();
+            let mut tys = Vec::new();
             let mut exprs = Vec::new();
             for (key, field) in &self.fields {
+                tys.push(&field.source.ty);
                 exprs.push(field.build_field_init_expr(&names, key, self.span)?);
                 vars.push(key.new_arg_var());
             }
-            let mut code = quote! { let (#(#vars,)*) = (#(#exprs,)*); };
+            let mut code = quote! { let (#(#vars,)*): (#(#tys,)*) = (#(#exprs,)*); };
             let crate_path = self.crate_path;
             code.extend(quote! {
                 if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
-- 
2.43.0


From 36a5c8e1a19dddc9bdcebc2560d11e2df56ad2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 19/32] fix: Display derive compiles when a field's bound is on
 a reference to another field's type

---
 parse-display-derive/src/lib.rs |  9 +++------
 parse-display/src/helpers.rs    | 23 +++++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index a2d9a89..524bb11 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -757,12 +757,9 @@ impl DisplayFormat {
                     let format_spec = FormatSpec::parse_with_span(format_spec, self.span)?;
                     let format_arg =
                         vb.format_arg(arg, &format_spec, self.span, with, bounds, cx)?;
-                    let mut expr = quote!(&#format_arg);
-                    if format_spec.format_type == FormatType::Pointer {
-                        let crate_path = &cx.crate_path;
-                        expr = quote!(#crate_path::helpers::fmt_pointer(#expr));
-                    }
-                    expr = set_span(expr, self.span);
+                    let crate_path = &cx.crate_path;
+                    let expr = quote!(#crate_path::helpers::FmtRef(&#format_arg));
+                    let expr = set_span(expr, self.span);
                     format_args.push(expr);
                 }
             }
diff --git a/parse-display/src/helpers.rs b/parse-display/src/helpers.rs
index 5659cba..b978b52 100644
--- a/parse-display/src/helpers.rs
+++ b/parse-display/src/helpers.rs
@@ -25,18 +25,21 @@ where
     fmt.parse(s)
 }
 
-struct FmtPointer<'a, T: ?Sized + fmt::Pointer>(&'a T);
+pub struct FmtRef<'a, T: ?Sized>(pub &'a T);
 
-impl<T: ?Sized + fmt::Pointer> fmt::Pointer for FmtPointer<'_, T> {
-    #[inline]
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        fmt::Pointer::fmt(self.0, f)
-    }
-}
-
-pub fn fmt_pointer<T: ?Sized + fmt::Pointer>(value: &T) -> impl fmt::Pointer + '_ {
-    FmtPointer(value)
+macro_rules! impl_fmt_ref {
+    ($($trait:ident),*) => {
+        $(
+            impl<T: ?Sized + fmt::$trait> fmt::$trait for FmtRef<'_, T> {
+                #[inline]
+                fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+                    fmt::$trait::fmt(self.0, f)
+                }
+            }
+        )*
+    };
 }
+impl_fmt_ref!(Display, Debug, Octal, LowerHex, UpperHex, Pointer, Binary, LowerExp, UpperExp);
 
 pub struct OptionFormatHelper<'a, T, F> {
     pub value: &'a Option<T>,
-- 
2.43.0


From 468fe548b12bac1c3ec00cdae9c3c6693e81f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 20/32] fix: try every variant with the same constant text when
 a new expression rejects

---
 parse-display-derive/src/lib.rs            | 12 +++++++++---
 parse-display-derive/src/parser_builder.rs |  5 ++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 524bb11..2bf7a2a 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -225,7 +225,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
     let mut bounds = Bounds::from_data(hattrs_enum.bound_from_str_resolved());
     let generics = GenericParamSet::new(&input.generics);
     let mut bodys = Vec::new();
-    let mut arms = Vec::new();
+    let mut arms: Vec<(String, Vec<TokenStream>)> = Vec::new();
     let mut regex_fmts = Vec::new();
     let mut regex_args = Vec::new();
     let mut deprecated_default_fields_warning_spans =
@@ -246,12 +246,18 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         let mut bounds = bounds.child(hattrs_variant.bound_from_str_resolved());
         p.build_bounds(&generics, &mut bounds)?;
         match p.build_parse_variant_code(constructor)? {
-            ParseVariantCode::MatchArm(arm) => arms.push(arm),
+            ParseVariantCode::MatchArm(s, code) => match arms.iter_mut().find(|(x, _)| *x == s) {
+                Some((_, codes)) => codes.push(code),
+                None => arms.push((s, vec![code])),
+            },
             ParseVariantCode::Statement(body) => bodys.push(body),
         }
         p.build_regex_fmts_args(&mut regex_fmts, &mut regex_args)?;
     }
-    let match_body = if arms.is_empty() {
+    let arms = arms
+        .into_iter()
+        .map(|(s, codes)| quote! { #s => { #({ #codes })* } });
+    let match_body = if arms.len() == 0 {
         quote! {}
     } else {
         quote! {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 177f827..1e9e9a4 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -329,8 +329,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let code = self.build_construct_code(constructor)?;
-                let code = quote! { #s  => { #code }};
-                Ok(ParseVariantCode::MatchArm(code))
+                Ok(ParseVariantCode::MatchArm(s.clone(), code))
             }
         }
     }
@@ -624,7 +623,7 @@ impl<'a> FieldEntry<'a> {
 }
 
 pub enum ParseVariantCode {
-    MatchArm(TokenStream),
+    MatchArm(String, TokenStream),
     Statement(TokenStream),
 }
 
-- 
2.43.0


From 68dea20f6fa4e591c1d2a95167bef040f9f978b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 21/32] fix: see an Option that comes from a macro's $t:ty

---
 parse-display-derive/src/syn_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index b11b4e6..c4c3d8f 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -179,6 +179,10 @@ pub fn dump_if(dump: bool, ts: &TokenStream) {
 }
 
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
+    // A type that comes from a macro's `$t:ty` is in an invisible group.
+    if let Type::Group(ty) = ty {
+        return get_arguments_of(&ty.elem, ns, name);
+    }
     if let Type::Path(ty) = ty {
         if ty.qself.is_some() {
             return None;
-- 
2.43.0


From 3abc62d06b64f93c94331f5336411dd313796c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 22/32] fix: keep the names of generated locals out of the
 user's way

---
 parse-display-derive/src/lib.rs            | 18 ++++-----
 parse-display-derive/src/parser_builder.rs | 46 +++++++++++-----------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2bf7a2a..d1dd76a 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -68,7 +68,7 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
     };
     let write = format
         .format_args(&vb, &None, &mut bounds, &cx)?
-        .build_write(quote!(f))?;
+        .build_write(quote!(__f))?;
     let trait_path = parse_quote!(::core::fmt::Display);
     let wheres = bounds.build_wheres(&trait_path);
     impl_trait_result(
@@ -76,7 +76,7 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
         &trait_path,
         &wheres,
         quote! {
-            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+            fn fmt(&self, __f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                 #write
             }
         },
@@ -130,7 +130,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
                 &mut bounds.child(hattrs_variant.bound_display),
                 cx,
             )?
-            .build_write(quote!(f))?;
+            .build_write(quote!(__f))?;
         Ok(quote! {
             & Self::#variant_ident #fields => {
                 #write
@@ -155,7 +155,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         quote!(self)
     };
     let contents = quote! {
-        fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+        fn fmt(&self, __f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
             match #value {
                 #(#arms)*
             }
@@ -192,7 +192,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(__s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -261,7 +261,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         quote! {}
     } else {
         quote! {
-            match s {
+            match __s {
                 #(#arms,)*
                 _ => { }
             }
@@ -278,7 +278,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(__s: &::core::primitive::str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
@@ -298,7 +298,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             } else {
                 fmts.join("|")
             };
-            quote! { <::std::string::String as ::core::convert::From<&str>>::from(#s) }
+            quote! { <::std::string::String as ::core::convert::From<&::core::primitive::str>>::from(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -933,7 +933,7 @@ impl VarBase<'_> {
             };
             let crate_path = cx.crate_path;
             let in_expr = self.field_expr(key);
-            let formatter_ident = Ident::new("_formatter", Span::call_site());
+            let formatter_ident = Ident::new("__formatter", Span::call_site());
             let vb = VarBase::FieldSome { key, ty: inner_ty };
             let out_expr = vb.format_arg_from_some_format(
                 hattrs.format,
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 1e9e9a4..710c34b 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -306,7 +306,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { <::std::string::String as ::core::convert::From<&str>>::from(#s) })
+                Ok(quote! { <::std::string::String as ::core::convert::From<&::core::primitive::str>>::from(#s) })
             }
         }
     }
@@ -314,15 +314,15 @@ impl<'a> ParserBuilder<'a> {
     pub fn build_parse_variant_code(&self, constructor: Path) -> Result<ParseVariantCode> {
         match &self.parse_format {
             ParseFormat::Hirs(_) => {
-                let fn_ident: Ident = format_ident!("parse_variant");
+                let fn_ident: Ident = format_ident!("__parse_variant");
                 let crate_path = self.crate_path;
                 let code = self.build_from_str_body(constructor)?;
                 let code = quote! {
-                    let #fn_ident = |s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
+                    let #fn_ident = |__s: &::core::primitive::str| -> ::core::result::Result<Self, #crate_path::ParseError> {
                         #code
                     };
-                    if let ::core::result::Result::Ok(value) = #fn_ident(s) {
-                        return ::core::result::Result::Ok(value);
+                    if let ::core::result::Result::Ok(__value) = #fn_ident(__s) {
+                        return ::core::result::Result::Ok(__value);
                     }
                 };
                 Ok(ParseVariantCode::Statement(code))
@@ -363,21 +363,21 @@ impl<'a> ParserBuilder<'a> {
             let mut code = quote! { let (#(#vars,)*): (#(#tys,)*) = (#(#exprs,)*); };
             let crate_path = self.crate_path;
             code.extend(quote! {
-                if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
-                    return ::core::result::Result::Ok(value);
+                if let ::core::result::Result::Ok(__value) = #crate_path::IntoResult::into_result(#new_expr) {
+                    return ::core::result::Result::Ok(__value);
                 }
             });
             code
         } else if self.use_default {
             let mut setters = Vec::new();
             for (key, field) in &self.fields {
-                let left_expr = quote! { value . #key };
+                let left_expr = quote! { __value . #key };
                 setters.push(field.build_setters(&names, key, left_expr, true)?);
             }
             quote! {
-                let mut value = <Self as ::core::default::Default>::default();
+                let mut __value = <Self as ::core::default::Default>::default();
                 #(#setters)*
-                return ::core::result::Result::Ok(value);
+                return ::core::result::Result::Ok(__value);
             }
         } else {
             let ps = match &self.source {
@@ -424,7 +424,7 @@ impl<'a> ParserBuilder<'a> {
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
             debug_asserts.push(quote_spanned! {expr.span()=>
-                ::core::debug_assert_eq!(&p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
+                ::core::debug_assert_eq!(&__p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
         Ok(ParserInit {
@@ -442,17 +442,17 @@ impl<'a> ParserBuilder<'a> {
                 } = self.build_parser_init(&hirs_with_start_end(hirs))?;
                 let crate_path = self.crate_path;
                 quote! {
-                    static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
+                    static __PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
                     #[allow(clippy::trivial_regex)]
-                    let p = PARSER.get_or_init(|| #expr);
+                    let __p = __PARSER.get_or_init(|| #expr);
                     #(#debug_asserts)*
-                    if let ::core::option::Option::Some(c) = p.re.captures(&s) {
+                    if let ::core::option::Option::Some(__c) = __p.re.captures(&__s) {
                          #code
                     }
                 }
             }
             ParseFormat::String(s) => quote! {
-                if s == #s {
+                if __s == #s {
                     #code
                 }
             },
@@ -606,13 +606,13 @@ impl<'a> FieldEntry<'a> {
     ) -> Result<TokenStream> {
         if let Some(mut expr) = self.build_expr(names, key)? {
             if !self.deep_captures.is_empty() {
-                let setters = self.build_setters(names, key, quote!(field_value), false)?;
+                let setters = self.build_setters(names, key, quote!(__field_value), false)?;
                 let ty = &self.source.ty;
                 expr = quote! {
                     {
-                        let mut field_value : #ty = #expr;
+                        let mut __field_value : #ty = #expr;
                         #setters
-                        field_value
+                        __field_value
                     }
                 };
             }
@@ -688,22 +688,22 @@ fn build_parse_capture_expr(
     let msg = format!("field `{field_name}` parse failed.");
     let e = if let Some(field) = field {
         if field.hattrs.opt.value() {
-            let e = str_expr_to_parse_capture_expr(quote!(s), field, crate_path);
+            let e = str_expr_to_parse_capture_expr(quote!(__s), field, crate_path);
             quote! {
-                c.get(#capture_index).map(|m| m.as_str()).map(|s| #e).transpose()
+                __c.get(#capture_index).map(|__m| __m.as_str()).map(|__s| #e).transpose()
             }
         } else {
             str_expr_to_parse_capture_expr(
-                quote!(c.get(#capture_index).map_or("", |m| m.as_str())),
+                quote!(__c.get(#capture_index).map_or("", |__m| __m.as_str())),
                 field,
                 crate_path,
             )
         }
     } else {
-        quote!(c.get(#capture_index).map_or("", |m| m.as_str()).parse())
+        quote!(__c.get(#capture_index).map_or("", |__m| __m.as_str()).parse())
     };
     Ok(quote! {
-        #e.map_err(|e| #crate_path::ParseError::with_message(#msg))?
+        #e.map_err(|__e| #crate_path::ParseError::with_message(#msg))?
     })
 }
 fn str_expr_to_parse_capture_expr(
-- 
2.43.0


From 87174f666f9428eedb51487feefc608744b6d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 23/32] fix: accept with and new expressions that are passed to
 a macro

---
 parse-display-derive/src/lib.rs            |  6 ++--
 parse-display-derive/src/parser_builder.rs | 35 +++++++++++++++++-----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index d1dd76a..defcfc2 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -765,7 +765,7 @@ impl DisplayFormat {
                         vb.format_arg(arg, &format_spec, self.span, with, bounds, cx)?;
                     let crate_path = &cx.crate_path;
                     let expr = quote!(#crate_path::helpers::FmtRef(&#format_arg));
-                    let expr = set_span(expr, self.span);
+                    let expr = set_span(expr, self.span.resolved_at(Span::call_site()));
                     format_args.push(expr);
                 }
             }
@@ -1200,7 +1200,9 @@ fn trim_raw(s: &str) -> &str {
 fn set_span(ts: TokenStream, span: Span) -> TokenStream {
     ts.into_iter()
         .map(|mut ts| {
-            ts.set_span(span);
+            if ts.to_string() != "$crate" {
+                ts.set_span(span);
+            }
             ts
         })
         .collect()
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 710c34b..01f34dd 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -2,8 +2,8 @@ use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
     With, field_map, get_option_element, join, regex_utils::*, set_span, syn_utils::*,
 };
-use proc_macro2::{Span, TokenStream};
-use quote::{format_ident, quote, quote_spanned};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
+use quote::{ToTokens, format_ident, quote, quote_spanned};
 use regex::{Captures, Regex};
 use regex_syntax::{
     escape,
@@ -14,8 +14,8 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
-    spanned::Spanned,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, ext::IdentExt,
+    parse_quote, spanned::Spanned,
 };
 
 pub(crate) struct ParserBuilder<'a> {
@@ -360,6 +360,7 @@ impl<'a> ParserBuilder<'a> {
                 exprs.push(field.build_field_init_expr(&names, key, self.span)?);
                 vars.push(key.new_arg_var());
             }
+            let new_expr = resolve_vars(new_expr.to_token_stream(), &vars);
             let mut code = quote! { let (#(#vars,)*): (#(#tys,)*) = (#(#exprs,)*); };
             let crate_path = self.crate_path;
             code.extend(quote! {
@@ -418,12 +419,13 @@ impl<'a> ParserBuilder<'a> {
             },
         ) in self.with.iter().enumerate()
         {
-            with.push(quote_spanned! {expr.span()=>
+            let span = expr.span().resolved_at(Span::call_site());
+            with.push(quote_spanned! {span=>
                 (#capture, #helpers::to_ast::<#ty, _>(&#expr))
             });
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
-            debug_asserts.push(quote_spanned! {expr.span()=>
+            debug_asserts.push(quote_spanned! {span=>
                 ::core::debug_assert_eq!(&__p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
@@ -706,6 +708,25 @@ fn build_parse_capture_expr(
         #e.map_err(|__e| #crate_path::ParseError::with_message(#msg))?
     })
 }
+/// Lets the names of `vars` in `expr` refer to `vars`, even if they were passed to a macro.
+fn resolve_vars(expr: TokenStream, vars: &[Ident]) -> TokenStream {
+    expr.into_iter()
+        .map(|mut token| {
+            match &mut token {
+                TokenTree::Group(g) => {
+                    let mut group = Group::new(g.delimiter(), resolve_vars(g.stream(), vars));
+                    group.set_span(g.span());
+                    *g = group;
+                }
+                TokenTree::Ident(i) if vars.iter().any(|v| v.unraw() == i.unraw()) => {
+                    i.set_span(i.span().resolved_at(Span::call_site()));
+                }
+                _ => {}
+            }
+            token
+        })
+        .collect()
+}
 fn str_expr_to_parse_capture_expr(
     str_expr: TokenStream,
     field: &FieldEntry,
@@ -716,7 +737,7 @@ fn str_expr_to_parse_capture_expr(
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-        set_span(expr, with.span())
+        set_span(expr, with.span().resolved_at(Span::call_site()))
     } else {
         quote!(#str_expr.parse())
     }
-- 
2.43.0


From 72bd5d43591009d79608382927c2501ca0ae7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 24/32] fix: let a failing release leave every file as it was

---
 .../scripts/prepare_release.rs                | 50 ++++++++++---------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index 877e1fb..d03ec76 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -67,35 +67,39 @@ fn run() -> Result<(), String> {
     let derive_changed = derive_changed_since_last_version(&root)?;
 
     let mut changed = Vec::new();
-    set_package_version(&parse_display_manifest, &version, dry_run, &mut changed)?;
-    set_lock_package_version(&lockfile, "parse-display", &version, dry_run, &mut changed)?;
-    update_docs(&root, &current_version, &version, dry_run, &mut changed)?;
-
-    if derive_changed {
-        set_package_version(&derive_manifest, &version, dry_run, &mut changed)?;
-        set_parse_display_derive_dependency(
-            &parse_display_manifest,
-            &version,
-            dry_run,
-            &mut changed,
-        )?;
-        set_lock_package_version(
-            &lockfile,
-            "parse-display-derive",
+    // Write nothing before every update is known to succeed.
+    let passes: &[bool] = if dry_run { &[true] } else { &[true, false] };
+    for &dry_run in passes {
+        set_package_version(&parse_display_manifest, &version, dry_run, &mut changed)?;
+        set_lock_package_version(&lockfile, "parse-display", &version, dry_run, &mut changed)?;
+        update_docs(&root, &current_version, &version, dry_run, &mut changed)?;
+
+        if derive_changed {
+            set_package_version(&derive_manifest, &version, dry_run, &mut changed)?;
+            set_parse_display_derive_dependency(
+                &parse_display_manifest,
+                &version,
+                dry_run,
+                &mut changed,
+            )?;
+            set_lock_package_version(
+                &lockfile,
+                "parse-display-derive",
+                &version,
+                dry_run,
+                &mut changed,
+            )?;
+        }
+
+        update_changelog(
+            &root.join("CHANGELOG.md"),
+            &previous_version,
             &version,
             dry_run,
             &mut changed,
         )?;
     }
 
-    update_changelog(
-        &root.join("CHANGELOG.md"),
-        &previous_version,
-        &version,
-        dry_run,
-        &mut changed,
-    )?;
-
     changed.sort();
     changed.dedup();
 
-- 
2.43.0


From b866dfff7f75b3d0f36c829eae8aea0b59740d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 25/32] fix: release parse-display-with with the version of
 parse-display it requires

---
 .../scripts/prepare_release.rs                | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index d03ec76..027ff05 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -61,6 +61,7 @@ fn run() -> Result<(), String> {
     }
 
     let derive_manifest = root.join("parse-display-derive").join("Cargo.toml");
+    let with_manifest = root.join("parse-display-with").join("Cargo.toml");
     let lockfile = root.join("Cargo.lock");
 
     let previous_version = previous_changelog_version(&root.join("CHANGELOG.md"))?;
@@ -72,13 +73,21 @@ fn run() -> Result<(), String> {
     for &dry_run in passes {
         set_package_version(&parse_display_manifest, &version, dry_run, &mut changed)?;
         set_lock_package_version(&lockfile, "parse-display", &version, dry_run, &mut changed)?;
+        set_dependency_version(
+            &with_manifest,
+            "parse-display",
+            &version,
+            dry_run,
+            &mut changed,
+        )?;
         update_docs(&root, &current_version, &version, dry_run, &mut changed)?;
 
         if derive_changed {
             set_package_version(&derive_manifest, &version, dry_run, &mut changed)?;
-            set_parse_display_derive_dependency(
+            set_dependency_version(
                 &parse_display_manifest,
-                &version,
+                "parse-display-derive",
+                &format!("={version}"),
                 dry_run,
                 &mut changed,
             )?;
@@ -263,8 +272,9 @@ fn set_package_version(
     write_if_changed(manifest, finish(lines), dry_run, changed)
 }
 
-fn set_parse_display_derive_dependency(
+fn set_dependency_version(
     manifest: &Path,
+    dependency: &str,
     version: &str,
     dry_run: bool,
     changed: &mut Vec<PathBuf>,
@@ -272,14 +282,14 @@ fn set_parse_display_derive_dependency(
     let text = read(manifest)?;
     let old_line = text
         .lines()
-        .find(|line| line.trim_start().starts_with("parse-display-derive = {"))
+        .find(|line| line.trim_start().starts_with(&format!("{dependency} = {{")))
         .ok_or_else(|| {
             format!(
-                "could not find parse-display-derive dependency in {}",
+                "could not find {dependency} dependency in {}",
                 manifest.display()
             )
         })?;
-    let new_line = replace_dependency_version(old_line, &format!("={version}"))?;
+    let new_line = replace_dependency_version(old_line, version)?;
     write_if_changed(
         manifest,
         text.replacen(old_line, &new_line, 1),
-- 
2.43.0


From 37b4747843303e9d30bd6ad365787d36f72f222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 26/32] fix: keep line endings when preparing a release

---
 .../prepare-release/scripts/prepare_release.rs   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index 027ff05..1617a70 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -210,7 +210,14 @@ fn write_if_changed(
     dry_run: bool,
     changed: &mut Vec<PathBuf>,
 ) -> Result<(), String> {
-    if read(path)? == text {
+    let old_text = read(path)?;
+    // `lines` and `finish` drop the `\r` of the line endings.
+    let text = if old_text.contains("\r\n") && !text.contains('\r') {
+        text.replace('\n', "\r\n")
+    } else {
+        text
+    };
+    if old_text == text {
         return Ok(());
     }
 
@@ -367,8 +374,7 @@ fn update_doc_text(text: &str, old_version: &str, version: &str) -> String {
     let docs_after = format!("docs.rs/parse-display/{version}/");
     let mut in_deprecated_section = false;
 
-    let lines = text
-        .lines()
+    text.split_inclusive('\n')
         .map(|line| {
             let doc_line = markdown_text(line);
             if doc_line.starts_with("## ") {
@@ -382,9 +388,7 @@ fn update_doc_text(text: &str, old_version: &str, version: &str) -> String {
             }
             line
         })
-        .collect::<Vec<_>>();
-
-    finish(lines)
+        .collect()
 }
 
 fn markdown_text(line: &str) -> &str {
-- 
2.43.0


From ba117fbc73a314ff624efc561e4c15e9607f429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 27/32] fix: reject from_str(default) on a variant

---
 parse-display-derive/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index defcfc2..f37ef67 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -240,6 +240,12 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         if hattrs_variant.ignore.value() {
             continue;
         }
+        if let Some(span) = hattrs_variant.default_self {
+            bail!(
+                span,
+                "`#[from_str(default)]` cannot be specified for variant."
+            );
+        }
         let variant_ident = &variant.ident;
         let constructor = parse_quote!(Self::#variant_ident);
         let p = ParserBuilder::from_variant(&hattrs_variant, &hattrs_enum, variant)?;
-- 
2.43.0


From ce52c812e5483d2d310a2cd2d68cc1307eacf4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 28/32] fix: reject {} in a struct format when only FromStr is
 derived

---
 parse-display-derive/src/parser_builder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 01f34dd..031300d 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,6 +1,11 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, get_option_element, join, regex_utils::*, set_span, syn_utils::*,
+    With, field_map,
+    format_syntax::{FormatSpec, FormatType},
+    get_option_element, join,
+    regex_utils::*,
+    set_span,
+    syn_utils::*,
 };
 use proc_macro2::{Group, Span, TokenStream, TokenTree};
 use quote::{ToTokens, format_ident, quote, quote_spanned};
@@ -204,8 +209,16 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::Str(s) => self.push_str(s),
                 DisplayFormatPart::EscapedBeginBracket => self.push_str("{"),
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
-                DisplayFormatPart::Var { arg, .. } => {
+                DisplayFormatPart::Var { arg, format_spec } => {
                     let keys = FieldKey::from_str_deep(arg);
+                    if let VarBase::Struct { .. } = vb {
+                        if keys.is_empty()
+                            && FormatSpec::parse(format_spec)
+                                .is_ok_and(|spec| spec.format_type == FormatType::Display)
+                        {
+                            bail!(format.span, "{{}} is not allowed in struct format.");
+                        }
+                    }
                     if let VarBase::Variant { variant, style, .. } = vb {
                         if keys.is_empty() {
                             self.push_str(&style.apply(&variant.ident));
-- 
2.43.0


From 32a896393dd0fb889eae55ac6781cd3ef6635336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 29/32] fix: keep Display of a variant apart from user items
 named _value_field

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index f37ef67..045b813 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1149,7 +1149,7 @@ impl FieldKey {
         }
     }
     fn binding_var(&self) -> Ident {
-        parse_str(&format!("_value_{self}")).unwrap()
+        parse_str(&format!("__value_{self}")).unwrap()
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-- 
2.43.0


From 562edf65ed84056784a889260b5fba5162b6fb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 30/32] fix: warn about default_fields behind an argument with
 a value

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 045b813..0881b39 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -523,7 +523,7 @@ impl HelperAttributes {
                     .push(meta.path.span());
             }
             if meta.input.peek(Token![=]) {
-                meta.value()?.parse::<TokenStream>()?;
+                meta.value()?.parse::<Expr>()?;
             } else if meta.input.peek(syn::token::Paren) {
                 let content;
                 syn::parenthesized!(content in meta.input);
-- 
2.43.0


From 2202b07b68ffd328a851d5e176a34a5d3e9a7e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 31/32] fix: report invalid names and patterns instead of
 panicking

An invalid name behind a dot, a pattern regex-syntax does not read and a
pattern in which the capture of a field gets lost made the derives panic;
they now answer with an error at the format or pattern.
---
 parse-display-derive/src/lib.rs            | 21 +++++++++++++-
 parse-display-derive/src/parser_builder.rs | 32 +++++++++++++---------
 parse-display-derive/src/regex_utils.rs    | 22 +++++++++------
 3 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 0881b39..e1d30c4 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -31,7 +31,7 @@ use syn::{
     FieldsUnnamed, GenericArgument, Ident, LitStr, Member, Path, PathArguments, Result, Token,
     Type, Variant,
     ext::IdentExt,
-    parse::{Parse, ParseStream},
+    parse::{Parse, ParseStream, Parser},
     parse_macro_input, parse_quote, parse_str,
     spanned::Spanned,
 };
@@ -908,6 +908,9 @@ impl VarBase<'_> {
                 return self.format_arg_of_field(key, field, format_spec, span, bounds, cx);
             }
         }
+        for key in &keys {
+            key.check(span)?;
+        }
         let mut expr = self.field_expr(&keys[0]);
         for key in &keys[1..] {
             expr.extend(quote! { .#key });
@@ -1142,6 +1145,22 @@ impl FieldKey {
         }
     }
 
+    /// Reject what cannot be the name of a field.
+    fn check(&self, span: Span) -> Result<()> {
+        let is_valid = match self {
+            FieldKey::Named(s) => {
+                !matches!(s.as_str(), "_" | "self" | "Self" | "super" | "crate")
+                    && !s.starts_with("r#")
+                    && Ident::parse_any.parse_str(s).is_ok()
+                    && Ident::parse_any.parse_str(&format!("_{s}_")).is_ok()
+            }
+            FieldKey::Unnamed(idx) => u32::try_from(*idx).is_ok(),
+        };
+        if !is_valid {
+            bail!(span, "unknown field '{self}'.");
+        }
+        Ok(())
+    }
     fn to_member(&self) -> Member {
         match self {
             FieldKey::Named(s) => Member::Named(format_ident!("r#{s}")),
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 031300d..1166ef7 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -113,6 +113,9 @@ impl<'a> ParserBuilder<'a> {
             field_key = &keys[0];
             sub_keys = &keys[1..];
         }
+        for key in sub_keys {
+            key.check(span)?;
+        }
         let field = field_of(&mut self.fields, field_key, span)?;
         Ok(field.set_capture(sub_keys, &mut self.capture_next))
     }
@@ -176,8 +179,8 @@ impl<'a> ParserBuilder<'a> {
         if has_capture_empty {
             if let VarBase::Variant { variant, style, .. } = vb {
                 let value = style.apply(&variant.ident);
-                self.parse_format
-                    .push_hir(to_hir_with_expand(&text, CAPTURE_NAME_EMPTY, &value));
+                let hir = to_hir_with_expand(&text, CAPTURE_NAME_EMPTY, &value, s.span())?;
+                self.parse_format.push_hir(hir);
                 return Ok(());
             }
             bail!(
@@ -194,7 +197,7 @@ impl<'a> ParserBuilder<'a> {
                 text = format!("(?<{name}>{text})");
             }
         }
-        self.parse_format.push_hir(to_hir(&text));
+        self.parse_format.push_hir(to_hir(&text, s.span())?);
         Ok(())
     }
     fn push_format(
@@ -249,7 +252,7 @@ impl<'a> ParserBuilder<'a> {
                             }
                         }
                     }
-                    self.parse_format.push_hir(to_hir(&f));
+                    self.parse_format.push_hir(to_hir(&f, format.span)?);
                 }
             }
         }
@@ -352,7 +355,10 @@ impl<'a> ParserBuilder<'a> {
         let re;
         match &self.parse_format {
             ParseFormat::Hirs(hirs) => {
-                re = Regex::new(&to_regex_string(hirs)).unwrap();
+                re = match Regex::new(&to_regex_string(hirs)) {
+                    Ok(re) => re,
+                    Err(e) => bail!(self.span, "{e}"),
+                };
                 for (index, name) in re.capture_names().enumerate() {
                     if let Some(name) = name {
                         names.insert(name, index);
@@ -563,18 +569,21 @@ impl<'a> FieldEntry<'a> {
         };
         capture_name(idx)
     }
-    fn capture_index(&self, names: &HashMap<&str, usize>) -> Option<usize> {
-        Some(capture_index(self.capture?, names))
+    fn capture_index(&self, idx: usize, names: &HashMap<&str, usize>) -> Result<usize> {
+        let Some(index) = names.get(capture_name(idx).as_str()) else {
+            bail!(self.source.span(), "capture of the field is not found.");
+        };
+        Ok(*index)
     }
     fn build_expr(
         &self,
         names: &HashMap<&str, usize>,
         key: &FieldKey,
     ) -> Result<Option<TokenStream>> {
-        if let Some(capture_index) = self.capture_index(names) {
+        if let Some(capture) = self.capture {
             Ok(Some(build_parse_capture_expr(
                 &key.to_string(),
-                capture_index,
+                self.capture_index(capture, names)?,
                 Some(self),
                 self.crate_path,
             )?))
@@ -604,7 +613,7 @@ impl<'a> FieldEntry<'a> {
             let field_name = format!("{key}.{}", join(keys, "."));
             let expr = build_parse_capture_expr(
                 &field_name,
-                capture_index(*idx, names),
+                self.capture_index(*idx, names)?,
                 None,
                 self.crate_path,
             )?;
@@ -760,9 +769,6 @@ const CAPTURE_NAME_EMPTY: &str = "empty";
 fn capture_name(idx: usize) -> String {
     format!("value_{idx}")
 }
-fn capture_index(idx: usize, names: &HashMap<&str, usize>) -> usize {
-    names[capture_name(idx).as_str()]
-}
 
 struct FieldEntry<'a> {
     hattrs: HelperAttributes,
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 212513a..1fa9bf5 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,15 +1,19 @@
+use proc_macro2::Span;
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
 use regex_syntax::hir::{Capture, Hir, HirKind, Repetition};
 
-pub fn to_hir(s: &str) -> Hir {
-    regex_syntax::Parser::new().parse(s).unwrap()
+pub fn to_hir(s: &str, span: Span) -> syn::Result<Hir> {
+    regex_syntax::Parser::new()
+        .parse(s)
+        .map_err(|e| syn::Error::new(span, e))
 }
-pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
-    let mut ast = to_ast(s);
+pub fn to_hir_with_expand(s: &str, name: &str, value: &str, span: Span) -> syn::Result<Hir> {
+    let mut ast = to_ast(s, span)?;
+    let value = to_ast(&regex_syntax::escape(value), span)?;
     expand_capture(&mut ast, |group_name| {
         if group_name == name {
-            Some(to_ast(&regex_syntax::escape(value)))
+            Some(value.clone())
         } else {
             None
         }
@@ -18,11 +22,13 @@ pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
 
     regex_syntax::hir::translate::Translator::new()
         .translate(&s, &ast)
-        .unwrap()
+        .map_err(|e| syn::Error::new(span, e))
 }
 
-fn to_ast(s: &str) -> Ast {
-    regex_syntax::ast::parse::Parser::new().parse(s).unwrap()
+fn to_ast(s: &str, span: Span) -> syn::Result<Ast> {
+    regex_syntax::ast::parse::Parser::new()
+        .parse(s)
+        .map_err(|e| syn::Error::new(span, e))
 }
 
 pub fn push_str(hirs: &mut Vec<Hir>, s: &str) {
-- 
2.43.0


From 15ee1f508cf67ee65bc3605bb199282fbdd5b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 32/32] fix: name a deprecated type without a warning

---
 parse-display-derive/src/syn_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index c4c3d8f..1fc5a3c 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
 use std::collections::HashSet;
 use syn::{
@@ -143,7 +143,9 @@ pub fn impl_trait(
     wheres: &[WherePredicate],
     contents: TokenStream,
 ) -> TokenStream {
-    let ty = &input.ident;
+    // With a span in the derive, naming a `#[deprecated]` type causes no warning.
+    let mut ty = input.ident.clone();
+    ty.set_span(ty.span().resolved_at(Span::call_site()));
     let (impl_g, ty_g, where_clause) = input.generics.split_for_impl();
     let mut wheres = wheres.to_vec();
     if let Some(where_clause) = where_clause {
-- 
2.43.0

