#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a statement changes)."""
import json, os
L="parse-display-derive/src/lib.rs"; P="parse-display-derive/src/parser_builder.rs"
R="parse-display-derive/src/regex_utils.rs"; B="parse-display-derive/src/bound.rs"
S="parse-display-derive/src/syn_utils.rs"; F="parse-display-derive/src/format_syntax.rs"
H="parse-display/src/helpers.rs"; HS="parse-display/src/helpers_std.rs"; LIB="parse-display/src/lib.rs"
FR="parse-display/src/from_str_regex.rs"; W="parse-display-with/src/formats.rs"
REL=".codex/skills/prepare-release/scripts/prepare_release.rs"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Derived Display writes exactly the declared format",
 "For every struct or enum whose derive is accepted, the text of its derived Display is the declared format (the variant's own, else the enum's; the only field for a newtype, the variant name for a unit variant when there is none) with literal text copied verbatim and {{ and }} as single braces. Every placeholder is replaced by the text of exactly the field it names - by name, raw name, index or nested path - written through that field's own format when it has one, and {} in a variant's format by the variant's name. The parameters with which the derived value itself is formatted do not change its text.",
 ["programs","inputs"],"all accepted declarations (shapes, names, formats, field formats) and all values of the declared types",
 "The tests fix a few dozen declarations and one or two values each; the guarantee is over all combinations of shape, field count, name, literal text and attribute position.",
 [L,H],[("format string parser",L+": DisplayFormat::parse"),("argument construction",L+": DisplayFormat::format_args, VarBase::format_arg, field_expr"),("per-variant match arms",L+": derive_display_for_enum")],
 ["Display::fmt / to_string of derived types"])
p("C02","Format parameters act as in std's format!",
 "Parameters after the colon of a placeholder (fill (any character but a brace), alignment, sign, #, 0, width, precision and the trait letter, including ?, x?, X?, o, x, X, p, b, e, E) reach the formatted value exactly as they would in std's format!: the value is formatted once, through the trait the parameters name, with those parameters. In a struct's or enum's format, an empty name with a trait other than Display formats the value itself through that trait.",
 ["programs","inputs"],"all parameter strings std accepts with literal width and precision, on all fields, field formats, opt fields and self, for all values",
 "The tests check a handful of parameter strings; the space is the product of fill characters, alignments, flags, widths, precisions and eleven traits in five positions.",
 [L,F,H],[("parameter grammar",F+": FormatSpec::parse"),("pass-through of parameters",L+": DisplayFormat::format_args"),("pointer wrapper",H+": fmt_pointer"),("opt formatting",H+": OptionFormatHelper")],
 ["the formatter flags and the trait seen by a field type that records them"])
p("C03","Variant names follow the selected style everywhere they are used",
 "The name of a variant is its identifier (without r#) rewritten by the style selected on the variant, else on the enum, else unchanged: words begin after a separator and at an ASCII capital that does not follow an ASCII capital, and the style decides the ASCII case of the first letter of the name, of the first letter of the other words and of the remaining letters, and the separator between words. Display, FromStr, the empty capture in a regex and the inferred pattern all use that same name.",
 ["programs","inputs"],"all 13 styles on all identifiers, set on the enum and/or the variant, in all positions where {} or (?<>) may stand",
 "Tests apply each style to one or two identifiers; digits, acronyms, underscores, non-ASCII letters, raw identifiers and enum/variant overrides are unsampled.",
 [L,P,R],[("style table and word splitter",L+": DisplayStyle::parse, DisplayStyle::apply"),("style resolution",L+": DisplayStyle::from_helper_attributes"),("expansion in regexes",R+": to_hir_with_expand")],
 ["to_string, from_str and from_str_regex of derived enums"])
p("C04","Parsing the displayed text gives the value back",
 "For every type deriving both traits from one unambiguous format (placeholders separated by literal text that cannot occur in the displayed fields, an opt field followed by literal text or the end and not also written when empty, distinct variant texts, field types that round-trip themselves), parsing the displayed text of any value yields an equal value. This holds through nested derived types, field formats, opt, with, escapes, multi-line text and every shape of struct and enum.",
 ["programs","inputs"],"all unambiguous declarations and all values of them",
 "Tests round-trip fixed values; the two derives are generated by separate code paths that share only the attribute parser, so agreement has to be checked over declarations and values.",
 [L,P,LIB],[("Display generation",L+": DisplayFormat::format_args"),("pattern generation",P+": push_format, push_field"),("value construction",P+": build_construct_code")],
 ["to_string followed by from_str on derived types"])
p("C05","FromStr accepts exactly the declared language and captures as documented",
 "A format without custom regexes accepts a string exactly when the whole string - from first to last character, any character including newline allowed in a field - is the literal texts in order with arbitrary text for every placeholder, each placeholder from left to right taking the shortest text that still lets the rest match, and every field's text parses as the field's type. The accepted value holds, in every field, what that field's own text parses to; every other string is an error.",
 ["programs","inputs"],"all declared formats of structs and variants and all input strings",
 "Acceptance is a language property over all strings; tests try two or three strings per declaration and hardly any rejected, truncated, padded, repeated or multi-line ones.",
 [P,R,HS],[("pattern assembly and anchors",P+": push_format, build_parse_code; "+R+": hirs_with_start_end"),("literal fast path",P+": ParseFormat::String"),("field extraction",P+": build_parse_capture_expr")],
 ["from_str results of derived types on generated strings, compared with an independently assembled matcher"])
p("C06","Derived parsing and formatting never panic",
 "Whatever the input string - empty, huge, arbitrary Unicode, control characters, text that resembles the format - parsing with any accepted derive returns Ok or Err and does not panic, and formatting any value returns normally. The patterns built when a type is first used are always valid.",
 ["programs","inputs"],"all accepted declarations, all strings up to megabytes, all values",
 "Generated code contains unwraps on regex construction and indexes capture groups; only execution of each declaration on hostile strings shows that none can fire.",
 [P,HS,H],[("runtime pattern construction",HS+": Parser::new"),("capture lookup",P+": capture_index, build_parse_capture_expr")],
 ["panics caught around every call into derived code"])
p("C07","Enums pick the right variant, fall through on failure and honour ignore",
 "Parsing an enum yields a variant whose format is constant text when the input equals that text, and otherwise the first variant in declaration order whose pattern matches the whole input and whose fields (and new expression) all succeed; a variant that matches but fails leaves the later variants in play. A variant marked ignore is never produced, its text is an error unless another variant accepts it, and if no variant accepts, the result is an error.",
 ["programs","inputs"],"all enum declarations (overlapping variants, mixed constant and pattern variants, ignored ones) and all inputs",
 "Ordering and fall-through depend on the whole list of variants; tests use enums of two or three variants with disjoint texts.",
 [L,P],[("arm and statement generation",L+": derive_from_str_for_enum"),("per-variant code",P+": build_parse_variant_code")],
 ["from_str of derived enums"])
p("C08","Custom regexes decide the match, their captures the fields",
 "With #[from_str(regex)] on a type or variant, a string is accepted exactly when the whole string matches that regex and every field takes the text of the capture that carries its name (or nested path); escaped parentheses are not captures. On a field, the regex replaces the field's pattern in the surrounding format - inside its own format's {} if it has one - unless it contains a capture, in which case it is the field's whole pattern and the empty-named capture is the field's text; in an enum or variant regex the empty-named capture stands for the literal variant name.",
 ["programs","inputs"],"all valid regexes in the four positions, with both capture syntaxes, and all input strings",
 "Regex text is rewritten three times before it is compiled; tests cover a few simple expressions.",
 [P,R],[("capture renaming",P+": push_regex"),("priority",P+": try_push_attrs, span_of_from_str_format"),("variant-name expansion",R+": to_hir_with_expand, expand_capture")],
 ["from_str on strings sampled from and around the regex"])
p("C09","default fills exactly the fields the input does not provide",
 "A field marked #[from_str(default)] that the format does not mention gets its type's Default value; with the attribute on a struct, every such field gets the value it has in the struct's own Default; fields and nested fields that the format mentions always get the parsed text, and only the mentioned parts of a nested field are overwritten. The deprecated default_fields list has the same effect on the named fields in every variant.",
 ["programs","inputs"],"all subsets of mentioned and defaulted fields, nested paths, struct/field/enum-level attributes and all inputs",
 "The interaction of two default levels, nested captures and mentioned fields is a product the tests sample at single points.",
 [P,L],[("setter generation",P+": build_construct_code, build_setters, build_expr, build_field_init_expr"),("attribute collection",L+": HelperAttributes, ParserBuilder::apply_attrs")],
 ["values returned by from_str"])
p("C10","new expressions build the value and may reject it",
 "With #[from_str(new = ...)] the parsed (or default) field values are available under the field names (_0, _1, ... in tuples), each bound to its own field whatever the field is called, and the result of parsing is exactly the value the expression returns: Self, Some and Ok are accepted, None and Err are a parse failure - for an enum variant, the next variants are tried. No value of the type is built other than through that expression.",
 ["programs","inputs"],"all field names and orders, return kinds, structs and variants, and all inputs",
 "Binding is by generated variable names in declaration-independent order; tests use one or two fields.",
 [P,L,LIB],[("binding and conversion",P+": build_construct_code"),("variable names",L+": FieldKey::new_arg_var"),("conversion trait",LIB+": IntoResult")],
 ["arguments recorded by constructor functions, from_str results"])
p("C11","opt fields: None is empty text, Some is the inner value's text",
 "A #[display(opt)] field writes nothing at all when it is None (its whole field format is omitted) and otherwise the inner value exactly as a plain field of that type with the same attributes would be written. Parsing reverses it: when the field's pattern is absent from the input the field is None, when present the text is parsed as the inner type, absence being preferred when both fit.",
 ["programs","inputs"],"all inner types, field formats, regexes, with formats and positions (prefix, middle, adjacent, in variants) and all Some/None combinations and strings",
 "k opt fields give 2^k presence patterns and lazy matching makes them interact; tests use one field and do not parse None/Some mixes.",
 [L,P,H],[("optional group",P+": push_field"),("Display wrapper",L+": format_arg_of_field; "+H+": OptionFormatHelper"),("transpose",P+": build_parse_capture_expr")],
 ["to_string and from_str of types with opt fields"])
p("C12","with formats are used for exactly their field, in the documented priority",
 "A field with display(with) is written by that formatter and one with from_str(with) or display(with) is parsed by it - from_str(with) taking precedence when parsing and never changing the written text - and no other field is affected. The pattern for the field is its regex attribute if present, else the formatter's pattern, else the one inferred for the type, and the groups inside a formatter's pattern never disturb the captures of other fields.",
 ["programs","inputs"],"all combinations of with, regex, regex_infer, field format and opt on any number of fields, formatter patterns with alternations, groups and flags, all inputs",
 "Formatter patterns are spliced into the parsed pattern at run time; tests use one custom formatter per type.",
 [L,P,HS,H,LIB],[("splicing",HS+": Parser::new, to_ast, ast_from_str"),("attribute priority",L+": HelperAttributes::set_from_str_args; "+P+": FieldEntry::new, try_push_attrs"),("write/parse helpers",H+": Formatted, parse_with")],
 ["calls recorded by instrumented formatters, from_str results"])
p("C13","Built-in inferred patterns cover what the types display",
 "For every standard type with an inferred pattern (integers, NonZero integers, floats, bool, char, String, OsString, PathBuf) the pattern matches, as a whole, every text that the type displays, and exactly the strings of the type's shape (unsigned: digits; signed: optional minus and digits; bool: true or false; char: one character; floats: optional sign, digits with optional point and exponent, inf or nan in any case; texts: anything). A field with regex_infer is therefore delimited by its own shape.",
 ["inputs"],"all values of the types (integers by boundaries and random bit patterns, floats by bit patterns) and all candidate strings",
 "Tests match single values; the claim is over whole value ranges including extremes, subnormals and special floats.",
 [FR,HS],[("pattern table",FR+": impl FromStrRegex"),("adapter",HS+": RegexInfer")],
 ["from_str_regex of the types, and derived parsers using regex_infer"])
p("C14","The pattern of a derived type describes what its FromStr matches",
 "The pattern that #[derive(FromStr)] publishes for a type matches, as a whole, every string its FromStr accepts and no string that its declared formats or regexes do not match, and it contains no named groups. It can therefore be used to infer the pattern of a field of that type at any nesting depth, alongside other fields.",
 ["programs","inputs"],"all derived types (structs, enums of constants and patterns, nested inference) and all strings",
 "Published patterns are printed from a different representation than the one used for matching; tests compare a few strings.",
 [L,P,HS],[("published pattern",P+": build_from_str_regex_body, build_regex_fmts_args; "+L+": derive_from_str_for_enum"),("group stripping",HS+": Parser::new, ast_from_str")],
 ["from_str_regex of derived types, compiled and matched on generated strings"])
p("C15","Trait bounds are those the formats need and the attributes say",
 "A generic type implements Display (FromStr) exactly for the type arguments for which the types of the fields its formats use implement the trait each is formatted with (FromStr), fields that are unused, formatted by with or reached only through nested paths adding no bound. bound(...) on the type, variant or field replaces the automatic bounds in its scope with the listed types and predicates, .. adds them back, and from_str(bound) overrides display(bound) for FromStr only.",
 ["programs"],"all generic declarations (type, lifetime and const parameters, nested generics, bounds at three levels) and all type arguments",
 "Bounds only show as which instantiations implement the trait; tests contain only instantiations that compile.",
 [B,L,P,S],[("bound accumulation",B+": Bounds, BoundsChild"),("inference from fields",L+": format_arg; "+P+": build_bounds"),("parameter detection",S+": GenericParamSet::contains_in_type")],
 ["run-time probes of which instantiations implement the traits"])
p("C16","Parsing is a pure function, on any thread and in any order",
 "The result of parsing a string depends only on the type and the string: it is the same on first and later uses, from any number of threads racing on the first use, whatever was parsed before with this or any other type or instantiation, and after failures or panics in user code. Different instantiations of one generic type whose fields use the same patterns never affect each other; where the patterns depend on the type arguments, a debug build panics instead of parsing with another instantiation's patterns.",
 ["schedules","histories"],"all interleavings of first and later uses by any number of threads, all orders of inputs, types and instantiations",
 "Each generated function caches a parser in a static initialised on first use and shared by all instantiations; tests are single-threaded and parse a type once or twice.",
 [P,HS],[("parser cache",P+": build_parse_code (OnceLock)"),("pattern agreement check",P+": debug_asserts")],
 ["from_str results per thread and per history position compared with the isolated result"],
 state=[("PARSER","compiled pattern shared by all threads and instantiations",P+": build_parse_code")])
p("C17","Display reports writer failures and writes only a prefix before them",
 "When the underlying writer fails after any number of bytes, formatting a derived type returns the error, writes nothing more, and what was written is a prefix of the value's full text; when the writer never fails, formatting succeeds and the written pieces concatenate to the full text. An error returned by a field's own formatter is returned likewise.",
 ["fault_sequences","programs"],"every failure position in every generated type's output, and failures raised by fields and formatters",
 "No test formats into a failing writer; a dropped Result in generated or helper code is invisible with String as the writer.",
 [L,H,W],[("error propagation",L+": FormatArgs::build_write; "+H+": Formatted, OptionFormatHelper; "+W+": Join")],
 ["byte budgeted writers under fmt::write"])
p("C18","Derives work whatever names the user's code uses",
 "The meaning of a derive does not depend on the names in the user's code: fields, variants, types, and type, lifetime and const parameters named like keywords (raw), prelude items, locals or helpers of the generated code, and scopes that shadow or lack the standard prelude, macros, crates or primitive types, or bring in extension traits with the same method names on references, give the same behaviour as any other names. So do declarations made by a macro from its caller's fragments, in every edition. Names starting with two underscores belong to the generated code.",
 ["programs"],"all names for types, fields, variants and parameters, and all surrounding scopes",
 "Name capture only shows for particular names; tests use a, b, T and the like.",
 [L,P],[("full paths in generated code",L+"; "+P),("binding names",L+": FieldKey::binding_var, new_arg_var, to_member")],
 ["behaviour of a corpus of types compared under renaming and in hostile scopes"])
p("C19","crate = path redirects every reference to the library",
 "With #[display(crate = path)] on a type, all code generated for it refers to the library through that path only, so that types of every supported kind (formats, opt, with, regex_infer, pointers, default, new) work where the library is reachable only under another name or re-exported deep in a module, with unchanged behaviour.",
 ["programs","configurations"],"all attribute combinations, with the library renamed or re-exported",
 "One forgotten path breaks only the feature that uses it and only when the crate is renamed; the tests cover two types.",
 [L,P],[("crate path threading",L+": HelperAttributes.crate_path, CodeContext; "+P+": crate_path")],
 ["a corpus compiled and run where ::parse_display is absent or poisoned"])
p("C20","Display works without std and without allocation",
 "With default features off, every Display derive (formats, styles, field formats, opt, with, pointers, bounds) and every FromStr derive that needs no pattern still works in a no_std crate, writes the same text as with std, and formatting allocates nothing.",
 ["configurations","programs","inputs"],"all Display declarations, both feature sets, all values",
 "CI's no-std run executes the same tests with std linked; nothing checks that generated code is free of std paths or allocation.",
 [L,H,LIB],[("feature split",H+"; "+LIB),("core-only paths in generated code",L)],
 ["a no_std crate's output and an allocation counter around formatting"])
p("C21","Invalid declarations are rejected at compile time",
 "A declaration the attributes cannot give a meaning to - unbalanced braces in a format or (Display) invalid parameters, unknown field or style, {} in a struct, a field that a parsed format does not give and that has no default, a missing format, an invalid regex or unknown capture in a regex that is used, opt on a non-Option, with combined with a non-Display trait, default on an enum or variant or without Default, an unknown or malformed attribute argument, a new or with expression of the wrong type, a field type without the needed trait, unions - is a compile error and never a type that silently misbehaves, and the error is reported in the offending declaration. The same declaration without the fault is accepted.",
 ["programs"],"all invalid declarations of the listed kinds in structs, variants and fields",
 "The trybuild tests pin a dozen error texts; acceptance of a further invalid declaration would go unnoticed.",
 [L,P,F,S],[("validation",L+": DisplayFormat::parse, VarBase::format_arg; "+P+": push_regex, build_field_init_expr")],
 ["which of a set of declarations the compiler accepts, observed with their valid neighbours as controls"])
p("C22","Parse errors say which field failed",
 "When a struct's format matches but some field's text does not parse, the error's message is \"field `x` parse failed.\" for a field (or nested path a.b) x whose text really fails; when the format does not match, an expression in new rejects, or no variant of an enum accepts, it is \"parse failed.\". Errors are equal exactly when their messages are, and display as the message.",
 ["programs","inputs"],"all struct and enum declarations and all rejected inputs",
 "Tests check one message; which field is blamed depends on the declaration and on which fields fail together.",
 [P,LIB],[("messages",P+": build_parse_capture_expr, build_setters"),("error type",LIB+": ParseError")],
 ["the error values returned by from_str"])
p("C23","join and delimiter write and split lists losslessly",
 "The delimiter and join formats of parse-display-with write the items of any collection in order, each through the item format, with the (non-empty) delimiter exactly between neighbours, and parse by splitting at every delimiter and parsing every piece with the item format, failing if any piece fails; so lists of items whose text does not contain the delimiter come back equal (a list of one empty text and the empty list excepted, where the text does not tell them apart). fmt, fmt_display and fmt_from_str behave as Display, FromStr and the given functions.",
 ["inputs","programs"],"all collections (Vec, VecDeque, arrays, slices, sets), delimiters (multi-character, Unicode, regex-special), nested joins and field attributes",
 "Tests and docs use short integer vectors with one-character delimiters.",
 [W],[("writer and splitter",W+": Join"),("closures",W+": fmt_display, fmt_from_str")],
 ["DisplayFormat::write / FromStrFormat::parse results and derived types using them"])
p("C24","The release script changes what it announces and nothing else",
 "Preparing a release sets the version of parse-display - and, if parse-display-derive changed since the last commit named Version x.y.z., that of parse-display-derive together with the exact version parse-display requires - in the manifests and the lock file, keeps parse-display-with requiring the new parse-display, updates the dependency snippets and docs.rs links of the documents outside Deprecated sections, and moves the Unreleased entries of the changelog under the new version and date without losing, changing or reordering one, with the compare links adjusted; every other line of every file, and every line ending, stays as it was (but a manifest, lock file or changelog that is rewritten ends with exactly one line end). With --dry-run, without a version, or when a precondition fails (non-zero exit) nothing is written.",
 ["inputs","histories","fault_sequences"],"all changelog and manifest states, version bumps, and missing or failing tools",
 "The script has no tests at all.",
 [REL],[("planning and editing",REL)],
 ["file system state of a scratch repository before and after the script"])
p("C25","dump shows the very code the derives generate",
 "With #[display(dump)] on a struct or enum every derive of Display and FromStr on it - with #[from_str(dump)] the derive of FromStr only - is a compile error that shows the code generated for that type. The code shown is the code that would have been used: in place of the derives it compiles and displays and parses exactly as they do.",
 ["programs"],"all accepted declarations with dump in either attribute",
 "The attribute cannot appear in a passing test at all, since it makes the declaration an error; a dump that has drifted from the generated code misleads silently.",
 [L,S],[("dump",S+": dump_if, impl_trait_result; "+L+": dump_display, dump_from_str")],
 ["compile errors; behaviour of the types whose derives are replaced with the code they show"])
p("C26","Derives warn where default_fields stands and nowhere else",
 "Every deprecated #[from_str(default_fields(...))] on a type or variant that derives FromStr, wherever in the attribute it is written and whatever else the attribute holds, causes a deprecation warning located at that default_fields. Apart from that the code generated for an accepted declaration causes no compiler warning that the declaration itself would not cause.",
 ["programs"],"all accepted declarations under the compiler's default lints and the unused group",
 "Tests do not look at warnings; users who deny warnings see them as build failures, and a lost deprecation is noticed only when the feature is gone.",
 [L],[("deprecations",L+": push_from_str_warning_spans, deprecated_default_fields_warnings"),("generated code",L+"; "+P)],
 ["warnings of the compiler with the derives, against those with an empty derive in their place"])
p("C27","Patterns are built once on first use; repeated use keeps no memory",
 "The pattern of a derived FromStr is built on the first parse and used from then on. Apart from debug-assertion checks, later parses (of any text, by any thread, also when several threads race on the first use) neither build it again nor ask formatters or field types for their patterns again, and their allocations are those of matching and of the field values. Repeating the same formatting, parsing or publishing of a pattern any number of times does not make the memory held by the program grow.",
 ["programs","histories"],"all accepted declarations, all sequences and thread schedules of uses",
 "Tests call each parser once or twice and look at the result only; a pattern that is rebuilt on every call or a cache that grows shows in time and memory, never in a result.",
 [P,HS],[("parser statics",P+": build_from_str_body, build_parse_variant_code"),("Parser and ParseFormat",HS+": Parser::new, Parser::captures")],
 ["live bytes and number of allocations around repeated uses","calls of FromStrFormat::regex_pattern and FromStrRegex::from_str_regex counted by user types"])
p("C28","The derives answer every declaration with code or a located error, no panic",
 "Whatever the helper attributes of a struct or enum hold - unknown, repeated, misplaced or missing arguments, names that are no fields, indices out of range, malformed formats, parameters, patterns and styles - Display and FromStr answer with code or with compile errors that lie in that declaration. They do not panic (except to say that the item is neither struct nor enum or that an attribute argument is required) and do not bring the compiler down.",
 ["programs"],"all token sequences in helper attributes and all string contents in them, on structs and enums that rustc itself can read",
 "The tests contain well-formed attributes; the space of malformed ones is unbounded and each is a different path through the attribute, format and pattern parsers of the macro.",
 [L,P,R,F],[("attribute arguments",L+": HelperAttributes, DisplayArgs, FromStrArgs"),("format strings",L+": DisplayFormat::parse; "+F+": FormatSpec::parse"),("patterns",P+": push_regex; "+R+": to_hir, to_hir_with_expand")],
 ["diagnostics of the compiler that runs the derives"])
p("C29","The generated code depends on the declaration alone",
 "The code Display and FromStr generate - or the errors they report - for a declaration is a function of that declaration's own tokens. It is the same in every compiler run, crate and module, whatever other declarations were derived before or after, in whatever order and combination the derives are listed, and however the declaration is laid out with white space and comments.",
 ["programs","histories"],"all declarations, accepted or not, and all surroundings and repetitions of them",
 "Tests look at what the code does, once; code whose order or names change from build to build behaves the same nearly always and breaks reproducible builds and caches.",
 [L,P,B,S],[("per-field maps",P+": ParserBuilder; "+L+": field_map"),("where clauses",B+": Bounds::build_wheres"),("capture names",P+": FieldEntry::set_capture")],
 ["code shown by dump for copies of one declaration in two crates"])
p("C30","The cost of a use grows with the text and no faster",
 "Parsing a text with a derived FromStr, accepted or not, takes processor time and memory proportional to the length of the text (times the size of the declaration), like one match of its regular expression and one from_str call per field; Display writes a value in time proportional to its text; the formats of parse-display-with split, parse and join lists in time proportional to their text. There are no texts on which a derived parser, or the splitting of a list, needs quadratic or worse time or memory.",
 ["inputs","resources"],"all declarations and all texts of any length, accepted or rejected",
 "Tests parse texts of a few bytes; quadratic copying or rescanning shows at thousands, and a service that parses foreign texts falls over.",
 [H,HS,L,W],[("parser",H+": Parser"),("generated from_str","parse-display-derive/src/parser_builder.rs: build_from_str_body"),("lists",W+": Join::parse, Delimiter::parse")],
 ["thread processor time and allocated bytes of one use at two lengths"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(props))
