from corpora import *
import copy

RULE = ("A case is a random declaration of any kind (all attributes) that is placed, with its types under names from the prelude, the macros' own "
        "vocabulary or the primitive types, into a scope that is hostile in some way: without the prelude; with its own types, traits, modules, "
        "macros, functions, constants and statics of the names a macro might use; with extension traits; inside a function; or produced by a "
        "macro_rules macro, whole or from fragments. Displayed texts and parse results are compared with the model, which lives in an ordinary scope. "
        "Hand-written cases name type, lifetime and const parameters, types, fields and inherent methods in the same way. Non-trivial: distinct (case, value or string).")

PRIMS = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char str".split()
ABS = {p: "::core::primitive::" + p for p in PRIMS}
ABS.update(String="::std::string::String", Option="::core::option::Option", Vec="::std::vec::Vec", Box="::std::boxed::Box", std="::std", vrt="::vrt", rep="::vrt::rep")
for n in "Word Lines Inner InnerL Tup Deep Hex Plus1 Brk YesNo Grp Flg OldRegex AnyPat REP3 Greedy DotPat".split():
    ABS[n] = "::vrt::" + n


def absolute(t):
    return re.sub(r"(?<![\w:#])([A-Za-z_]\w*)\b", lambda m: ABS.get(m.group(1), m.group(1)), t)


TYPES = ("String Option Result Vec Box Formatter Arguments Error ParseError Regex Parser OnceLock PhantomData Infer RegexInfer FmtRef Formatted "
         "OptionFormatHelper Captures Match Cow Rc Arc HashMap LazyLock Ast Hir Some None Ok Err Self_ Token Ordering").split()
TRAITS = ("Display FromStr Default From Into ToString Iterator IntoIterator IntoResult DisplayFormat FromStrFormat FromStrRegex Write Debug Clone "
          "AsRef Deref TryFrom TryInto ToOwned Extend Fn FnMut FnOnce Sized Send Sync Copy Drop PartialEq Eq").split()
MODS = "core std alloc parse_display regex regex_syntax fmt str result option string convert helpers sync default ops helpers_std iter error".split()
MACROS = ("write writeln format format_args panic vec assert assert_eq debug_assert debug_assert_eq matches unreachable todo concat stringify println "
          "eprintln compile_error unimplemented regex include_str line cfg").split()
FNS = "drop from_str fmt parse to_string into default new escape build_regex to_ast to_regex parse_with from_str_regex regex_pattern write_str map get unwrap".split()
LOW = "s f c p m e value field_value re caps x t v i n r k this parse_variant _formatter it ok err result text str_ ss names index msg key".split()
EVIL = "fmt from_str parse to_string into from default as_str get captures map map_err map_or ok ok_or transpose into_result write write_str write_fmt pad get_or_init unwrap and_then then as_ref clone len is_some is_none iter next collect to_owned borrow deref index".split()


def hostile(rng, kinds, avoid, fields=()):
    """items of the scope"""
    o = []
    used = set(avoid)

    def some(names):
        full = rng.random() < .6
        out = [n for n in names if n not in used and (full or rng.random() < .6)]
        used.update(out)
        return out
    if "prims" in kinds:
        for n in some(PRIMS):
            o.append(rng.choice(["pub struct %s {}", "pub enum %s {}", "pub type %s = ();", "pub union %s { pub a: () }", "pub trait %s {}"]) % n)
    if "types" in kinds:
        for n in some(TYPES):
            o.append(rng.choice(["pub struct %s;", "pub enum %s {}", "pub struct %s {}", "pub struct %s(());", "pub type %s = ();", "pub trait %s {}"]) % n)
    if "traits" in kinds:
        for n in some(TRAITS):
            o.append(rng.choice(["pub trait %s {}", "pub struct %s;", "pub trait %s { fn fmt(&self) {} fn from_str() {} fn default() {} fn from() {} }", "pub enum %s {}"]) % n)
    if "mods" in kinds:
        for n in some(MODS):
            o.append("pub mod %s { pub mod fmt {} pub mod str { pub struct FromStr; } pub struct Some; pub mod string { pub struct String; } }" % n)
    if "macros" in kinds:
        for n in MACROS:
            if rng.random() < .8:
                o.append("#[allow(unused_macros)] macro_rules! %s { ($($t:tt)*) => { this macro has been taken }; }" % n)
    if "values" in kinds:
        for n in some("Some None Ok Err".split()):
            o.append(rng.choice(["pub struct %s;", "pub const %s: () = ();", "pub fn %s() {}", "pub static %s: () = ();", "pub struct %s(());"]) % n)
        for n in some(FNS):
            o.append(rng.choice(["pub fn %s() {}", "pub fn %s(_: ()) -> ! { loop {} }"]) % n)
    if "lows" in kinds:
        for n in some(LOW):
            o.append(rng.choice(["pub const %s: () = ();", "pub static %s: () = ();", "pub struct %s;", "pub const %s: &::core::primitive::str = \"\";" if "str" not in kinds else "pub const %s: () = ();"]) % n)
        # what generated code could call the fields
        for n in some(sorted({p + f for f in fields for p in ("_value_", "value_", "_v", "_", "v_", "arg_", "field_", "_field_", "f") if not (p == "_" and f.isdigit()) and not (p + f).startswith("__")})):
            o.append(rng.choice(["pub const %s: () = ();", "pub static %s: () = ();", "pub struct %s;"]) % n)
        for n in some(["PARSER", "CASE", "RE", "REGEX"]):
            o.append("pub const %s: () = ();" % n)
    if "evil" in kinds:
        names = [n for n in EVIL if rng.random() < .8]
        o.append("pub mod evil_ext { pub trait Ext { %s } impl<T: ?::core::marker::Sized> Ext for T {} }\n#[allow(unused_imports)] use self::evil_ext::Ext as _;" %
                 " ".join("fn %s(&self) -> ! { ::core::panic!(\"taken\") }" % n for n in names))
    rng.shuffle(o)
    return "\n".join("#[allow(dead_code, non_camel_case_types, non_upper_case_globals, non_snake_case)] " + x if not x.startswith("#") else x for x in o)


HOSTNAMES = TYPES + TRAITS + PRIMS + ["In", "Ctx", "r#type", "r#fn", "r#match", "s", "f", "value", "T", "E", "PARSER", "parse_variant"]
KINDS = "prims types traits mods macros values lows evil".split()


def place(rng, id, decls, how, kinds):
    """source of one case"""
    d = decls[-1]
    names = {}
    pool = [n for n in HOSTNAMES if n not in [x.name for x in decls]]
    rng.shuffle(pool)
    for x in decls:
        if rng.random() < .75 and how in ("mod", "noprelude"):
            n = pool.pop()
            while n in names.values() or (n in PRIMS and rng.random() < .5):
                n = pool.pop()
            names[x.name] = n
        else:
            names[x.name] = x.name
    text, outer, avoid = [], [], set(names.values())
    for x in decls:
        y = copy.deepcopy(x)
        items, y.items = y.items, ""
        for u in y.units():
            for f in u.fields:
                for w in ("dwith", "fwith"):
                    if getattr(f, w) is not None:
                        g = copy.copy(getattr(f, w))
                        g.expr = absolute(g.expr)
                        setattr(f, w, g)
                t = absolute(f.ty.rust)
                for a, b in names.items():
                    t = re.sub(r"\b%s\b" % a, b, t) if a != b else t
                f.ty = copy.copy(f.ty)
                f.ty.rust = t
                # a constant of a field's name is the user's own trouble where the name is a variable of the user
                if u.new is not None:
                    avoid.add(f.name)
        s = render_decl(y, rng)
        ders = []
        for z in re.match(r"#\[derive\((.*?)\)\]", s).group(1).split(", "):
            ders.append({"Display": "::parse_display::Display", "FromStr": "::parse_display::FromStr", "Debug": "::core::fmt::Debug", "Clone": "::core::clone::Clone", "PartialEq": "::core::cmp::PartialEq"}[z])
        s = re.sub(r"^#\[derive\(.*?\)\]", lambda m: "#[derive(%s)]" % ", ".join(ders), s)
        s = re.sub(r"^pub (struct|enum) (?:r#)?%s\b" % x.name, lambda m: "pub %s %s" % (m.group(1), names[x.name]), s, flags=re.M)
        text.append(s)
        outer.append((x, items))
    body = []
    decl = "\n".join(text)
    scope = hostile(rng, kinds, avoid | {n.replace("r#", "") for n in avoid if n} | {f.name for x in decls for u in x.units() for f in u.fields if f.name},
                    {f.key(i) for x in decls for u in x.units() for i, f in enumerate(u.fields)})
    attrs = "#[no_implicit_prelude] " if how == "noprelude" else ""
    if how == "lints":
        attrs = "#[deny(%s)] " % ", ".join(LINTS)
        scope = "use ::vrt::*; #[allow(unused_imports)] use ::parse_display::{Display, FromStr};"
    if how in ("mod", "noprelude", "lints"):
        body.append("%spub mod decl {\n%s\n%s\n}" % (attrs, scope, decl))
        body.append("#[allow(unused_imports)] pub use decl::{%s};" % ", ".join("%s as %s" % (names[x.name], x.name) if names[x.name] != x.name else x.name for x in decls))
    elif how == "macro":
        body.append("macro_rules! mk { () => {\n%s\n} }\nmk!{}" % decl)
    elif how == "fragments":
        body.append(fragments(rng, decl, decls))
    else:
        body.append(decl)
    for x, items in outer:
        body.append(items)
        body.append(render_arb(x))
        if x.display:
            body.append(Shower(x).render())
        if x.from_str:
            body.append(render_model(x))
    tmp = make_case(id, decls, rng, values=6, strings=60, regex=d.from_str and rng.random() < .3)
    tail = tmp.tail
    if how == "fn":
        scope = hostile(rng, [k for k in kinds if k in ("lows", "macros")], avoid) if False else ""
        tail = tail.replace("pub fn run(m: &mut Mon) { drive(m, &CASE); }", "drive(m, &CASE);")
        src = "pub fn run(m: &mut Mon) {\n%s\n%s\n}" % ("\n".join(body), tail)
        return Raw(id, src)
    return CaseSrc(id, "\n".join(body), tail)


def fragments(rng, decl, decls):
    """the declarations from fragments handed to a macro"""
    pats, args = [], []

    def frag(kind, text):
        n = "z%d" % len(pats)
        pats.append("$%s:%s" % (n, kind))
        args.append(text)
        return "$" + n
    out = []

    def attr(m):
        if rng.random() < .4:
            return m.group(0)
        t = m.group(2)
        kind = "ident" if re.fullmatch(r"\w+", t) and rng.random() < .5 else rng.choice(["expr", "expr", "path" if re.fullmatch(r"[\w:]+", t) else "expr"])
        return m.group(1) + frag(kind, t)
    for line in decl.split("\n"):
        if line.lstrip().startswith("#["):
            line = re.sub(r"\b((?:with|new) = )((?:::)?\w+(?:::\w+)*(?:\((?:[\w, :&]|\([\w, ]*\)|'.')*\))?)(?=[,)])", attr, line)
            line = re.sub(r"(\((?:[\w ,=]*, ?)?|= )(\"(?:[^\"\\]|\\.)*\")(?=[,)])", lambda m: m.group(0) if rng.random() < .6 else m.group(1) + frag("literal", m.group(2)), line)
        m = re.match(r"^(\s+)(pub )?((?:r#)?\w+): (.*),$", line)
        if m and rng.random() < .7:
            nm = frag("ident", m.group(3)) if rng.random() < .6 else m.group(3)
            ty = frag("ty", m.group(4)) if rng.random() < .6 else m.group(4)
            line = "%s%s%s: %s," % (m.group(1), m.group(2) or "", nm, ty)
        m = re.match(r"^pub (struct|enum) ((?:r#)?\w+)(.*)$", line)
        if m and rng.random() < .7:
            line = "pub %s %s%s" % (m.group(1), frag("ident", m.group(2)), m.group(3))
            if rng.random() < .3:
                line = frag("vis", "pub") + line[3:]
        out.append(line)
    return "macro_rules! mk { (%s) => {\n%s\n} }\nmk!{%s}" % (", ".join(pats), "\n".join(out), ", ".join(args))


LINTS = ("unused_variables unused_mut unused_assignments unused_parens unused_braces unused_must_use unreachable_code unreachable_patterns "
         "unused_qualifications trivial_casts trivial_numeric_casts unsafe_code elided_lifetimes_in_paths absolute_paths_not_starting_with_crate unused_results let_underscore_drop "
         "ambiguous_associated_items single_use_lifetimes unused_lifetimes explicit_outlives_requirements redundant_lifetimes path_statements unused_labels unused_unsafe "
         "future_incompatible rust_2021_compatibility rust_2024_compatibility").split()


def corpus(b, n=1500):
    out = []
    for i in range(n):
        rng = rng_for("C18", b, i)
        k = dict(newfn=1, depth=rng.choice([0, 0, 1]), derived=.2, nested=.15, opt=.25, fieldfmt=.25, infer=.2, regexattr=.1, new=.2, default=.15, decl_default=.15,
                 ignore=.1, efmt=.1, style=.3, small=rng.random() < .5, many=8, infer_all=.15)
        k["with"] = .25
        g = G(rng, **k)
        d = g.decl("T")
        decls = g.inner + [d]
        how = rng.choice(["mod", "mod", "mod", "noprelude", "noprelude", "fn", "macro", "fragments", "lints"])
        kinds = []
        if how in ("mod", "noprelude"):
            kinds = [rng.choice(KINDS)] if rng.random() < .4 else [x for x in KINDS if rng.random() < .6] if rng.random() < .6 else KINDS
        out.append(place(rng, "b%d_%s%d" % (b, how[0], i), decls, how, kinds))
    return out


# ---------------------------------------------------------------- hand-written
D = "#[derive(::parse_display::Display, ::parse_display::FromStr, Debug, PartialEq)]\n"
FM = """
pub mod fmx {
    #[derive(Debug, PartialEq, Clone, Copy)] pub struct Fm(pub char);
    impl ::parse_display::DisplayFormat<u8> for Fm { fn write(&self, f: &mut ::std::fmt::Formatter, v: &u8) -> ::std::fmt::Result { write!(f, "{}{}", self.0, v) } }
    impl ::parse_display::FromStrFormat<u8> for Fm { type Err = (); fn parse(&self, s: &str) -> Result<u8, ()> { s.strip_prefix(self.0).ok_or(())?.parse().map_err(|_| ()) } }
    #[derive(Debug, PartialEq)] pub struct Bx<T>(pub Box<T>);
    impl<T: ::std::fmt::Display> ::std::fmt::Display for Bx<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { self.0.fmt(f) } }
    impl<T: ::std::str::FromStr> ::std::str::FromStr for Bx<T> { type Err = T::Err; fn from_str(s: &str) -> Result<Self, T::Err> { s.parse().map(|x| Bx(Box::new(x))) } }
}
"""


def rt(ty, *texts):
    """both ways"""
    return [("%s.parse::<%s>().map(|x| format!(\"{}\", x)).map_err(|e| e.to_string())" % (rlit(t), ty), "\"Ok:\".to_string() + %s" % rlit(t)) for t in texts]


def bad(ty, *texts):
    return [("%s.parse::<%s>().map(|x| format!(\"{}\", x)).map_err(|e| e.to_string())" % (rlit(t), ty), rlit("Err")) for t in texts]


def special():
    out = []

    def case(id, decls, pairs):
        pairs = [("match %s { Ok(x) => format!(\"Ok:{}\", x), Err(_) => \"Err\".to_string() }" % a if a.endswith(".map_err(|e| e.to_string())") else a, b) for a, b in pairs]
        out.append(checks("x_" + id, decls, pairs))
    case("generics", """
pub mod h {
    #[derive(Debug, PartialEq, Default, Clone)] pub struct Arr<const m: usize, const e: usize>;
    %(D)s #[display("{a}|{b}|{c}")]
    pub struct P<'s, 'f: 's, s, f: Copy, const m: usize, const e: usize, const p: bool> where s: Clone {
        pub a: s, #[display("<{}>")] pub b: f, #[display("[{}]", opt)] pub c: Option<s>, #[from_str(default)] pub d: Arr<m, e>, #[from_str(default)] pub x: ::std::marker::PhantomData<(&'s (), &'f ())>, #[from_str(default)] pub y: bool }
    %(D)s #[display("{0} {1}")]
    pub enum Q<String, Option, Result, Formatter, const c: char> { #[display("{0}/{1}")] String(String, Option), #[display("{r}={f}")] #[from_str(new = Self::mk(r, f))] Option { r: Result, f: Formatter } }
    impl<String, Option, Result, Formatter, const c: char> Q<String, Option, Result, Formatter, c> { fn mk(r: Result, f: Formatter) -> Self { Self::Option { r, f } } }
}""" % dict(D=D), rt("h::P<u8, i8, 1, 2, true>", "1|<-2>|[3]", "0|<0>|") + bad("h::P<u8, i8, 1, 2, true>", "-1|<-2>|[3]", "0|0|")
         + rt("h::Q<u8, bool, char, i8, 'a'>", "1/true", "x=-1") + bad("h::Q<u8, bool, char, i8, 'a'>", "1/2", "xx=-1"))
    case("methods", """
pub mod h {
    #[derive(Debug, PartialEq, Clone)] pub struct W(pub u8);
    macro_rules! evil { ($($t:ty),*) => { $( impl $t { %(FNS)s } )* } }
    impl ::std::fmt::Display for W { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { write!(f, "{}", self.0) } }
    impl ::std::str::FromStr for W { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { s.parse::<u8>().map(W).map_err(|_| ()) } }
    impl Default for W { fn default() -> Self { W(0) } }
    %(D)s #[display("{a}|{b}|{c.0}")]
    #[from_str(default)]
    pub struct S { pub a: W, #[display("<{}>", opt)] pub b: Option<W>, pub c: W, pub d: W }
    impl Default for S { fn default() -> Self { S { a: W(1), b: None, c: W(2), d: W(3) } } }
    %(D)s pub enum E { #[display("x{0}")] A(W), #[display("y{a}")] #[from_str(new = W2::mk(a))] B { a: W, #[from_str(default)] z: W2 }, C, #[display("w")] D(#[from_str(default)] W) }
    #[derive(Debug, PartialEq, Clone)] pub struct W2(pub u8);
    impl Default for W2 { fn default() -> Self { W2(9) } }
    impl W2 { fn mk(a: W) -> Option<E> { if a.0 > 5 { None } else { Some(E::B { a, z: W2(7) }) } } }
    evil!(W, S, E, W2);
}""" % dict(D=D, FNS=" ".join("pub fn %s(%s) -> ! { panic!(\"taken\") }" % (n, "_: ()" if n in ("from", "from_str", "default") else "self") for n in
                              "fmt from_str default parse to_string into from into_result clone map_err write_fmt eq as_str new borrow as_ref deref map get write ok_or transpose".split())),
         rt("h::S", "1|<2>|3", "0||9") + bad("h::S", "1||", "256||1") + [('format!("{:?}", "7|<8>|9".parse::<h::S>().ok())', '"Some(S { a: W(7), b: Some(W(8)), c: W(9), d: W(3) })"')]
         + rt("h::E", "x1", "y2", "C", "w") + bad("h::E", "y8", "D", "W") + [('format!("{:?}", "y5".parse::<h::E>().ok())', '"Some(B { a: W(5), z: W2(7) })"')])
    case("own_option", """
pub mod h {
    %(D)s pub enum Option<T> { #[display("S{0}")] Some(T), None }
    %(D)s pub enum Result { Ok, #[display("{}!")] Err, Error, Target, Output, Self_, #[display("I{0}")] Item(Option<u8>), #[display("o{0}")] O(#[display("<{}>", opt)] ::std::option::Option<u8>) }
    #[allow(unused_imports)] pub use self::Option::*; #[allow(unused_imports)] pub use self::Result::*;
}""" % dict(D=D), rt("h::Option<u8>", "S1", "None") + bad("h::Option<u8>", "1", "", "S") + rt("h::Result", "Ok", "Err!", "Error", "Target", "Output", "Self_", "IS3", "INone", "o<3>", "o") + bad("h::Result", "Err", "I"))
    names = "s f c p m e value field_value _formatter self_ fmt parse_variant _value_s _self x _v".split()
    case("fields", """
pub mod h {
    %(D)s #[display("%(fmt)s")] pub struct A { %(pubf)s }
    %(D)s pub enum B {
        #[display("n%(fmt)s")] #[from_str(new = mk(%(args)s))] C { %(f)s },
        #[display("%(fmt)s")] D { %(f)s },
        #[display("o{s},{f},{c},{value}")] O { #[display("<{}>", opt)] s: Option<u8>, #[display("<{}>", opt)] f: Option<u8>, #[display("({})", opt)] c: Option<u8>, #[display("[{}]", opt)] value: Option<u8> } }
    fn mk(%(f)s) -> B { B::C { %(args)s } }
}""" % dict(D=D, fmt=" ".join("{%s}" % n for n in names), pubf=", ".join("pub %s: u8" % n for n in names), f=", ".join("%s: u8" % n for n in names), args=", ".join(names)),
         rt("h::A", " ".join(str(i) for i in range(16))) + rt("h::B", "n" + " ".join(str(i + 7) for i in range(16)), " ".join(str(2 * i) for i in range(16)), "o<1>,<2>,(3),[4]", "o<1>,,(3),", "o,,,")
         + bad("h::A", "1 2") + bad("h::B", "o(3),<1>,,", "n1"))
    ids = "s f value c p PARSER _formatter m e".split()
    case("user_exprs", FM + """
pub mod h {
    pub use super::fmx::Fm;
    %(consts)s
    %(D)s #[display("%(fmt)s")] pub struct A { %(fields)s }
    %(D)s pub enum B { #[display("<{0}|{1}|{2}>")] X(#[display(with = s)] u8, #[display(with = f, opt)] ::std::option::Option<u8>, #[display(with = _value)] u8), #[display("{a}")] #[from_str(new = mk(a, s, c))] Y { #[display(with = value)] a: u8, #[from_str(default)] z: u8 } }
    fn mk(a: u8, x: Fm, y: Fm) -> B { assert_eq!((x, y), (s, c)); B::Y { a, z: 1 } }
    %(D)s #[from_str(new = fx(a, value, e, PARSER))] pub struct C { #[display(with = p)] a: u8 }
    fn fx(a: u8, x: Fm, y: Fm, z: Fm) -> C { assert_eq!((x, y, z), (value, e, PARSER)); C { a } }
    %(D)s #[display("{a}{b}")] pub struct F { #[from_str(default = s.1)] #[display(ignore)] d: u8, #[display("{}")] a: char, b: char }
}""".replace('%(D)s #[display("{a}{b}")] pub struct F { #[from_str(default = s.1)] #[display(ignore)] d: u8, #[display("{}")] a: char, b: char }\n', "") % dict(
        D=D, consts=" ".join("pub %s %s: Fm = Fm('%s');" % ("static" if n == "e" else "const", n, n[0]) for n in ids + ["_value"]),
        fmt=" ".join("{a%d}" % i for i in range(len(ids))), fields=", ".join("#[display(with = %s)] pub a%d: u8" % (n, i) for i, n in enumerate(ids))),
         rt("h::A", " ".join("%s%d" % (n[0], i) for i, n in enumerate(ids))) + bad("h::A", " ".join("x%d" % i for i, n in enumerate(ids))) + rt("h::B", "<s1|f2|_3>", "<s1||_3>", "v3") + bad("h::B", "<f1|f2|_3>", "s3")
         + rt("h::C", "p4") + bad("h::C", "v4"))
    case("selfish", FM + """
pub mod h {
    %(D)s #[display("{v}{next}")] pub struct Node { pub v: char, #[display(">{}", opt)] pub next: Option<super::fmx::Bx<Self>> }
    %(D)s #[display("{v}{next}")] pub struct NodeG<T> { pub v: T, #[display(">{}", opt)] #[display(bound())] pub next: Option<super::fmx::Bx<Self>> }
    %(D)s pub enum Tree { #[display("l{0}")] Leaf(u8), #[display("({0},{1})")] Fork(super::fmx::Bx<Self>, super::fmx::Bx<Tree>) }
    #[derive(::parse_display::Display)] #[display("{a} {b} {c}")] pub struct R<'a, T: ?Sized> { pub a: &'a str, pub b: &'a dyn (::std::fmt::Display), pub c: &'a T }
}""" % dict(D=D), rt("h::Node", "a>b>c", "a") + bad("h::Node", "a>", "ab") + rt("h::NodeG<char>", "a>b>c", "a") + rt("h::Tree", "l1", "(l1,l2)", "(l1,(l2,l3))") + bad("h::Tree", "(l1)", "l256")
         + [('format!("{}", h::R { a: "a", b: &1, c: "z" })', '"a 1 z"')])
    case("cfgs", """
pub mod h {
    #![allow(unexpected_cfgs)]
    %(D)s #[cfg_attr(all(), display(r#"{a}"\\{b}"#))] #[cfg_attr(any(), display(r#"xxx"#))]
    pub struct A { #[cfg(all())] pub a: u8, #[cfg(any())] pub a: Nope, /** doc */ #[cfg_attr(all(), display("\\u{41}\\x42\\
            {}"))] pub b: u8 }
    %(D)s pub enum E { #[cfg(any())] A(Nope), #[cfg(all())] B, #[display("c")] #[cfg(any())] C, #[display("c")] D { #[cfg(any())] x: Nope } }
}""" % dict(D=D), rt("h::A", '1"\\AB2') + bad("h::A", '1"\\B2', '1"AB2') + rt("h::E", "B", "c") + bad("h::E", "A", "C", "D"))
    return out


def main(prop, only=None):
    res = Result(prop)
    n = 8 if THOROUGH else 1
    done = 0
    for b in range(n):
        cases = corpus(b)
        for k, ed in enumerate(("2024", "2021", "2018", "2015")):
            # modules of the 2015 edition name other crates by ::, which the generated drivers do not
            part = ([c for i, c in enumerate(cases) if i % 3 == k] if ed != "2015" else []) + (special() if b == 0 else [])
            for c in part:
                if isinstance(c, Raw) and c.id.startswith("x_") and not c.id.endswith(ed):
                    c.text = c.text.replace(rlit(c.id), rlit(c.id + "_" + ed))
                    c.id += "_" + ed
            if only:
                part = [c for c in part if c.id == only]
            if not part:
                continue
            kw = dict(modpre=MODPRE.replace("use vrt", "use ::vrt").replace("use parse_display", "use ::parse_display"), pre=PRE.replace("use vrt", "extern crate vrt; extern crate parse_display; use vrt")) if ed == "2015" else {}
            run_corpus(res, part, prop, batch=ed, edition=ed, only=only, env_extra=dict(VRT_SCALE="4") if THOROUGH else None, **kw)
            res.extra.setdefault("editions", {})[ed] = res.extra.get("editions", {}).get(ed, 0) + len(part)
        done += 1
        if res.found or time.time() - T0 > 1500:
            break
    res.extra["batches"] = done
    return finish(res, RULE, min_evals=1 if only else 20000)
