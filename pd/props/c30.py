from corpora import *
from props.c27 import PRE27

RULE = ("A case is a random declaration; an evaluation grows a random part of a text it parses (or nearly parses) to about 6 000 and to about 48 000 bytes and weighs the parse of both by the processor time of the thread and by "
        "the bytes it takes from the allocator. Time may grow 24-fold or be 40 times (and 60 ms over) that of the model, not both; bytes likewise. Hand-written cases weigh Display of long "
        "values into sinks, nested types and lists of parse-display-with. Non-trivial: distinct (case, head, repeated part, tail).")
SIZE = 6000


def corpus(b):
    def knobs(rng, i):
        k = dict(depth=rng.choice([0, 0, 1, 2]), derived=.2, nested=.12, opt=.3, fieldfmt=.3, infer=.25, infer_all=.15, regexattr=.25, new=.15,
                 default=.15, decl_default=.1, ignore=.1, efmt=.2, style=.4, vstyle=.2, many=10)
        k["with"] = .35
        if i % 2:
            # types that take texts of any length
            k["leaves"] = [STRING, STRING, LINES, WORD] if i % 4 == 1 else [STRING]
        return k
    out = randoms("C30", b, 900, knobs, values=6, strings=40)
    out += mixed(b, c05=(60, owned), c07=(100, owned), c08=(250, owned), c11=(100, owned), c12=(150, owned))
    for c in out:
        c.tail = c.tail.replace("drive(m, &CASE)", "weigh(m, &CASE, %d)" % SIZE)
    if b == 0:
        out.append(Raw("b0_sizes", sizes("b0_sizes")))
        out += [Raw("b0_hand%d" % i, HAND_PRE + t.replace("ID", "b0_hand%d" % i)) for i, t in enumerate(HAND)]
    return out


HAND_PRE = """use parse_display_with::formats::*; use std::fmt::Write as _; use std::hint::black_box;
struct Sink(u64); impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { for b in s.bytes() { self.0 = self.0.wrapping_mul(31) + b as u64; } Ok(()) } }
fn out<T: std::fmt::Display>(v: &T) { let mut s = Sink(0); write!(s, "{v}").unwrap(); black_box(s.0); }
fn nums(n: usize) -> Vec<u32> { (0..n as u32).map(|x| x.wrapping_mul(2654435761)).collect() }
fn text(n: usize) -> String { (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect() }
"""
LIST = """#[derive(Display, FromStr)] #[display("{0}")] pub struct L(#[display(with = %s)] pub Vec<u32>);
pub fn run(m: &mut Mon) {
    weigh_use(m, "ID", "display", 1000, |n| L(nums(n)), out, |l| { let mut s = Sink(0); for x in &l.0 { write!(s, "{x}%s").unwrap(); } black_box(s.0); });
    weigh_use(m, "ID", "parse", 1000, |n| L(nums(n)).to_string(), |s| { black_box(s.parse::<L>().map(|l| l.0.len()).ok()); }, |s| { black_box(s.split(%s).map(|x| x.parse::<u32>().is_ok()).collect::<Vec<_>>()); });
    weigh_use(m, "ID", "empty items", 4000, |n| "%s".repeat(n), |s| { black_box(s.parse::<L>().is_ok()); }, |s| { black_box(s.split(%s).collect::<Vec<_>>()); });
    weigh_use(m, "ID", "no delimiter", 20000, |n| "7".repeat(n), |s| { black_box(s.parse::<L>().is_ok()); }, |s| { black_box(s.split(%s).collect::<Vec<_>>()); });
    weigh_use(m, "ID", "texts", 1000, |n| L(nums(n)).to_string(), |s| { let f = %s; black_box(parse_display::FromStrFormat::<Vec<String>>::parse(&%s, s).map(|v: Vec<String>| v.len()).ok()); }, |s| { black_box(s.split(%s).map(|x| x.to_string()).collect::<Vec<_>>()); });
}"""


def lst(expr, d, sexpr):
    r = '"%s"' % d
    return LIST % (expr, d, r, d, r, r, "()", sexpr, r)


HAND = [
    lst('delimiter(",")', ",", 'delimiter::<String>(",")'),
    lst('join(fmt(), ", ")', ", ", 'join::<String, _>(fmt(), ", ")'),
    lst('delimiter("aaaaaaab")', "aaaaaaab", 'delimiter::<String>("aaaaaaab")'),
    lst('delimiter("日本")', "日本", 'delimiter::<String>("日本")'),
    # collections whose iterators walk
    """use std::collections::*;
#[derive(Display, FromStr)] #[display("{0}")] pub struct L(#[display(with = delimiter(","))] pub LinkedList<u32>);
#[derive(Display, FromStr)] #[display("{0}")] pub struct B(#[display(with = delimiter(","))] pub BTreeSet<u32>);
#[derive(Display, FromStr)] #[display("{0}")] pub struct H(#[display(with = delimiter(","))] pub HashSet<u32>);
#[derive(Display, FromStr)] #[display("{0}")] pub struct Q(#[display(with = join(fmt(), ","))] pub VecDeque<u32>);
pub struct Lazy(pub Vec<u32>);
impl<'a> IntoIterator for &'a Lazy { type Item = &'a u32; type IntoIter = Box<dyn Iterator<Item = &'a u32> + 'a>; fn into_iter(self) -> Self::IntoIter { Box::new(self.0.iter().filter(|x| **x != 12345)) } }
#[derive(Display)] #[display("{0}")] pub struct Z(#[display(with = delimiter(","))] pub Lazy);
fn hand<'a>(v: impl Iterator<Item = &'a u32>) { let mut s = Sink(0); for x in v { write!(s, "{x},").unwrap(); } black_box(s.0); }
pub fn run(m: &mut Mon) {
    weigh_use(m, "ID", "linked", 1000, |n| L(nums(n).into_iter().collect()), out, |l| hand(l.0.iter()));
    weigh_use(m, "ID", "tree", 1000, |n| B(nums(n).into_iter().collect()), out, |l| hand(l.0.iter()));
    weigh_use(m, "ID", "hash", 1000, |n| H(nums(n).into_iter().collect()), out, |l| hand(l.0.iter()));
    weigh_use(m, "ID", "deque", 1000, |n| Q(nums(n).into_iter().collect()), out, |l| hand(l.0.iter()));
    weigh_use(m, "ID", "lazy", 1000, |n| Z(Lazy(nums(n))), out, |l| hand(l.0.0.iter()));
    let texts = |n| L(nums(n).into_iter().collect()).to_string();
    weigh_use(m, "ID", "parse linked", 1000, texts, |s| { black_box(s.parse::<L>().map(|l| l.0.len()).ok()); }, |s| { black_box(s.split(",").map(|x| x.parse::<u32>().ok()).collect::<LinkedList<_>>()); });
    weigh_use(m, "ID", "parse tree", 1000, texts, |s| { black_box(s.parse::<B>().map(|l| l.0.len()).ok()); }, |s| { black_box(s.split(",").map(|x| x.parse::<u32>().ok()).collect::<BTreeSet<_>>()); });
    weigh_use(m, "ID", "parse hash", 1000, texts, |s| { black_box(s.parse::<H>().map(|l| l.0.len()).ok()); }, |s| { black_box(s.split(",").map(|x| x.parse::<u32>().ok()).collect::<HashSet<_>>()); });
    weigh_use(m, "ID", "parse deque", 1000, texts, |s| { black_box(s.parse::<Q>().map(|l| l.0.len()).ok()); }, |s| { black_box(s.split(",").map(|x| x.parse::<u32>().ok()).collect::<VecDeque<_>>()); });
}""",
    # a list of lists
    """#[derive(Display, FromStr)] #[display("[{0}]")] pub struct L(#[display(with = join(delimiter(","), ";"))] pub Vec<Vec<u32>>);
pub fn run(m: &mut Mon) {
    weigh_use(m, "ID", "parse many short", 1000, |n| L((0..n).map(|_| nums(3)).collect()).to_string(), |s| { black_box(s.parse::<L>().is_ok()); }, |s| { black_box(s.split([',', ';']).map(|x| x.parse::<u32>().is_ok()).collect::<Vec<_>>()); });
    weigh_use(m, "ID", "parse one long", 1000, |n| L(vec![nums(n), nums(3)]).to_string(), |s| { black_box(s.parse::<L>().is_ok()); }, |s| { black_box(s.split([',', ';']).map(|x| x.parse::<u32>().is_ok()).collect::<Vec<_>>()); });
    weigh_use(m, "ID", "display", 1000, |n| L((0..n).map(|_| nums(3)).collect()), out, |l| { let mut s = Sink(0); for x in &l.0 { for y in x { write!(s, "{y},").unwrap(); } } black_box(s.0); });
}""",
    # long texts in every kind of placeholder
    """#[derive(Display, FromStr, Clone)] #[display("<{a}|{b:>9}|{c:?}|{d}|{e:-^20}>")] pub struct T { pub a: String, #[display("({})")] pub b: String, pub c: String, #[display(opt)] pub d: Option<String>, pub e: String }
#[derive(Display, FromStr, Clone)] pub enum E { #[display("{0}={1}")] A(String, String), #[display("{0}~{0:?}")] #[from_str(ignore)] B(String), #[display("{t}")] N { t: T } }
pub fn run(m: &mut Mon) {
    let make = |n: usize| { let x = text(n); T { a: x.clone(), b: x.clone(), c: x.clone(), d: Some(x.clone()), e: x } };
    let hand = |v: &T| { let mut s = Sink(0); write!(s, "<{}|({})|{:?}|{}|{:-^20}>", v.a, v.b, v.c, v.d.as_ref().unwrap(), v.e).unwrap(); black_box(s.0); };
    weigh_use(m, "ID", "display", 4000, make, out, hand);
    weigh_use(m, "ID", "parse", 4000, |n| make(n).to_string(), |s| { black_box(s.parse::<T>().is_ok()); }, |s| { black_box(re("(?s)^<(.*?)\\\\|\\\\((.*?)\\\\)\\\\|(.*?)\\\\|(.*?)\\\\|(.*?)>$").captures(s).is_some()); });
    weigh_use(m, "ID", "display enum", 4000, |n| E::N { t: make(n) }, out, |e| if let E::N { t } = e { hand(t) });
    weigh_use(m, "ID", "display twice", 20000, |n| E::B(text(n)), out, |e| if let E::B(x) = e { let mut s = Sink(0); write!(s, "{x}~{x:?}").unwrap(); black_box(s.0); });
    weigh_use(m, "ID", "parse enum", 4000, |n| E::A(text(n), text(n)).to_string(), |s| { black_box(s.parse::<E>().is_ok()); }, |s| { black_box((re("(?s)^(.*?)=(.*?)$").captures(s).is_some(), re("(?s)^<(.*?)\\\\|\\\\((.*?)\\\\)\\\\|(.*?)\\\\|(.*?)\\\\|(.*?)>$").is_match(s))); });
    weigh_use(m, "ID", "parse many ends", 8000, |n| "<|()|||>".repeat(n / 4), |s| { black_box(s.parse::<T>().is_ok()); }, |s| { black_box(re("(?s)^<(.*?)\\\\|\\\\((.*?)\\\\)\\\\|(.*?)\\\\|(.*?)\\\\|(.*?)>$").captures(s).is_some()); });
}""",
    # types in types: every level parses its part again
    """#[derive(Display, FromStr, Clone)] #[display("({0})")] pub struct A(pub String);
#[derive(Display, FromStr, Clone)] #[display("({0})")] pub struct B(pub A);
#[derive(Display, FromStr, Clone)] #[display("({0})")] pub struct C(#[from_str(regex_infer)] pub B);
#[derive(Display, FromStr, Clone)] #[display("({0}){1}")] pub struct D(pub C, pub C);
pub fn run(m: &mut Mon) {
    let make = |n: usize| { let c = C(B(A(text(n)))); D(c.clone(), c) };
    weigh_use(m, "ID", "display", 8000, make, out, |d| { let mut s = Sink(0); write!(s, "((({}))){}", d.0.0.0.0, d.1.0.0.0).unwrap(); black_box(s.0); });
    weigh_use(m, "ID", "parse", 8000, |n| make(n).to_string(), |s| { black_box(s.parse::<D>().is_ok()); }, |s| { for _ in 0..8 { black_box(re("(?s)^\\\\((.*?)\\\\)(.*?)$").captures(s).is_some()); } });
    weigh_use(m, "ID", "parse brackets", 20000, |n| "(".repeat(n), |s| { black_box(s.parse::<D>().is_ok()); }, |s| { for _ in 0..8 { black_box(re("(?s)^\\\\((.*?)\\\\)(.*?)$").captures(s).is_some()); } });
}""",
    # types that contain themselves, nested deep: every level is parsed once
    """pub struct Boxed;
impl<T: std::fmt::Display> parse_display::DisplayFormat<Box<T>> for Boxed { fn write(&self, f: &mut std::fmt::Formatter, v: &Box<T>) -> std::fmt::Result { write!(f, "{v}") } }
impl<T: std::str::FromStr> parse_display::FromStrFormat<Box<T>> for Boxed { type Err = T::Err; fn parse(&self, s: &str) -> Result<Box<T>, T::Err> { s.parse().map(Box::new) } }
#[derive(Display, FromStr, Clone)] pub enum E { #[display("({0})")] P(#[display(with = Boxed)] Box<E>), #[display("{x}")] L { x: u32 } }
#[derive(Display, FromStr, Clone)] #[display("<{0}>")] pub struct S(#[display(opt, with = Boxed)] pub Option<Box<S>>);
#[derive(Display, FromStr, Clone)] #[display("{a}-{b}")] #[from_str(new = N::make(a, b))] pub struct N { #[from_str(regex = "[a-z]")] pub a: char, #[display(opt, with = Boxed)] pub b: Option<Box<N>> }
impl N { fn make(a: char, b: Option<Box<N>>) -> Self { N { a, b } } }
#[derive(Display, FromStr, Clone, Default)] #[display("[{a}]")] #[from_str(default)] pub struct D { #[display(opt, with = Boxed)] pub a: Option<Box<D>>, pub n: u8 }
#[derive(Display, FromStr, Clone)] pub enum F { #[display("!{0}")] A(#[display(with = Boxed)] Box<F>), #[display("?{0}")] B(#[display(with = Boxed)] Box<F>), #[display("{0}?")] C(#[display(with = Boxed)] Box<F>), E }
fn hand(s: &str) { let mut s = s; while s.len() > 2 { black_box((re("(?s)^(.*?)-(.*?)$").captures(s).is_some(), re("(?s)^<(.*?)>$").captures(s).is_some())); s = &s[1..]; } }
pub fn run(m: &mut Mon) {
    fn all<T: std::str::FromStr + std::fmt::Display>(m: &mut Mon, name: &'static str, open: &str, mid: &str, close: &str, bad: &str) {
        for (what, mid) in [("parse", mid), ("refuse", bad)] {
            weigh_use(m, "ID", &format!("{what} {name}"), 2, |n| format!("{}{mid}{}", open.repeat(n), close.repeat(n)), |s| { black_box(s.parse::<T>().is_ok()); }, |s| hand(s));
        }
        weigh_use(m, "ID", &format!("display {name}"), 2, |n| format!("{}{mid}{}", open.repeat(n), close.repeat(n)).parse::<T>().ok().expect("harness: it does not parse"), out, |_| ());
    }
    all::<E>(m, "enum", "(", "12", ")", "x");
    all::<S>(m, "option", "<", "", ">", "x");
    all::<N>(m, "new", "a-", "z-", "", "ZZ");
    all::<D>(m, "default", "[", "[]", "]", "x");
    all::<F>(m, "prefixes", "!", "E", "", "Z");
    all::<F>(m, "suffixes", "", "E", "?", "Z");
}""",
    # a type that contains itself
    """#[derive(Display, FromStr, Clone)] #[display("{head}{tail}")] pub struct Cell { #[from_str(regex = "[a-z]")] pub head: char, #[display(opt, with = Boxed)] pub tail: Option<Box<Cell>> }
pub struct Boxed;
impl parse_display::DisplayFormat<Box<Cell>> for Boxed { fn write(&self, f: &mut std::fmt::Formatter, v: &Box<Cell>) -> std::fmt::Result { write!(f, "{v}") } }
impl parse_display::FromStrFormat<Box<Cell>> for Boxed { type Err = parse_display::ParseError; fn parse(&self, s: &str) -> Result<Box<Cell>, Self::Err> { if s.len() > 40 { return Err(parse_display::ParseError::with_message("long")); } s.parse().map(Box::new) } fn regex_pattern(&self) -> String { "[a-z]+".into() } }
pub fn run(m: &mut Mon) {
    weigh_use(m, "ID", "parse", 20000, text, |s| { black_box(s.parse::<Cell>().is_ok()); }, |s| { black_box(re("^[a-z][a-z]*$").captures(s).is_some()); });
}""",
]


def sizes(id):
    """Declarations of n and 8 n parts: the cost of a use grows with them, not faster."""
    decls, runs = [], []
    kinds = [
        # name, declaration of n parts, text that parses, text that does not, pattern the model matches per part
        ("en", lambda n: "#[derive(FromStr, Display, Debug)] pub enum T { %s }" % ", ".join('#[display("v%d-{0}")] V%d(u8)' % (i, i) for i in range(n)), lambda n: "v%d-7" % (n - 1), lambda n: "w", "enum of patterns"),
        ("cn", lambda n: "#[derive(FromStr, Display, Debug)] #[display(style = \"kebab-case\")] pub enum T { %s }" % ", ".join("Variant%d" % i for i in range(n)), lambda n: "variant%d" % (n - 1), lambda n: "variant", "enum of names"),
        ("mx", lambda n: "#[derive(FromStr, Display, Debug)] pub enum T { %s }" % ", ".join('#[display("={0}")] V%d(#[from_str(regex = "[0-9]{%d}")] String)' % (i, i % 9 + 1) if i % 2 else "W%d" % i for i in range(n)), lambda n: "=123456789", lambda n: "=x", "mixed enum"),
        ("er", lambda n: "#[derive(FromStr, Display, Debug)] #[display(\"{}/{x}\")] #[from_str(regex = \"(?<>)/(?<x>[a-z]+)\")] pub enum T { %s }" % ", ".join("V%d { x: String }" % i for i in range(n)), lambda n: "V%d/x" % (n - 1), lambda n: "V/x", "enum regex"),
        ("st", lambda n: "#[derive(FromStr, Display, Debug)] #[display(\"%s\")] pub struct T { %s }" % ("|".join("{f%d}" % i for i in range(n)), ", ".join("pub f%d: u8" % i for i in range(n))), lambda n: "|".join(str(i) for i in range(n)), lambda n: "|".join(["1"] * (n - 1) + ["x"]), "struct"),
        ("op", lambda n: "#[derive(FromStr, Display, Debug)] #[display(\"%s\")] pub struct T { %s }" % (";".join("{f%d}" % i for i in range(n)), ", ".join('#[display("f%d={}", opt)] pub f%d: Option<u8>' % (i, i) for i in range(n))), lambda n: ";".join("f%d=%d" % (i, i) if i % 3 else "" for i in range(n)), lambda n: ";".join([""] * (n - 1) + ["x"]), "opt struct"),
        ("df", lambda n: "#[derive(FromStr, Display, Debug, Default)] #[display(\"%s\")] #[from_str(default)] pub struct T { %s }" % (",".join("{f%d}" % i for i in range(0, n, 2)), ", ".join("pub f%d: u8" % i for i in range(n))), lambda n: ",".join("7" for i in range(0, n, 2)), lambda n: "x", "default struct"),
        ("tu", lambda n: "#[derive(FromStr, Display, Debug)] #[display(\"%s\")] #[from_str(new = make(%s))] pub struct T(%s); fn make(%s) -> T { T(%s) }" % (" ".join("{%d}" % i for i in range(n)), ", ".join("_%d" % i for i in range(n)), ", ".join(["pub u8"] * n), ", ".join("a%d: u8" % i for i in range(n)), ", ".join("a%d" % i for i in range(n))), lambda n: " ".join("7" for i in range(n)), lambda n: "x", "new"),
    ]
    for k, decl, good, bad, name in kinds:
        a, z = (24, 192) if k in ("en", "cn", "mx", "er") else (10, 80)
        for n in (a, z):
            decls.append("pub mod %s%d { use parse_display::{Display, FromStr}; %s }" % (k, n, decl(n)))
        for what, text in (("parse", good), ("refuse", bad)):
            runs.append("weigh_use(m, %s, %s, 1, |n| { black_box((%s.parse::<%s%d::T>().is_ok(), %s.parse::<%s%d::T>().is_ok())); n == 1 }, |small| if *small { many::<%s%d::T>(%s) } else { many::<%s%d::T>(%s) }, |small| if !small { by_hand(%d) });"
                        % (rlit(id), rlit(what + " " + name), rlit(text(a)), k, a, rlit(text(z)), k, z, k, a, rlit(text(a)), k, z, rlit(text(z)), z))
        runs.append("weigh_use(m, %s, %s, 1, |n| n == 1, |small| if *small { shows::<%s%d::T>(%s) } else { shows::<%s%d::T>(%s) }, |small| if !small { by_hand(%d) });"
                    % (rlit(id), rlit("display " + name), k, a, rlit(good(a)), k, z, rlit(good(z)), z))
    return HAND_PRE + """fn many<T: std::str::FromStr>(s: &str) { for _ in 0..2000 { black_box(s.parse::<T>().is_ok()); } }
fn shows<T: std::str::FromStr + std::fmt::Display>(s: &str) { let Ok(v) = s.parse::<T>() else { panic!("harness: {s:?} does not parse") }; for _ in 0..2000 { out(&v); } }
fn by_hand(n: usize) { let r = re("^v[0-9]+-(?s:(.*?))$"); for _ in 0..40 { for _ in 0..n { black_box(r.captures("v10-7").is_some()); } } }
%s
pub fn run(m: &mut Mon) { %s }
""" % ("\n".join(decls), "\n".join(runs))


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=1, min_evals=3000, pre=PRE27, deps=DEPS_WITH, timeout=900)
