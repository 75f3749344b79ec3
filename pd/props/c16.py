from corpora import *

RULE = ("A case is a group of 3-6 random declarations that nothing in the process has used yet. 8 threads start together and run random "
        "histories of parses (most begin with the same type, strings repeat, accepted and rejected mixed), every operation recorded with its "
        "start and end; afterwards a sequential history runs on another thread. The checker compares every result with the model and with "
        "every other result for the same type and string. Special groups: user code that panics in a field, new, default, formatter or "
        "pattern; user code that parses other types from within; recursive types; instantiations of one generic type, with equal patterns and with patterns that depend on the argument (only one set of patterns may ever be in force, the others must panic in a debug build). Non-trivial: distinct "
        "(type, string) and distinct orders of first uses.")


def group(b, i, threads=8, each=60):
    rng = rng_for("C16", b, i)
    id = "b%d_g%d" % (b, i)
    o, names = [], []
    n = rng.choice([3, 4, 5, 6])
    for j in range(n):
        k = dict(depth=rng.choice([0, 0, 1, 2]), derived=.25, nested=.1, opt=.2, fieldfmt=.25, infer=.25, infer_all=.2, regexattr=.15, new=.15,
                 default=.15, ignore=.1, efmt=.1, style=.3, small=rng.random() < .6)
        k["with"] = .3
        g = G(rng, **k)
        # several types of the same name in one process
        d = g.decl(rng.choice(["T", "T", "Same", None]))
        c = make_case("%s_%d" % (id, j), g.inner + [d], rng, values=4, strings=14)
        if not d.from_str:
            continue
        o.append("pub mod t%d {\n%s%s\n}" % (j, MODPRE, c.source()))
        names.append("&t%d::CASE" % j)
    o.append("static GROUP: &[&Case] = &[%s];" % ", ".join(names))
    o.append("pub fn run(m: &mut Mon) { race(m, %s, GROUP, %d, %d); }" % (rlit(id), threads, each))
    return Raw(id, "\n".join(o))


FAM = '''
use std::str::FromStr; use std::sync::Arc; use std::fmt::Debug as _;
%(decl)s
/// what the declared format means for this instantiation
fn model<A: FromStr + std::fmt::Debug, B: FromStr + std::fmt::Debug>(s: &str) -> Result<(A, B), &'static str> {
    let r = s.strip_prefix(%(p)s).ok_or("parse failed.")?;
    let i = r.find(%(q)s).ok_or("parse failed.")?;
    let (a, b) = (&r[..i], &r[i + %(ql)d..]);
    let b = b.strip_suffix(%(t)s).ok_or("parse failed.")?;
    match (a.parse(), b.parse()) {
        (Ok(a), Ok(b)) => Ok((a, b)), (Err(_), Err(_)) => Err("field `%(fa)s` parse failed.|field `%(fb)s` parse failed."),
        (Err(_), _) => Err("field `%(fa)s` parse failed."), _ => Err("field `%(fb)s` parse failed."),
    }
}
fn real<A: FromStr + std::fmt::Debug, B: FromStr + std::fmt::Debug>(s: &str) -> Got {
    guard(|| match s.parse::<G<A, B>>() { Ok(v) => Ok(format!("{:?}", (v.%(fa)s, v.%(fb)s))), Err(e) => Err(e.to_string()) })
}
fn want<A: FromStr + std::fmt::Debug, B: FromStr + std::fmt::Debug>(s: &str) -> Result<String, String> {
    model::<A, B>(s).map(|v| format!("{v:?}")).map_err(|e| e.to_string())
}
static REAL: &[fn(&str) -> Got] = &[%(real)s];
static WANT: &[fn(&str) -> Result<String, String>] = &[%(want)s];
pub fn run(m: &mut Mon) {
    let id = %(id)s;
    let mut r = Rng::for_case(m.seed, id);
    let parts = ["1", "0", "-1", "255", "256", "300", "true", "x", "a", "1.5", "", "-", "65535", "\\n", "no", "'"];
    let mut ss: Vec<String> = Vec::new();
    for _ in 0..40 {
        let (a, b) = (r.pick(&parts).to_string(), r.pick(&parts).to_string());
        let s = format!("{}{a}{}{b}{}", %(p)s, %(q)s, %(t)s);
        ss.push(if r.chance(1, 6) { mutate(&s, &mut r) } else { s });
    }
    let ss = Arc::new(ss);
    let sizes = vec![ss.len(); REAL.len()];
    let ops = plan(&mut r, 8, 80, &sizes);
    let s2 = ss.clone();
    let evs = match storm(ops, r.next(), Arc::new(move |c, i| REAL[c](&s2[i]))) { Ok(e) => e, Err(e) => return m.stuck(id, e) };
    observe(m, id, &evs, REAL.len());
    for e in &evs {
        let w = WANT[e.case](&ss[e.input]);
        m.eval(id, &format!("{} {}", e.case, ss[e.input]), true);
        let same = match (&e.got, &w) { (Ok(Ok(a)), Ok(b)) => a == b, (Ok(Err(a)), Err(b)) => b.split('|').any(|x| x == a), _ => false };
        if !same {
            m.violation(id, "instantiation", format!("instantiation {} input {:?}\\n  from_str: {:?}\\n  declared: {w:?}", e.case, ss[e.input], e.got));
        }
    }
}
'''


def family(b, i):
    """instantiations of one generic type, racing"""
    rng = rng_for("C16", b, "fam", i)
    id = "b%d_f%d" % (b, i)
    p, q, t = rng.choice(["", "a", "<", "x\n", "é"]), rng.choice([",", ";;", "|", " é ", "\n"]), rng.choice(["", "", ">", "."])
    sh = rng.choice(["named", "tuple", "enum"])
    if sh == "tuple":
        fa, fb = "0", "1"
        decl = "#[derive(FromStr)] #[display(%s)] pub struct G<A, B>(pub A, pub B);" % rlit(fmt_src([p, Var("0"), q, Var("1"), t]))
    else:
        fa, fb = uniq(rng, ["a", "b", "value", "t", "p", "s", "c", "x0"], 2)
        decl = "#[derive(FromStr)] #[display(%s)] pub struct G<A, B> { pub %s: A, pub %s: B }" % (rlit(fmt_src([p, Var(fa), q, Var(fb), t])), fa, fb)
    tys = ["u8", "u16", "i64", "bool", "String", "char", "f64", "Word"]
    insts = [(rng.choice(tys), rng.choice(tys)) for _ in range(rng.choice([2, 3, 5]))]
    return Raw(id, FAM % dict(decl=decl, p=rlit(p), q=rlit(q), ql=len(q.encode()), t=rlit(t), fa=fa, fb=fb, id=rlit(id),
                              real=", ".join("real::<%s, %s>" % x for x in insts), want=", ".join("want::<%s, %s>" % x for x in insts)))


BOMB = '''
use std::str::FromStr; use std::sync::Arc; use std::sync::atomic::{AtomicUsize, Ordering::SeqCst}; use std::fmt;
/// `!...` panics, `?...` fails, everything else parses
#[derive(Debug, Clone, PartialEq)] pub struct Bomb(pub String);
impl FromStr for Bomb { type Err = (); fn from_str(s: &str) -> Result<Self, ()> {
    if s.starts_with('!') { panic!("bomb {s}") } if s.starts_with('?') { return Err(()) } Ok(Bomb(s.into())) } }
impl fmt::Display for Bomb { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    if self.0.starts_with('!') { panic!("bomb {}", self.0) } if self.0.starts_with('?') { return Err(fmt::Error) } f.write_str(&self.0) } }
impl Default for Bomb { fn default() -> Self { Bomb("dflt".into()) } }
thread_local! { static ARMED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
#[derive(Debug, Clone, PartialEq)] pub struct Touchy(pub u8);
impl Default for Touchy { fn default() -> Self { if ARMED.with(|a| a.get()) { panic!("touchy") } Touchy(7) } }
/// a pattern that cannot be had the first times it is asked for
pub struct Late(pub &'static AtomicUsize);
impl parse_display::DisplayFormat<u32> for Late { fn write(&self, f: &mut fmt::Formatter, v: &u32) -> fmt::Result { write!(f, "{v}") } }
impl parse_display::FromStrFormat<u32> for Late { type Err = std::num::ParseIntError;
    fn parse(&self, s: &str) -> Result<u32, Self::Err> { s.parse() }
    fn regex_pattern(&self) -> String {
        std::thread::yield_now();
        if self.0.fetch_update(SeqCst, SeqCst, |n| n.checked_sub(1)).is_ok() { panic!("late") }
        "[0-9]+".into() } }
static LATE1: AtomicUsize = AtomicUsize::new(1); static LATE5: AtomicUsize = AtomicUsize::new(5);
/// parsing a type inside its pattern, inside its parse and inside new
#[derive(FromStr, Debug, Clone, PartialEq)] #[display("{a}.{b}")] pub struct Dot { a: u8, b: u8 }
#[derive(FromStr, Debug, Clone, PartialEq)] #[display("[{0}]")] pub struct Inside(Dot);
pub struct Nest;
impl parse_display::DisplayFormat<Dot> for Nest { fn write(&self, f: &mut fmt::Formatter, v: &Dot) -> fmt::Result { write!(f, "{}.{}", v.a, v.b) } }
impl parse_display::FromStrFormat<Dot> for Nest { type Err = ();
    fn parse(&self, s: &str) -> Result<Dot, ()> { format!("[{s}]").parse::<Inside>().map(|x| x.0).map_err(|_| ()) }
    fn regex_pattern(&self) -> String { if "[1.2]".parse::<Inside>() == Ok(Inside(Dot { a: 1, b: 2 })) { "[0-9.]*".into() } else { "never".into() } } }
pub fn redot(d: Dot) -> Option<Outer> { format!("{}.{}", d.a, d.b).parse::<Dot>().ok().map(|x| Outer { d: x, n: 0 }).filter(|x| x.d.a != 9) }
#[derive(FromStr, Debug, Clone, PartialEq)] #[display("{d}/{n}")] #[from_str(new = redot(d))] pub struct Outer { #[display(with = Nest)] d: Dot, #[from_str(default)] n: u8 }
/// recursive types
#[derive(FromStr, Debug, Clone, PartialEq)] #[display("{head}{tail}")] pub struct List { #[from_str(regex = "[a-z]")] head: char, tail: Tail }
#[derive(Debug, Clone, PartialEq)] pub struct Tail(pub Option<Box<List>>);
impl FromStr for Tail { type Err = parse_display::ParseError; fn from_str(s: &str) -> Result<Self, Self::Err> {
    if s.is_empty() { Ok(Tail(None)) } else { s.parse().map(|l| Tail(Some(Box::new(l)))) } } }
#[derive(FromStr, Debug, Clone, PartialEq)] pub enum Tree { #[display("({0} {1})")] Node(Sub, Sub), #[display("{0}")] Leaf(u8) }
#[derive(Debug, Clone, PartialEq)] pub struct Sub(pub Box<Tree>);
impl FromStr for Sub { type Err = parse_display::ParseError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(|t| Sub(Box::new(t))) } }

#[derive(FromStr, Debug, Clone, PartialEq)] #[display("<{a}|{b}>")] pub struct S { a: Bomb, b: u32 }
#[derive(FromStr, Debug, Clone, PartialEq)] pub enum E { #[display("x{0}y")] X(Bomb), #[display("x{0}")] Y(String), #[display("{0}")] Z(Bomb) }
#[derive(FromStr, Debug, Clone, PartialEq)] #[display("{a},{b}")] #[from_str(new = make(a, b))] pub struct N { a: u8, b: u8 }
pub fn make(a: u8, b: u8) -> Option<N> { if a == b { panic!("make") } if a > b { return None } Some(N { a, b }) }
#[derive(FromStr, Debug, Clone, PartialEq)] #[display("{a}!")] pub struct D { a: u8, #[from_str(default)] t: Touchy }
#[derive(FromStr, Debug, Clone, PartialEq)] #[display("{a}-{b}")] pub struct L1 { #[display(with = Late(&LATE1))] a: u32, b: String }
#[derive(FromStr, Debug, Clone, PartialEq)] pub enum L5 { #[display("k{0}")] A(#[display(with = Late(&LATE5))] u32), #[display("{0}")] B(String) }

type W = Result<Result<String, ()>, ()>;
fn ok<T: fmt::Debug>(v: T) -> W { Ok(Ok(format!("{v:?}"))) }
const NO: W = Ok(Err(())); const BOOM: W = Err(());
/// the results of every (type, string); BOOM: panics; None: may also panic until the pattern is there
pub fn table() -> Vec<(fn(&str) -> Got, bool, Vec<(&'static str, W)>)> {
    let b = |s: &str| Bomb(s.into());
    let leaf = |n| Sub(Box::new(Tree::Leaf(n)));
    vec![
        (parsed::<S>, false, vec![("<a|1>", ok(S { a: b("a"), b: 1 })), ("<!|2>", BOOM), ("<?|3>", NO), ("<a|x>", NO), ("a|1", NO), ("<|7>", ok(S { a: b(""), b: 7 })), ("<\\n|7>", ok(S { a: b("\\n"), b: 7 }))]),
        (parsed::<E>, false, vec![("xay", ok(E::X(b("a")))), ("x!y", BOOM), ("x?y", ok(E::Y("?y".into()))), ("xa", ok(E::Y("a".into()))), ("q", ok(E::Z(b("q")))), ("!", BOOM), ("?", NO)]),
        (parsed::<N>, false, vec![("1,2", ok(N { a: 1, b: 2 })), ("2,2", BOOM), ("3,2", NO), ("256,1", NO), ("0,9", ok(N { a: 0, b: 9 }))]),
        (parsed_armed, false, vec![("1!", BOOM), ("!", NO), ("2", NO)]),
        (parsed::<D>, false, vec![("1!", ok(D { a: 1, t: Touchy(7) })), ("!", NO), ("2", NO), ("99!", ok(D { a: 99, t: Touchy(7) }))]),
        (parsed::<L1>, true, vec![("1-b", ok(L1 { a: 1, b: "b".into() })), ("12-3-", ok(L1 { a: 12, b: "3-".into() })), ("x-b", NO), ("-1", NO)]),
        (parsed::<L5>, true, vec![("k1", ok(L5::A(1))), ("k", ok(L5::B("k".into()))), ("", ok(L5::B("".into()))), ("k99", ok(L5::A(99)))]),
        (parsed::<Outer>, false, vec![("1.2/", NO), ("1.2/0", ok(Outer { d: Dot { a: 1, b: 2 }, n: 0 })), ("9.2/5", NO), ("7.2/200", ok(Outer { d: Dot { a: 7, b: 2 }, n: 0 })), ("x/1", NO), ("300.2/5", NO)]),
        (parsed::<List>, false, vec![("ab", ok(List { head: 'a', tail: Tail(Some(Box::new(List { head: 'b', tail: Tail(None) }))) })), ("A", NO), ("aA", NO), ("", NO), ("z", ok(List { head: 'z', tail: Tail(None) }))]),
        (parsed::<Tree>, false, vec![("1", ok(Tree::Leaf(1))), ("(1 2)", ok(Tree::Node(leaf(1), leaf(2)))), ("(1 (2 3))", ok(Tree::Node(leaf(1), Sub(Box::new(Tree::Node(leaf(2), leaf(3))))))), ("(1 )", NO), ("(a 1)", NO), ("", NO)]),
    ]
}
fn parsed_armed(s: &str) -> Got { ARMED.with(|a| a.set(true)); let r = parsed::<D>(s); ARMED.with(|a| a.set(false)); r }
pub fn run(m: &mut Mon) {
    let id = %(id)s;
    let mut r = Rng::for_case(m.seed, id);
    let table = Arc::new(table());
    let sizes: Vec<usize> = table.iter().map(|t| t.2.len()).collect();
    let ops = plan(&mut r, 8, 160, &sizes);
    let t2 = table.clone();
    let mut late = [0usize; 2];
    let evs = match storm(ops, r.next(), Arc::new(move |c, i| t2[c].0(t2[c].2[i].0))) { Ok(e) => e, Err(e) => return m.stuck(id, e) };
    observe(m, id, &evs, table.len());
    let mut judge = |m: &mut Mon, c: usize, i: usize, got: Got| {
        let (_, lazy, rows) = &table[c];
        let (s, w) = &rows[i];
        m.eval(id, &format!("{c} {s}"), true);
        let g: W = match &got { Ok(Ok(d)) => Ok(Ok(d.clone())), Ok(Err(_)) => Ok(Err(())), Err(_) => Err(()) };
        m.bin(match &g { Ok(Ok(_)) => "parsed", Ok(Err(_)) => "rejected", Err(_) => "user code panicked" });
        if *lazy && matches!(&got, Err(p) if p.ends_with(": late")) { late[c - 5] += 1; return; }
        if g != *w || matches!(&got, Err(p) if !["bomb", "make", "touchy"].iter().any(|x| p.contains(x))) {
            m.violation(id, "result", format!("type {c} input {s:?}\\n  from_str: {got:?}\\n  declared: {w:?}"));
        }
    };
    for e in evs { judge(m, e.case, e.input, e.got); }
    for _ in 0..400 {
        let c = r.below(table.len());
        let i = r.below(sizes[c]);
        judge(m, c, i, table[c].0(table[c].2[i].0));
    }
    m.check(id, "panics in patterns", late[0] <= 1 && late[1] <= 5, || format!("more panics than the pattern had: {late:?}"));
    // Display with user code that fails or panics
    #[derive(Display)] #[display("<{a}|{b}>")] struct V { a: Bomb, #[display(opt)] b: Option<Bomb> }
    for _ in 0..60 {
        let t = ["", "a", "!", "?", "xyz"];
        let (a, b) = (*r.pick(&[&t[0], &t[1], &t[2], &t[3], &t[4]]), [None, Some("q"), Some("!"), Some("?")][r.below(4)]);
        let v = V { a: Bomb(a.into()), b: b.map(|b| Bomb(b.into())) };
        let got = guard(|| { use std::fmt::Write; let mut o = String::new(); write!(o, "{v}").map(|_| o).map_err(|_| ()) });
        let w = match (a, b) { ("!", _) => Err(()), ("?", _) => Ok(Err(())), (_, Some("!")) => Err(()), (_, Some("?")) => Ok(Err(())), (a, b) => Ok(Ok(format!("<{a}|{}>", b.unwrap_or("")))) };
        m.check(id, &format!("{a:?} {b:?}"), got.clone().map_err(|_| ()) == w, || format!("{a:?} {b:?} displays {got:?}, expected {w:?}"));
    }
}
'''


CROWD = '''
use std::sync::Arc;
%(decls)s
static TABLE: &[(fn(&str) -> Got, &str, &str)] = &[%(table)s];
fn want(t: &(fn(&str) -> Got, &str, &str), s: &str) -> Got {
    Ok(match s.strip_prefix(t.1).and_then(|s| s.strip_suffix(t.2)) { None => Err("parse failed.".into()), Some(x) => x.parse::<u8>().map(|v| format!("T({v})")).map_err(|_| "field `0` parse failed.".into()) })
}
pub fn run(m: &mut Mon) {
    let id = %(id)s;
    let mut r = Rng::for_case(m.seed, id);
    let n = TABLE.len();
    // the text of each type, and the texts of others
    let texts: Vec<String> = TABLE.iter().map(|t| format!("{}7{}", t.1, t.2)).collect();
    let inputs: Arc<Vec<Vec<String>>> = Arc::new((0..n).map(|c| { let mut v = vec![texts[c].clone(), format!("{}x{}", TABLE[c].1, TABLE[c].2)]; for _ in 0..6 { v.push(texts[r.below(n)].clone()) } v }).collect());
    let ops = plan(&mut r, 8, n + 200, &vec![8; n]);
    let i2 = inputs.clone();
    let evs = match storm(ops, r.next(), Arc::new(move |c, i| TABLE[c].0(&i2[c][i]))) { Ok(e) => e, Err(e) => return m.stuck(id, e) };
    observe(m, id, &evs, n);
    let mut bad = 0;
    let mut judge = |m: &mut Mon, c: usize, s: &str, got: Got| {
        m.eval(id, &format!("{c} {s}"), true);
        let w = want(&TABLE[c], s);
        if got != w && bad < 5 { bad += 1; m.violation(id, "one of many types", format!("type {c} ({:?}..{:?}) input {s:?}\\n  from_str: {got:?}\\n  declared: {w:?}", TABLE[c].1, TABLE[c].2)); }
    };
    for e in evs { judge(m, e.case, &inputs[e.case][e.input], e.got); }
    // every text with every type
    for c in 0..n { for s in &texts { let got = TABLE[c].0(s); judge(m, c, s, got); } }
}
'''


def crowd(b, i):
    """many types whose formats are nearly the same"""
    rng = rng_for("C16", b, "crowd", i)
    id = "b%d_c%d" % (b, i)
    alpha = rng.choice(["abcdefgh", "abcdefghijklmnopqrstuvwxyz", "abAB", "-_.,:;<>", "abcdéèà"])
    base = [rng.choice(alpha) for _ in range(rng.choice([3, 4, 6]))]
    rows = []
    for _ in range(5000):
        if len(rows) == 160:
            break
        t = list(base)
        x = rng.random()
        if x < .6:
            # two neighbours differ
            k = rng.randrange(len(t) - 1)
            t[k], t[k + 1] = rng.choice(alpha), rng.choice(alpha)
        elif x < .8:
            rng.shuffle(t)
        else:
            t[rng.randrange(len(t))] = rng.choice(alpha)
        k = rng.randrange(len(t) + 1) if rng.random() < .3 else len(t)
        t = ("".join(t[:k]), "".join(t[k:]))
        if t not in rows:
            rows.append(t)
    decls = "\n".join("pub mod t%d { use parse_display::FromStr; #[derive(FromStr, Debug)] #[display(%s)] pub struct T(u8); }" % (j, rlit(fmt_src([p for p in (a, Var("0"), z) if p != ""]))) for j, (a, z) in enumerate(rows))
    return Raw(id, CROWD % dict(decls=decls, id=rlit(id), table=", ".join("(parsed::<t%d::T>, %s, %s)" % (j, rlit(a), rlit(z)) for j, (a, z) in enumerate(rows))))


VARY = '''
use std::str::FromStr; use std::sync::Arc; use parse_display::{FromStrFormat, FromStrRegex, DisplayFormat};
pub trait Kind: Sized { const PAT: &'static str; fn make(s: &str) -> Self; }
macro_rules! kinds { ($($k:ident $p:expr),* $(,)?) => { $(
    #[derive(Debug, Clone, PartialEq)] pub struct $k(pub String);
    impl Kind for $k { const PAT: &'static str = $p; fn make(s: &str) -> Self { $k(s.into()) } }
    impl FromStr for $k { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Ok($k(s.into())) } }
    impl FromStrRegex for $k { fn from_str_regex() -> String { $p.into() } }
)* } }
kinds!(%(kinds)s);
pub trait Kn: Kind + FromStr + FromStrRegex + std::fmt::Debug {} impl<T: Kind + FromStr + FromStrRegex + std::fmt::Debug> Kn for T {}
#[derive(Debug)] pub struct Pair<T>(pub T, pub u8);
impl<T: Kind> Kind for Pair<T> { const PAT: &'static str = T::PAT; fn make(s: &str) -> Self { Pair(T::make(s), 0) } }
impl<T: Kind> FromStr for Pair<T> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Ok(Pair(T::make(s), 0)) } }
impl<T: Kind> FromStrRegex for Pair<T> { fn from_str_regex() -> String { T::PAT.into() } }
impl<T: Text> Text for Pair<T> { fn text(&self) -> &str { self.0.text() } }
pub struct By;
impl<T: Kind> FromStrFormat<T> for By { type Err = (); fn parse(&self, s: &str) -> Result<T, ()> { Ok(T::make(s)) } fn regex_pattern(&self) -> String { T::PAT.into() } }
%(decl)s
type Inst = (fn(&str) -> Got, &'static [&'static str], fn() -> String);
fn real<A: Kind + FromStr + FromStrRegex + std::fmt::Debug, B: Kind + FromStr + FromStrRegex + std::fmt::Debug>(s: &str) -> Got { guard(|| match s.parse::<G<A, B>>() { Ok(v) => Ok(v.texts()), Err(e) => Err(e.to_string()) }) }
/// every instantiation with the patterns of its fields that depend on it
static INSTS: &[Inst] = &[%(insts)s];
fn model(pats: &[&str], s: &str) -> Result<String, String> {
    let re = regex::Regex::new(&%(model)s).unwrap();
    match re.captures(s) { Some(c) => Ok(format!("{:?}", (&c["a"], &c["b"]))), None => %(other)s }
}
pub fn run(m: &mut Mon) {
    let id = %(id)s;
    let mut r = Rng::for_case(m.seed, id);
    let parts = ["1", "12", "ab", "x", "y", "", "é", "X", "1a"];
    let mut ss: Vec<String> = Vec::new();
    for _ in 0..40 {
        let s = format!("{}{}{}{}{}", %(p)s, r.pick(&parts), %(q)s, r.pick(&parts), %(t)s);
        ss.push(if r.chance(1, 8) { mutate(&s, &mut r) } else { s });
    }
    let ss = Arc::new(ss);
    let ops = { let th = if r.chance(1, 2) { 8 } else { 1 }; plan(&mut r, th, 40, &vec![ss.len(); INSTS.len()]) };
    let s2 = ss.clone();
    let evs = match storm(ops, r.next(), Arc::new(move |c, i| INSTS[c].0(&s2[i]))) { Ok(e) => e, Err(e) => return m.stuck(id, e) };
    observe(m, id, &evs, INSTS.len());
    // the patterns in force are those of the uses that did not panic
    let mut force: Vec<&[&str]> = evs.iter().filter(|e| e.got.is_ok()).map(|e| INSTS[e.case].1).collect();
    force.sort(); force.dedup();
    m.check(id, "one set of patterns", force.len() == 1, || format!("instantiations with {} different sets of patterns were used without a panic: {force:?}", force.len()));
    let Some(force) = force.first() else { return };
    for e in &evs {
        let (_, pats, _) = &INSTS[e.case];
        let s = &ss[e.input];
        m.eval(id, &format!("{} {s}", e.case), true);
        m.bin(if pats == force { "same patterns" } else { "other patterns" });
        let good = match &e.got { Err(_) => pats != force, Ok(g) => pats == force && *g == model(pats, s) };
        if !good {
            m.violation(id, "patterns that vary", format!("in force {force:?}, instantiation {} with {pats:?}, input {s:?}\\n  from_str: {:?}\\n  declared: {:?}", e.case, e.got, if pats == force { format!("{:?}", model(pats, s)) } else { "panic".into() }));
        }
    }
    // the published pattern is always the instantiation's own
    for (_, pats, re) in INSTS {
        let re = regex::Regex::new(&format!("^(?:{})$", re())).unwrap();
        for s in ss.iter() {
            let (got, want) = (re.is_match(s), model(pats, s).is_ok());
            m.check(id, &format!("pattern {pats:?} {s}"), got == want, || format!("{re} for {pats:?} on {s:?}: {got}, declared {want}"));
        }
    }
}
'''
PATS = ["[0-9]+", "[a-z]*", "x|y", "(?s:.)", "(?i:x+)", "(ab|a)", "[0-9]", "é?", "(?s:.*?)"]


def vary(b, i):
    """one generic type whose fields' patterns depend on its arguments: a debug build panics rather than parsing by another's patterns"""
    rng = rng_for("C16", b, "vary", i)
    id = "b%d_v%d" % (b, i)
    p, q, t = rng.choice(["", "<", "(", "k "]), rng.choice([",", ";;", "|", "\n", "."]), rng.choice(["", "", ">", "]"])
    fa = rng.choice(["#[display(with = By)]", "#[from_str(with = By)]", "#[from_str(regex_infer)]"])
    fb = rng.choice(["#[display(with = By)]", "#[from_str(with = By)]", "#[from_str(regex_infer)]", ""])
    pats = rng.sample(PATS, rng.choice([2, 3, 4]))
    kinds = [("K%d" % j, pats[j] if j < len(pats) else rng.choice(pats)) for j in range(rng.choice([3, 4, 6]) if len(pats) < 4 else 6)]
    sh = rng.choice(["named", "tuple", "enum", "variant"])
    a, c = ("a", "b") if sh in ("named", "variant") else ("0", "1")
    fmt = rlit(fmt_src([x for x in (p, Var(a), q, Var(c), t) if x != ""]))
    tya, tyb = [rng.choice([x, x, "Pair<%s>" % x, "Pair<Pair<%s>>" % x]) for x in "AB"]
    texts = "impl<A: Kn, B: Kn> G<A, B> where A: Text, B: Text { fn texts(&self) -> String { %s } }\npub trait Text { fn text(&self) -> &str; }\n" + " ".join("impl Text for %s { fn text(&self) -> &str { &self.0 } }" % k for k, _ in kinds)
    other = 'Err("parse failed.".into())'
    pub = 'format!("{:?}", (%s.text(), %s.text()))'
    if sh == "named":
        decl = "#[derive(FromStr)] #[display(%s)] pub struct G<A: Kn, B: Kn> { %s pub a: %s, %s pub b: %s }\n" % (fmt, fa, tya, fb, tyb) + texts % (pub % ("self.a", "self.b"))
    elif sh == "tuple":
        decl = "#[derive(FromStr)] #[display(%s)] pub struct G<A: Kn, B: Kn>(%s pub %s, %s pub %s);\n" % (fmt, fa, tya, fb, tyb) + texts % (pub % ("self.0", "self.1"))
    else:
        v = "V { %s a: %s, %s b: %s }" % (fa, tya, fb, tyb) if sh == "variant" else "V(%s %s, %s %s)" % (fa, tya, fb, tyb)
        pat = "G::V { a, b }" if sh == "variant" else "G::V(a, b)"
        rest = rng.random() < .5
        decl = "#[derive(FromStr)] pub enum G<A: Kn, B: Kn> { #[display(%s)] %s%s }\n" % (fmt, v, ', #[display("{0}")] W(String)' if rest else "")
        decl += texts % ("match self { %s => %s,%s }" % (pat, pub % ("a", "b"), ' G::W(s) => format!("W{s:?}")' if rest else ""))
        if rest:
            other = 'Ok(format!("W{s:?}"))'
    decl = decl.replace("fn texts(&self) -> String { match self", "pub fn texts(&self) -> String { match self")
    insts, seen = [], set()
    for _ in range(rng.choice([3, 5, 8])):
        x, y = rng.choice(kinds), rng.choice(kinds)
        if (x, y) not in seen:
            seen.add((x, y))
            dep = [x[1]] + ([y[1]] if fb else [])
            insts.append("(real::<%s, %s>, &[%s], <G<%s, %s> as FromStrRegex>::from_str_regex)" % (x[0], y[0], ", ".join(map(rlit, dep)), x[0], y[0]))
    model = 'format!("^{}(?<a>{}){}(?<b>{}){}$", regex::escape(%s), pats[0], regex::escape(%s), %s, regex::escape(%s))' % (rlit(p), rlit(q), "pats[1]" if fb else '"(?s:.*?)"', rlit(t))
    src = VARY % dict(kinds=", ".join("%s %s" % (k, rlit(x)) for k, x in kinds), decl=decl, insts=", ".join(insts), model=model, other=other, id=rlit(id), p=rlit(p), q=rlit(q), t=rlit(t))
    return Raw(id, src.replace("B: Kind + FromStr + FromStrRegex + std::fmt::Debug>", "B: Kind + FromStr + FromStrRegex + std::fmt::Debug + Text>").replace("real<A: Kind + FromStr + FromStrRegex + std::fmt::Debug,", "real<A: Kind + FromStr + FromStrRegex + std::fmt::Debug + Text,"))


def corpus(b):
    out = [group(b, i) for i in range(190)]
    out += [crowd(b, i) for i in range(5)]
    out += [family(b, i) for i in range(60)]
    if b % 2 == 0:      # the others are built without debug assertions
        out += [vary(b, i) for i in range(80)]
    for j in range(6):
        id = "b%d_x%d" % (b, j)
        out.append(Raw(id, BOMB % dict(id=rlit(id))))
    return out


MIRI = '''
#![allow(warnings, bindings_with_variant_name)]
use parse_display::*; use std::sync::Barrier;
#[derive(Display, FromStr, PartialEq, Debug, Clone)] #[display("{a}-{b}")] struct X { a: u8, b: String }
#[derive(Display, FromStr, PartialEq, Debug, Clone)] enum E { #[display("k{0}")] A(u8), B, #[display("{x}/{y}")] C { x: X, #[display("<{}>", opt)] y: Option<u8> } }
#[derive(Display, FromStr, PartialEq, Debug, Clone)] #[display("{a}{b}")] struct G<T> { #[from_str(regex = "[0-9]+")] a: T, #[display(with = Up)] b: String }
struct Up;
impl DisplayFormat<String> for Up { fn write(&self, f: &mut std::fmt::Formatter, v: &String) -> std::fmt::Result { write!(f, "{}", v.to_uppercase()) } }
impl FromStrFormat<String> for Up { type Err = (); fn parse(&self, s: &str) -> Result<String, ()> { Ok(s.to_lowercase()) } fn regex_pattern(&self) -> String { std::thread::yield_now(); "[A-Z]*".into() } }
fn one(k: usize) -> usize {
    match k % 5 {
        0 => { let x = X { a: 7, b: "q-q".into() }; assert_eq!(x.to_string().parse::<X>(), Ok(x)); }
        1 => { assert!("256-".parse::<X>().is_err()); assert_eq!("B".parse::<E>(), Ok(E::B)); }
        2 => { let e = E::C { x: X { a: 1, b: "z".into() }, y: Some(3) }; assert_eq!(e.to_string().parse::<E>(), Ok(e)); }
        3 => { let g = G { a: 5u8, b: "ab".into() }; assert_eq!(g.to_string().parse::<G<u8>>(), Ok(g)); }
        _ => { assert_eq!("5AB".parse::<G<String>>(), Ok(G { a: "5".to_string(), b: "ab".into() })); assert!("ab".parse::<G<u8>>().is_err()); }
    }
    1
}
fn main() {
    let gate: &Barrier = Box::leak(Box::new(Barrier::new(3)));
    let hs: Vec<_> = (0..3).map(|t| std::thread::spawn(move || { gate.wait(); (0..6).map(|k| one(t * (k + 1) + k)).sum::<usize>() })).collect();
    let n: usize = hs.into_iter().map(|h| h.join().expect("a thread failed")).sum();
    println!("operations {n}");
}
'''


def miri(res):
    """the races above, small, in an interpreter that sees undefined behaviour and data races"""
    d = os.path.join(VERIF, "work/wc16miri")
    package("wc16miri", d, DEPS.split("\n", 1)[1], {"wc16miri": MIRI})
    n = 8 if THOROUGH else 1
    for k in range(n):
        e = env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(TARGET, "miri"),
                MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.05 -Zmiri-seed=%d" % (SEED * 100 + k))
        try:
            p = subprocess.run(["cargo", "miri", "run", "--offline"], cwd=d, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
        except (subprocess.TimeoutExpired, OSError) as x:
            res.extra["miri"] = "no answer: %s" % str(x)[:200]
            return
        err, out = p.stderr.decode("utf8", "replace"), p.stdout.decode("utf8", "replace")
        if p.returncode == 0 and out.startswith("operations "):
            res.evals += int(out.split()[1])
            res.bins["operations under Miri"] = res.bins.get("operations under Miri", 0) + int(out.split()[1])
        elif re.search(r"Undefined Behavior|data race|deadlock|panicked at", err):
            res.violation("miri", "interpreter report", err[-3000:], MIRI)
            return
        else:
            res.extra["miri"] = "did not run: " + err[-300:]
            return


def sanitize(res):
    if res.found:
        return
    import threading
    t = threading.Thread(target=miri, args=(res,))
    t.start()
    cs = [group(0, i) for i in range(1000, 1048 if THOROUGH else 1012)] + [family(0, i) for i in range(1000, 1004)] + [Raw("b0_x9", BOMB % dict(id=rlit("b0_x9")))]
    n = res.bins.get("operations in histories", 0)
    run_corpus(res, cs, "C16", batch="tsan", san="thread", nshards=4, rounds=4)
    res.bins["operations in histories under ThreadSanitizer"] = res.bins.get("operations in histories", 0) - n
    t.join()


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=1, min_evals=10000, rounds=8, after=sanitize)
