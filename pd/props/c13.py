from corpora import *

RULE = ("For every standard type with an inferred pattern: displayed texts of boundary and random values must match the pattern as a whole; "
        "all strings up to length 3-4 over the characters that occur in numbers, plus mutations of displayed texts and hostile strings, are "
        "classified by hand-written recognisers and must be matched exactly when they have the shape; derived parsers with regex_infer must "
        "split text at the borders the shape gives. Non-trivial: distinct (type, text).")

UNS = ["u8", "u16", "u32", "u64", "u128", "usize"]
SIG = ["i8", "i16", "i32", "i64", "i128", "isize"]
NZ = ["std::num::NonZero<%s>" % t for t in UNS + SIG]

COMMON = r'''
use parse_display::FromStrRegex;
pub fn digits(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) }
pub fn uint(s: &str) -> Option<bool> { Some(digits(s)) }
pub fn sint(s: &str) -> Option<bool> { Some(digits(s.strip_prefix('-').unwrap_or(s))) }
pub fn boolean(s: &str) -> Option<bool> { Some(s == "true" || s == "false") }
pub fn one(s: &str) -> Option<bool> { let mut c = s.chars(); Some(c.next().is_some() && c.next().is_none()) }
pub fn any(_: &str) -> Option<bool> { Some(true) }
/// None: left open by the property
pub fn float(s: &str) -> Option<bool> {
    let t = s.strip_prefix(['+', '-']).unwrap_or(s);
    let l = t.to_ascii_lowercase();
    if l == "inf" { return Some(true) }
    if l == "infinity" { return None }
    if l == "nan" { return if t.len() == s.len() { Some(true) } else { None } }
    let (m, e) = match l.split_once('e') { Some((m, e)) => (m, Some(e)), None => (&l[..], None) };
    if let Some(e) = e { if !digits(e.strip_prefix(['+', '-']).unwrap_or(e)) { return Some(false) } }
    Some(match m.split_once('.') {
        None => digits(m),
        Some((a, b)) => (a.is_empty() || digits(a)) && (b.is_empty() || digits(b)) && !(a.is_empty() && b.is_empty()),
    })
}
pub fn short(alpha: &[&str], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        let mut next = Vec::new();
        for p in &last { for a in alpha { next.push(format!("{p}{a}")); } }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
pub fn pool(r: &mut Rng, n: usize, shown: &[String]) -> Vec<String> {
    let mut v = short(&["0", "7", "9", "+", "-", ".", "e", "E", "i", "n", "f", "a", "N", " ", "\n", "\u{663}", "_", "x"], 3);
    v.extend(short(&["1", "-", "+", ".", "e"], 6));
    for s in ["true", "false", "True", "TRUE", "tru", "rue", "truee", "falsee", "truefalse", "true|false", "t", "f", "yes", "1e5", "inf", "-inf", "+inf", "INF", "Inf", "iNf", "nan", "NaN", "NAN", "infin", "infinity", "nane", "infe3",
        "1e", "e5", "0x10", "1_000", "1,000", "\u{ff11}", "\u{1d7ce}", "\u{131}nf", "\u{17f}", "\u{212a}", "inf\n", "\ninf", "nan ", "1\u{0}", "--1", "-+1", "+-1", "- 1", "-", "+", "\u{2212}1", "1.5.2", "1e5.5", "1e+", "1e+-5", "1ee5", ".e5", ".", "-.5", "+5.", "5.e-3"] {
        v.push(s.to_string());
    }
    for t in TEXTS { v.push(t.to_string()); }
    for c in CHARS { v.push(c.to_string()); v.push(format!("1{c}")); v.push(format!("{c}1")); }
    for _ in 0..n {
        let base = if shown.is_empty() || r.chance(1, 4) { TEXTS[r.below(TEXTS.len())].to_string() } else { shown[r.below(shown.len())].clone() };
        let mut s = base;
        for _ in 0..1 + r.below(3) { s = vrt::strgen::mutate(&s, r); }
        v.push(s);
    }
    let long = "9".repeat(3000);
    v.extend([long.clone(), format!("-{long}"), format!("{long}."), format!(".{long}e{long}"), format!("{long}x"), format!("\n{long}")]);
    v
}
pub fn whole(p: &str) -> Result<regex::Regex, String> { regex::Regex::new(&format!("\\A(?:{p})\\z")).map_err(|e| e.to_string()) }
pub fn scan<T: FromStrRegex>(m: &mut Mon, case: &str, ty: &str, vals: Vec<String>, shape: fn(&str) -> Option<bool>) {
    let p = match guard(|| T::from_str_regex()) { Ok(p) => p, Err(e) => { m.violation(case, "panic", e); return } };
    let re = match whole(&p) { Ok(re) => re, Err(e) => { m.violation(case, "invalid pattern", format!("{ty}: {p:?}: {e}")); return } };
    m.check(case, "no names", re.capture_names().all(|n| n.is_none()), || format!("{ty}: {p:?} has named groups"));
    for v in &vals {
        m.bin("displayed texts");
        m.check(case, v, re.is_match(v), || format!("{ty} displays {v:?}, which its pattern {p:?} does not match"));
        if shape(v) == Some(false) { m.violation(case, "harness", format!("recogniser rejects {v:?}")); }
    }
    let mut r = Rng::for_case(m.seed, case);
    let n = 3000 * m.scale;
    for s in pool(&mut r, n, &vals) {
        let Some(want) = shape(&s) else { m.bin("left open"); continue };
        m.bin(if want { "strings of the shape" } else { "strings of another shape" });
        m.check(case, &s, re.is_match(&s) == want, || format!("{ty}: pattern {p:?} {} {:?}", if want { "does not match" } else { "matches" }, vrt::mon::clip(&s, 200)));
    }
}
pub fn values<T: Arb + std::fmt::Display>(m: &Mon, case: &str) -> Vec<String> {
    let mut r = Rng::for_case(m.seed, case);
    let mut v: Vec<String> = (0..3000 * m.scale).map(|_| T::arb(&mut r).to_string()).collect();
    v.sort(); v.dedup(); v
}
'''


def shape_cases():
    out = []
    def case(ty, shape, vals=None, extra=""):
        id = "b0_s_" + re.sub(r"\W", "_", ty)
        vals = vals or "values::<%s>(m, case)" % ty
        out.append(Raw(id, COMMON + "pub fn run(m: &mut Mon) { let case = %s; let mut vals: Vec<String> = %s; %s scan::<%s>(m, case, %s, vals, %s); }" % (
            rlit(id), vals, extra, ty, rlit(ty), shape)))
    for t in UNS:
        case(t, "uint", extra="vals.extend([%s::MIN, %s::MAX].map(|x| x.to_string()));" % (t, t) + ("vals.extend((0..=255u8).map(|x| x.to_string()));" if t == "u8" else ""))
    for t in SIG:
        case(t, "sint", extra="vals.extend([%s::MIN, %s::MAX, 0, -1].map(|x| x.to_string()));" % (t, t) + ("vals.extend((-128..=127i8).map(|x| x.to_string()));" if t == "i8" else ""))
    for t in UNS + SIG:
        case("std::num::NonZero<%s>" % t, "uint" if t in UNS else "sint")
    for t, bits in (("f32", "u32"), ("f64", "u64")):
        n = 32 if t == "f32" else 64
        case(t, "float", extra="""
            let mut r = Rng::for_case(m.seed, "bits");
            for _ in 0..20000 * m.scale { vals.push(%s::from_bits(r.next() as %s).to_string()); }
            // every exponent, with the extreme mantissas
            let mb = %s::MANTISSA_DIGITS - 1;
            for e in 0..(1 << (%d - 1 - mb)) as %s { for man in [0, 1, (1 << mb) - 1, 1 << (mb - 1)] { for s in [0, 1] { vals.push(%s::from_bits(s << %d | e << mb | man).to_string()); } } }
            for i in 0..4000 { vals.push(((i - 2000) as %s / 16.0).to_string()); vals.push((10 as %s).powi(i / 10 - 200).to_string()); }
            vals.sort(); vals.dedup();""" % (t, bits, t, n, bits, t, n - 1, t, t))
    case("bool", "boolean", "vec![true.to_string(), false.to_string()]")
    case("char", "one", extra="for c in CHARS { vals.push(c.to_string()); } for u in 0..0x110000u32 { if u % (if m.thorough { 1 } else { 7 }) == (m.seed % 7) as u32 * (!m.thorough) as u32 || u < 0x3000 { if let Some(c) = char::from_u32(u) { vals.push(c.to_string()); } } }")
    case("String", "any")
    case("std::path::PathBuf", "any", "values::<String>(m, case)")
    case("std::ffi::OsString", "any", "values::<String>(m, case)")
    return out


def splits(b):
    """a field with regex_infer takes its own shape, whatever stands next to it"""
    out = []
    ALL = UNS + SIG + NZ + ["f32", "f64", "bool", "char"]
    for t in ALL:
        id = "b%d_f_%s" % (b, re.sub(r"\W", "_", t))
        src = '''
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] pub struct A { #[from_str(regex_infer)] pub a: T, pub b: String }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] #[from_str(regex_infer)] pub struct A2 { pub a: T, pub b: String }
#[derive(Display, FromStr, Debug)] #[display("{b}{a}")] pub struct B { #[from_str(regex_infer)] pub a: T, pub b: String }
#[derive(Display, FromStr, Debug)] #[from_str(regex_infer)] #[display("{0}{1}{2}")] pub struct C(pub char, pub T, pub bool);
#[derive(Display, FromStr, Debug)] pub enum E { #[display("{0}!{1}")] #[from_str(regex_infer)] V(T, String), #[display("{x}")] O { x: String } }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] pub struct O { #[display(opt)] #[from_str(regex_infer)] pub a: Option<T>, pub b: String }
type T = %s;
pub fn go<X: std::str::FromStr + std::fmt::Debug + std::fmt::Display>(m: &mut Mon, case: &str, v: X) where X::Err: std::fmt::Display {
    let t = v.to_string(); let want = format!("{v:?}");
    m.bin("split texts");
    let got = parsed::<X>(&t);
    m.check(case, &t, got == Ok(Ok(want.clone())), || format!("text {t:?}\\n  from_str {got:?}\\n  value    {want}"));
}
pub fn run(m: &mut Mon) {
    let case = %s; let mut r = Rng::for_case(m.seed, case);
    for i in 0..300 * m.scale {
        let mut new = || T::arb(&mut r);
        let tail = |r: &mut Rng| -> String { let s = String::arb(r); if s.is_empty() { s } else { format!("{}{s}", r.pick(&[",", " ", "/", "\\n", "z", "é", "(", "|", "#", "]"])) } };
        let head = |r: &mut Rng| -> String { let n = r.below(4); (0..n).map(|_| r.pick(&[",", " ", "/", "\\n", "z", "é", "(", "|", "#", "x"])).collect() };
        let isch = %s;
        let v = new(); go(m, case, A { a: v, b: tail(&mut r) });
        let v = T::arb(&mut r); go(m, case, A2 { a: v, b: tail(&mut r) });
        // as the text in front is as short as can be, it must not end in what could begin the value
        if !isch { let v = T::arb(&mut r); go(m, case, B { a: v, b: head(&mut r) }); }
        let v = T::arb(&mut r); go(m, case, C(char::arb(&mut r), v, bool::arb(&mut r)));
        let v = T::arb(&mut r); go(m, case, E::V(v, String::arb(&mut r)));
        // without a value in front, the text is what follows
        let v = T::arb(&mut r); let text = v.to_string() + &tail(&mut r);
        let got = guard(|| text.parse::<A>().map(|x| x.a.to_string() + &x.b).unwrap_or_else(|e| e.to_string()));
        m.check(case, &text, got == Ok(text.clone()), || format!("text {text:?}\\n  split {got:?}"));
        let bad = format!("{}", head(&mut r));
        if !isch { let got = guard(|| bad.parse::<A>().is_ok()); m.check(case, &bad, got == Ok(false), || format!("text {bad:?} has no value in front, got {got:?}")); }
    }
}''' % (t, rlit(id), "true" if t == "char" else "false")
        out.append(Raw(id, src))
    return out


def corpus(b):
    def knobs(rng, i):
        return dict(infer=.5, infer_all=.5, opt=.15, depth=0, fieldfmt=.2, leaves=[t for t in LEAVES if t is not WORD] + [NZU8, NZI32], lits=["", "", "", "-", "a", "1", ".", "e"], longlit=0, many=10)
    out = randoms("C13", b, 300, knobs, values=10, strings=100)
    return (shape_cases() if b == 0 else []) + splits(b) + out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=2, thorough=4, min_evals=100000)
