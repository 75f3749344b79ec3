from corpora import *

RULE = ("A case is a random declaration whose units carry new expressions (struct literals, constructor calls with permuted arguments, macros, "
        "method chains; returning Self, Option or Result) that change values and reject a quarter of them by hash, with field names of every "
        "kind including those of locals in generated code, defaults, nested and opt fields, and enum variants that overlap so that rejection "
        "must fall through; an evaluation parses one string and compares with calling the same construction by hand, and hand-written cases "
        "record every constructor call. Non-trivial: accepted, failing in a field, rejected, or longer than one character.")


def corpus(b):
    out = []
    def knobs(rng, i):
        k = dict(new=.85, default=.15, nested=.1, opt=.15, depth=rng.choice([0, 0, 1]), derived=.15, fieldfmt=.2, infer=.1, many=16, style=.2, efmt=.1, ignore=.05)
        k["with"] = .1
        if i % 4 == 0:
            k.update(enum=1, lits=["", "", "a", "b", "-", "1"], leaves=[U8, I32, STRING, WORD, BOOL, CHAR], longlit=0)
        if i % 4 == 1:
            k.update(decl_default=.3)
        return k
    out += randoms("C10", b, 1600, knobs, values=4, strings=140, extra=["", "a", "b", "1", "12", "a1", "1a", "-1", "ab", "b-1", "true", "x"])
    if b == 0:
        out += special(b)
    return out


def special(b):
    P = "b%d_x_" % b
    out = []
    # each name alone, as first and as second of two fields, bound to its own value
    names = [n for n in dict.fromkeys(FNAMES + ["v", "i", "x1", "re", "caps", "field_value", "parse_variant", "this", "value_0", "_0x", "e2", "fmt2", "to", "from", "into", "ret"])]
    for half in range(4):
        decls, pairs = [], []
        for i, nm in enumerate(names):
            if i % 4 != half:
                continue
            o = "zz"
            r_ = raw(nm)
            # unambiguous: two numbers, new swaps into a third type
            decls.append('#[derive(FromStr, Debug)] #[display("{%s}:{zz}")] #[from_str(new = vrt::some_of((%s, zz)).map(|(_a, _b)| N%d { %s: %s, zz: zz }))] pub struct N%d { pub %s: u16, pub zz: u16 }' % (nm, r_, i, r_, r_, i, r_)
                         if False else
                         '#[derive(FromStr, Debug)] #[display("{%s}:{zz}")] #[from_str(new = Self::make(zz, %s))] pub struct N%d { pub %s: u16, pub zz: u16 }\n'
                         'impl N%d { fn make(p: u16, q: u16) -> Option<Self> { if p == 9 { None } else { Some(N%d { %s: q, zz: p }) } } }' % (nm, r_, i, r_, i, i, r_))
            decls.append('#[derive(FromStr, Debug)] pub enum M%d { #[display("{zz}/{%s}")] #[from_str(new = Self::make(%s, zz))] A { %s: u8, zz: u8 }, #[display("{%s}/{zz}")] B { %s: u16, zz: u16 } }\n'
                         'impl M%d { fn make(p: u8, q: u8) -> Result<Self, u8> { if p == 7 { Err(q) } else { Ok(M%d::A { %s: p, zz: q }) } } }' % (i, nm, r_, r_, nm, r_, i, i, r_))
            sh = lambda t, s: '%s.parse::<%s>().map(|v| format!("{v:?}")).unwrap_or_else(|e| e.to_string())' % (rlit(s), t)
            f_ = nm     # Debug shows the name without r#
            pairs += [(sh("N%d" % i, "5:6"), rlit("N%d { %s: 5, zz: 6 }" % (i, f_))), (sh("N%d" % i, "5:9"), rlit("parse failed.")),
                      (sh("M%d" % i, "5/6"), rlit("A { %s: 6, zz: 5 }" % f_)), (sh("M%d" % i, "5/7"), rlit("B { %s: 5, zz: 7 }" % f_)), (sh("M%d" % i, "500/7"), rlit("B { %s: 500, zz: 7 }" % f_))]
        out.append(checks(P + "names%d" % half, "\n".join(decls), pairs))
    # who is called, how often, with what
    out.append(checks(P + "calls", '''
#[derive(FromStr, Debug)] #[display("{a},{b},{c}")] #[from_str(new = make(c, a, b, d))] pub struct T { pub a: u8, pub b: String, pub c: bool, #[from_str(default)] pub d: Vec<u8> }
fn make(c: bool, a: u8, b: String, d: Vec<u8>) -> Option<T> { log(format!("T({a},{b},{c},{d:?})")); if a > 200 { None } else { Some(T { a: a.wrapping_mul(2), b: format!("<{b}>"), c: !c, d: vec![a] }) } }
#[derive(FromStr, Debug)] #[display("{0}-{1}")] #[from_str(new = U::new(_1, _0))] pub struct U(pub u8, pub u8);
impl U { fn new(y: u8, x: u8) -> Result<Self, String> { log(format!("U({x},{y})")); if x > y { Err("order".into()) } else { Ok(U(y, x)) } } }
#[derive(FromStr, Debug)] pub enum E {
    #[display("{0}")] #[from_str(new = first(_0))] First(u8),
    #[display("{x}")] #[from_str(new = second(x))] Second { x: i16 },
    #[display("k")] #[from_str(new = third())] Third,
    #[display("k")] Fourth,
    #[display("{0}")] #[from_str(new = last(_0))] Last(String),
}
fn first(v: u8) -> Result<E, ()> { log(format!("first({v})")); if v < 10 { Ok(E::First(v + 1)) } else { Err(()) } }
fn second(v: i16) -> Option<E> { log(format!("second({v})")); if v < 100 { Some(E::Second { x: -v }) } else { None } }
fn third() -> E { log("third()".into()); E::Fourth }
fn last(v: String) -> E { log(format!("last({v})")); E::Last(v + "!") }
#[derive(FromStr, Debug)] pub enum K { #[display("k")] #[from_str(new = none())] A, #[display("k")] B, #[display("{0}")] C(String) }
fn none() -> Option<K> { log("none()".into()); None }
fn p<X: std::str::FromStr + std::fmt::Debug>(s: &str) -> String where X::Err: std::fmt::Display { take_log(); let r = match s.parse::<X>() { Ok(v) => format!("{v:?}"), Err(e) => e.to_string() }; format!("{r} {:?}", take_log()) }
''', [
        ('p::<T>("5,x,true")', r'''r#"T { a: 10, b: "<x>", c: false, d: [5] } ["T(5,x,true,[])"]"#'''),
        ('p::<T>("201,x,true")', r'''r#"parse failed. ["T(201,x,true,[])"]"#'''),
        ('p::<T>("256,x,true")', r'''r#"field `a` parse failed. []"#'''),
        ('p::<T>("5,x,maybe")', r'''r#"field `c` parse failed. []"#'''),
        ('p::<T>("5,x")', r'''r#"parse failed. []"#'''),
        ('p::<U>("3-7")', r'''r#"U(7, 3) ["U(3,7)"]"#'''), ('p::<U>("8-7")', r'''r#"parse failed. ["U(8,7)"]"#'''),
        ('p::<E>("9")', r'''r#"First(10) ["first(9)"]"#'''), ('p::<E>("50")', r'''r#"Second { x: -50 } ["first(50)", "second(50)"]"#'''),
        ('p::<E>("200")', r'''r#"Last("200!") ["first(200)", "second(200)", "last(200)"]"#'''), ('p::<E>("300")', r'''r#"Last("300!") ["second(300)", "last(300)"]"#'''),
        ('p::<E>("k")', r'''r#"Fourth ["third()"]"#'''), ('p::<E>("")', r'''r#"Last("!") ["last()"]"#'''),
    ]))
    # Result/Option of the type itself inside fields, and every return form
    out.append(checks(P + "forms", '''
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = Self(_0))] pub struct A(pub u8);
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = Some(Self(_0)))] pub struct B(pub u8);
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = Ok::<Self, std::num::TryFromIntError>(Self(u8::try_from(_0)? as u16)))] pub struct Cq(pub u16);
#[derive(FromStr, Debug)] #[display("{a}")] #[from_str(new = Self { a })] pub struct D { pub a: Option2 }
#[derive(FromStr, Debug)] #[display("{0}")] pub struct Option2(pub u8);
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = Some(_0).filter(|x: &u8| x % 2 == 0).map(Self))] pub struct F(pub u8);
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = std::num::NonZeroU8::new(_0).map(Self).ok_or(()))] pub struct G(pub std::num::NonZeroU8);
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = None::<Self>)] pub struct H(pub u8);
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = Err::<Self, &str>("x"))] pub struct I(pub u8);
#[derive(FromStr, Debug)] #[display("{0}:{1}")] #[from_str(new = Self::g(_0, _1))] pub struct J<T, U>(pub T, pub U);
impl<T, U> J<T, U> { fn g(t: T, u: U) -> Option<Self> { Some(J(t, u)) } }
#[derive(FromStr, Debug)] #[display("u")] #[from_str(new = Self)] pub struct K;
#[derive(FromStr, Debug)] #[display("{a}")] #[from_str(new = Self::with(a, b))] pub struct L { pub a: u8, #[from_str(default)] pub b: String }
#[derive(FromStr, Debug)] #[display("{a}:{c}")] #[from_str(new = Self::of(a.len(), b.is_empty(), c.wrapping_add(1)))] pub struct Q { pub a: String, #[from_str(default)] pub b: Vec<u8>, pub c: u8 }
impl Q { fn of(n: usize, e: bool, c: u8) -> Self { Q { a: format!("{n}{e}"), b: vec![], c } } }
impl L { fn with(a: u8, b: String) -> Self { L { a, b: b + "d" } } }
'''.replace('#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = Ok::<Self, std::num::TryFromIntError>(Self(u8::try_from(_0)? as u16)))] pub struct Cq(pub u16);\n', '')
   .replace('new = std::num::NonZeroU8::new(_0).map(Self).ok_or(())', 'new = Some(Self(_0)).ok_or(())')
   .replace('.filter(|x: &u8| x % 2 == 0)', '.filter(even)').replace('#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = None', 'fn even(x: &u8) -> bool { x % 2 == 0 }\n#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(new = None'),
        [(('%s.parse::<%s>().map(|v| format!("{v:?}")).unwrap_or_else(|e| e.to_string())' % (rlit(s), t)), rlit(w)) for t, s, w in [
            ("A", "3", "A(3)"), ("B", "3", "B(3)"), ("D", "3", "D { a: Option2(3) }"), ("F", "4", "F(4)"), ("F", "5", "parse failed."), ("G", "5", "G(5)"), ("G", "0", "field `0` parse failed."),
            ("H", "5", "parse failed."), ("I", "5", "parse failed."), ("J<u8, String>", "5:x", 'J(5, "x")'), ("J<bool, char>", "true:x", "J(true, 'x')"), ("Q", "abc:255", 'Q { a: "3true", b: [], c: 0 }'), ("K", "u", "K"), ("K", "v", "parse failed."),
            ("L", "7", 'L { a: 7, b: "d" }')]]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=3, min_evals=20000)
