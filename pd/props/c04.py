from corpora import *

RULE = ("A case is a random unambiguous declaration deriving both traits (distinct separators that the field texts cannot contain, "
        "distinct variant texts, nested derived types, nested paths, opt, with, field formats, escapes, multi-line text); an evaluation "
        "displays a random value and requires parsing to give an equal value. Non-trivial: distinct (case, value or text).")


def corpus(b):
    def knobs(rng, i):
        k = dict(roundtrip=1, depth=rng.choice([0, 1, 2]), derived=.25, nested=.15, opt=.2, fieldfmt=.25, style=.3, vstyle=.2, many=20)
        k["with"] = .15
        if i % 2:
            k.update(lines=1)
        if i % 5 == 0:
            k.update(opt=.6)
        if i % 5 == 1:
            k.update(nested=.6)
        if i % 5 == 2:
            k.update(infer=.4)
        if i % 5 == 3:
            k.update(enum=1)
        return k
    out = randoms("C04", b, 1500, knobs, values=64, strings=24, roundtrip=True)
    if b == 0:
        out += special(b)
    return out


def special(b):
    P = "b%d_x_" % b
    rt = lambda v: ('{ let v = %s; let t = v.to_string(); match t.parse::<T>() { Ok(w) if format!("{v:?}") == format!("{w:?}") => "same".to_string(), o => format!("{t:?} gives {o:?}") } }' % v, '"same"')
    out = []
    out.append(checks(P + "wrapped", '''
#[derive(Display, FromStr, Debug)] pub struct T(pub String);
''', [rt('T(%s.to_string())' % rlit(t)) for t in ["", "\n", "a\nb\r\n", "é🦀", "\0", " ", "{}", "{a}", "\u2028", "x" * 5000]]))
    out.append(checks(P + "anytext", '''
#[derive(Display, FromStr, Debug)] #[display("<{0}>")] pub struct T(pub String);
''', [rt('T(%s.to_string())' % rlit(t)) for t in ["", "\n", "<", ">", "<>", "><", "a>\n", "\n>", "\r", "é🦀\n\n", ">" * 3000]]))
    out.append(checks(P + "multi", r'''
#[derive(Display, FromStr, Debug)] #[display("line 1: {a}
line 2: {b}\r\n\tend {{{c}}}\0")] pub struct T { pub a: Word, pub b: i64, pub c: String }
''', [rt('T { a: Word("abc".into()), b: %d, c: %s.into() }' % (n, rlit(c))) for n in (0, -1, 2**63 - 1, -2**63) for c in ("", "}", "}}\0", "\n", "}\0}\0")]))
    out.append(checks(P + "generic", '''
#[derive(Display, FromStr, Debug)] #[display("{a}|{b}")] pub struct G<A, B> { pub a: A, pub b: B }
pub type T = G<G2<u8, char>, G2<bool, G2<i8, f64>>>;
#[derive(Display, FromStr, Debug)] #[display("({0};{1})")] pub struct G2<A, B>(pub A, pub B);
''', [rt('G { a: G2(%d, %s), b: G2(%s, G2(%d, %s)) }' % (x, rlit(c).replace('"', "'") if c != "'" else "'\\''", t, i, f))
      for x, c, t, i, f in [(0, "a", "true", -128, "1.5"), (255, ";", "false", 127, "f64::MIN_POSITIVE"), (7, "\n", "true", 0, "f64::INFINITY"), (1, ")", "false", -1, "-0.0")]]))
    # numbers: full ranges through every integer type and float
    for t in ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "f32", "f64", "char", "bool", "std::num::NonZero<i16>", "std::net::Ipv4Addr", "std::net::SocketAddr"]:
        arb = "Arb::arb(r)"
        if "Ipv4" in t:
            arb = "std::net::Ipv4Addr::from(u32::arb(r))"
        if "Socket" in t:
            arb = 'std::net::SocketAddr::from((std::net::Ipv6Addr::from(u128::arb(r)), u16::arb(r)))'
        nm = re.sub(r"\W", "_", t)
        out.append(Raw(P + "num_" + nm, '''
#[derive(Display, FromStr, Debug)] pub enum T { #[display("<{0}>")] A(%(t)s), #[display("{{{x}}}{}")] B { x: %(t)s }, C, #[display("[{0}][{1}]")] D(%(t)s, #[display(opt)] Option<%(t)s>) }
pub fn run(m: &mut Mon) {
    let mut rng = Rng::for_case(m.seed, "%(id)s"); let r = &mut rng;
    for i in 0..300 * m.scale {
        let v = match i %% 4 { 0 => T::A(%(a)s), 1 => T::B { x: %(a)s }, 2 => T::C, _ => T::D(%(a)s, if r.chance(1, 3) { None } else { Some(%(a)s) }) };
        let t = v.to_string(); let p = parsed::<T>(&t); let d = format!("{v:?}");
        m.check("%(id)s", &t, p == Ok(Ok(d.clone())), || format!("value {d}\\n  text {t:?}\\n  parsed {p:?}"));
    }
}''' % dict(t=t, a=arb, id=P + "num_" + nm)))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=20000)
