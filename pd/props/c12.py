from corpora import *
import rx

RULE = ("A case is a random declaration in which most fields have formatters (display(with), from_str(with), both in either order), with "
        "patterns that have alternations, groups, flags and random regexes, mixed with regex attributes, regex_infer at three levels, field "
        "formats, opt and plain fields; evaluations compare displayed text and parse results with the model, and in the event-log cases the "
        "multiset of calls every formatter received. Non-trivial: distinct (case, text or value).")


def corpus(b):
    out = []
    def knobs(rng, i):
        k = dict(opt=.2, depth=rng.choice([0, 0, 1]), infer=.2, regexattr=.2, fieldfmt=.3, many=12, efmt=.15, default=.05, derived=.1, style=.2)
        k["with"] = .85
        if i % 4 == 0:
            k.update(infer_all=.7)
        if i % 4 == 1:
            k.update(lits=["", "", "", "a", "-", "\n"], longlit=0)
        return k
    out += randoms("C12", b, 1300, knobs, values=16, strings=130)
    for i in range(500):
        out.append(patterns(rng_for("C12", b, "p", i), "b%d_p%d" % (b, i)))
    for i in range(250):
        out.append(logged(rng_for("C12", b, "l", i), "b%d_l%d" % (b, i)))
    # types that only display, their fields behind references and other pointers
    out += randoms("C12", b, 300, lambda rng, i: dict(display_only=1, ptr=.6, opt=.25, depth=rng.choice([0, 0, 1]), fieldfmt=.3, nested=.1, derived=.1, many=8, efmt=.15, style=.2, **{"with": .8}), tag="d", values=16)
    if b == 0:
        out += special(b)
    return out


def plain_regex(rng):
    s = rx.build(rng, []).src
    return s


def patterns(rng, id):
    """formatters with random patterns next to each other and to other fields"""
    shape = rng.choice(["named", "tuple"])
    n = rng.choice([1, 2, 2, 3, 4])
    fs = []
    for nm in uniq(rng, FNAMES, n) if shape == "named" else [None] * n:
        x = rng.random()
        if x < .7:
            p = plain_regex(rng)
            w = With("Pat(%s)" % rlit(p, rng), STRING, "(?:%s)" % p if "(?x" not in p else "(?:%s\n)" % p)
            f = Field(nm, STRING)
            if rng.random() < .5:
                f.dwith = w
            else:
                f.fwith = w
                if rng.random() < .4:
                    f.dwith = rng.choice([With("OnlyUp", STRING, None), With("Pat(\"never\")", STRING, None), GREEDY])
            if rng.random() < .2:
                f.regex = plain_regex(rng)
            if rng.random() < .15:
                f.infer = True
        else:
            f = Field(nm, rng.choice([U8, I32, WORD, BOOL, CHAR, STRING]))
            if rng.random() < .4 and f.ty.infer:
                f.infer = True
        if rng.random() < .2:
            f.ty, f.opt = option(f.ty), True
        if rng.random() < .35:
            f.fmt = [p for p in [rng.choice(LITS), Var(), rng.choice(LITS)] if p != ""]
        fs.append(f)
    order = list(range(n))
    rng.shuffle(order)
    fmt = [rng.choice(LITS)]
    for o in order:
        fmt += [Var([fs[o].key(o)]), rng.choice(LITS)]
    fmt = [p for p in fmt if p != ""]
    if rng.random() < .35:
        d = Decl("T", "enum", variants=[Variant("Aa"), Variant("V", fs, shape, fmt=fmt + ([Var()] if rng.random() < .3 else []))])
    else:
        d = Decl("T", "struct", fs, shape)
        if not (n == 1 and rng.random() < .3):
            d.fmt = fmt
    if any(f.dwith is not None and f.dwith.expr == "OnlyUp" and f.fwith is None for f in fs):
        d.display = False
    return make_case(id, [d], rng, values=8, strings=150)


def logged(rng, id):
    """every formatter writes down its calls"""
    shape = rng.choice(["named", "tuple"])
    n = rng.choice([1, 2, 3, 4, 6])
    names = uniq(rng, FNAMES, n) if shape == "named" else [None] * n
    seps = rng.sample(list(",;:/|#@!=<>"), n + 1)
    tys = [rng.choice(["u8", "Word", "bool", "i64", "String"]) for _ in range(n)]
    cfg = [rng.choice(["", "d", "d", "f", "df", "df", "fd", "dd", "do", "dfo"]) for _ in range(n)]
    cfg = ["" if t == "String" and False else c for c, t in zip(cfg, tys)]
    decl, wr, pr, arb = [], [], [], []
    for i in range(n):
        at = []
        D, F = 'with = Rec("D%d")' % i, 'with = Rec("F%d")' % i
        c = cfg[i]
        opt = c.endswith("o")
        c0 = c.rstrip("o")
        ff = '"%s{}"' % rng.choice(["", "x", "[", "1"]) if rng.random() < .3 and not opt else ""
        o = ["opt"] if opt else []
        if c0 == "d":
            at.append("#[display(%s)]" % ", ".join([x for x in [ff] if x] + rng.sample([D] + o, 1 + len(o))))
        elif c0 == "f":
            at.append("#[from_str(%s)]" % F)
            if ff:
                at.insert(rng.randrange(2), "#[display(%s)]" % ff)
        elif c0 in ("df", "fd"):
            at = ["#[display(%s)]" % ", ".join([x for x in [ff] if x] + [D] + o), "#[from_str(%s)]" % F]
            if c0 == "fd":
                at.reverse()
        elif c0 == "dd":
            # two attributes, format and formatter apart
            at = (["#[display(%s)]" % ff] if ff else []) + ["#[display(%s)]" % D]
            rng.shuffle(at)
        elif ff:
            at = ["#[display(%s)]" % ff]
        ty = "Option<%s>" % tys[i] if opt else tys[i]
        decl.append("%s pub %s%s" % (" ".join(at), raw(names[i]) + ": " if shape == "named" else "", ty))
        w = "D%d" % i if "d" in c0 else None
        p = "F%d" % i if "f" in c0 else w
        pre = ff[1:-3] if ff else ""
        wr.append((w, pre, opt))
        pr.append((p, pre, opt))
    order = list(range(n))
    rng.shuffle(order)
    key = lambda i: raw(names[i]) if shape == "named" else str(i)
    fmt = seps[n] + "".join("{%s}%s" % (key(i), seps[i]) for i in order)
    q, z = ("{", "}") if shape == "named" else ("(", ")")
    variant = rng.random() < .4
    body = "%s%s%s" % (q, ", ".join(d if not variant else d.replace(" pub ", " ") for d in decl), z)
    if variant:
        src = "#[derive(Display, FromStr, Debug, PartialEq)] pub enum T { A, #[display(%s)] V %s, #[display(\"zz{0}\")] Z(u8) }" % (rlit(fmt), body)
        ctor = "T::V"
    else:
        src = "#[derive(Display, FromStr, Debug, PartialEq)] #[display(%s)] pub struct T %s%s" % (rlit(fmt), body, "" if shape == "named" else ";")
        ctor = "T"
    o = [src, "pub fn run(m: &mut Mon) { let case = %s; let mut r = Rng::for_case(m.seed, case);" % rlit(id),
         "    for _ in 0..24 * m.scale {"]
    def val(i):
        t = tys[i]
        e = {"String": "Word::arb(&mut r).0", "u8": "u8::arb(&mut r)", "Word": "Word::arb(&mut r)", "bool": "bool::arb(&mut r)", "i64": "i64::arb(&mut r)"}[t]
        if cfg[i].endswith("o"):
            # None and the empty text look alike
            return "if bool::arb(&mut r) { None } else { Some(%s) }" % (e if t not in ("Word", "String") else ("Word(format!(\"w{}\", Word::arb(&mut r)))" if t == "Word" else "format!(\"w{}\", Word::arb(&mut r))"))
        return e
    for i in range(n):
        o.append("        let v%d: %s = %s;" % (i, "Option<%s>" % tys[i] if cfg[i].endswith("o") else tys[i], val(i)))
        o.append("        let t%d: Option<String> = %s;" % (i, "v%d.as_ref().map(|x| x.to_string())" % i if cfg[i].endswith("o") else "Some(v%d.to_string())" % i))
    o.append("        let mut want = String::from(%s); let mut wlog: Vec<String> = Vec::new(); let mut plog: Vec<String> = Vec::new();" % rlit(seps[n]))
    for i in order:
        w, pre, opt = wr[i]
        p = pr[i][0]
        o.append("        if let Some(t) = &t%d { want.push_str(%s); want.push_str(t); %s %s }" % (
            i, rlit(pre), 'wlog.push(format!("%s.write({t})"));' % w if w else "", 'plog.push(format!("%s.parse({t})"));' % p if p else ""))
        o.append("        want.push_str(%s);" % rlit(seps[i]))
    args = ", ".join("%sv%d" % (member(names[i]) + ": " if shape == "named" else "", i) for i in range(n))
    o.append("        let v = %s %s%s%s;" % (ctor, q, args, z))
    o.append("""        take_log();
        let got = guard(|| v.to_string()); let log = take_log();
        m.check(case, &want, got == Ok(want.clone()), || format!("value {v:?}\\n  displayed {got:?}\\n  declared {want:?}"));
        m.bin_n("formatter write calls", log.len() as u64);
        m.check(case, &format!("{want} writes"), log == wlog, || format!("value {v:?}\\n  write calls {log:?}\\n  declared {wlog:?}"));
        let back = guard(|| want.parse::<T>()); let mut log = take_log();
        m.check(case, &format!("{want} parse"), matches!(&back, Ok(Ok(x)) if *x == v), || format!("text {want:?}\\n  parsed {back:?}\\n  value {v:?}"));
        m.bin_n("formatter parse calls", log.len() as u64);
        log.sort(); plog.sort();
        m.check(case, &format!("{want} parses"), log == plog, || format!("text {want:?}\\n  parse calls {log:?}\\n  declared {plog:?}"));
    }
}""")
    return Raw(id, "\n".join(o))


def special(b):
    P = "b%d_x_" % b
    p = lambda t, s: '%s.parse::<%s>().map(|v| format!("{v:?}")).unwrap_or_else(|e| e.to_string())' % (rlit(s), t)
    out = []
    out.append(checks(P + "scope", '''
const fn mk(n: usize) -> Rep { Rep(n) }
struct P<'a>(&'a str);
impl<'a> parse_display::DisplayFormat<u8> for P<'a> { fn write(&self, f: &mut std::fmt::Formatter, v: &u8) -> std::fmt::Result { write!(f, "{}{v}", self.0) } }
impl<'a> parse_display::FromStrFormat<u8> for P<'a> { type Err = (); fn parse(&self, s: &str) -> Result<u8, ()> { s.strip_prefix(self.0).ok_or(())?.parse().map_err(|_| ()) } }
// expressions of every kind
#[derive(Display, FromStr, Debug)] #[display("{a} {b} {c} {d}")] pub struct A {
    #[display(with = mk(2))] pub a: u8, #[display(with = Rep(1 + 2))] pub b: u8, #[display(with = P("it's"))] pub c: u8, #[display(with = (Rep(1)))] pub d: u8 }
// the same value through two formatters, display only
#[derive(Display, Debug)] #[display("{a}|{a}")] pub struct B { #[display("<{}{}>", with = Rep(2))] pub a: u8 }
// the formatter works on the inner type; nothing else is formatted with it
#[derive(Display, FromStr, Debug)] #[display("{a},{b},{c}")] pub struct C { pub a: u32, #[display(with = Hex)] pub b: u32, pub c: u32 }
// precedence: from_str(with) for parsing, display(with) for writing
#[derive(Display, FromStr, Debug)] pub struct D(#[display(with = Hex)] #[from_str(with = Brk)] pub u32);
#[derive(Display, FromStr, Debug)] pub struct E(#[from_str(with = Hex)] pub u32);
// regex over formatter over inferred; the formatter still parses
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] pub struct F { #[display(with = Hex)] #[from_str(regex = "[0-9a-f]{2}")] pub a: u32, pub b: String }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] #[from_str(regex_infer)] pub struct G { #[display(with = YesNo)] pub a: bool, pub b: String }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] #[from_str(regex_infer)] pub struct G2 { #[from_str(regex = "tr|false")] pub a: String, pub b: bool }
// an alternation stays within its field, with and without field formats and opt
#[derive(Display, FromStr, Debug)] #[display("x{a}y{b}")] pub struct H { #[display(with = YesNo)] pub a: bool, #[display("({})", with = YesNo, opt)] pub b: Option<bool> }
#[derive(Display, FromStr, Debug)] pub enum I { #[display("{}{0}", style = "snake_case")] AbC(#[display(with = YesNo)] bool), #[display("{x}")] W { #[display(with = Grp)] x: u16 } }
// flags of a pattern stay within it
#[derive(Display, FromStr, Debug)] #[display("k{a}k{b}")] pub struct J { #[display(with = Flg)] pub a: Word, #[from_str(regex = "[a-z]*")] pub b: String }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}{c}")] pub struct K { #[display(with = Grp)] pub a: u16, #[display(with = Grp)] pub b: u16, #[display(with = Grp)] pub c: u16 }
''', [
        ('A { a: 1, b: 2, c: 3, d: 4 }', '"1_1 2_2_2 it\'s3 4"'), (p("A", "1_1 2_2_2 it's3 4"), '"A { a: 1, b: 2, c: 3, d: 4 }"'), (p("A", "1_1_1 2_2_2 it's3 4"), '"parse failed."'), (p("A", "1_1 2_2_2 3 4"), '"field `c` parse failed."'),
        ("B { a: 7 }", '"<7_77_7>|<7_77_7>"'),
        ("C { a: 10, b: 10, c: 10 }", '"10,a,10"'), (p("C", "10,a,10"), '"C { a: 10, b: 10, c: 10 }"'), (p("C", "a,10,10"), '"field `a` parse failed."'), (p("C", "10,g,10"), '"parse failed."'), (p("C", "10,fffffffff,10"), '"field `b` parse failed."'),
        ("D(255)", '"ff"'), (p("D", "<255>"), '"D(255)"'), (p("D", "ff"), '"parse failed."'), ("E(255)", '"255"'), (p("E", "ff"), '"E(255)"'), (p("E", "fF"), '"parse failed."'),
        (p("F", "fff"), '"F { a: 255, b: \\"f\\" }"'), (p("F", "f"), '"parse failed."'),
        (p("G", "yesno"), '"G { a: true, b: \\"no\\" }"'), (p("G", "true"), '"parse failed."'), (p("G2", "trtrue"), '"G2 { a: \\"tr\\", b: true }"'), (p("G2", "falsefalse"), '"G2 { a: \\"false\\", b: false }"'), (p("G2", "true"), '"parse failed."'),
        (p("H", "xyesy(no)"), '"H { a: true, b: Some(false) }"'), (p("H", "xnoy"), '"H { a: false, b: None }"'), (p("H", "xyes"), '"parse failed."'), (p("H", "xyesyno"), '"parse failed."'), (p("H", "no)"), '"parse failed."'),
        (p("I", "ab_cyes"), '"AbC(true)"'), (p("I", "ab_c"), '"parse failed."'), (p("I", "no"), '"parse failed."'), (p("I", "12k"), '"W { x: 12 }"'),
        (p("J", "kABka"), "\"J { a: Word(\\\"ab\\\"), b: \\\"a\\\" }\""), (p("J", "KABka"), '"parse failed."'), (p("J", "kABkA"), '"parse failed."'),
        (p("K", "1k2m3k"), '"K { a: 1, b: 2, c: 3 }"'), (p("K", "1k2m3"), '"parse failed."'), (p("K", "1k99999m3k"), '"field `b` parse failed."')]))
    out.append(checks(P + "types", '''
// formatters of unsized, generic, borrowed and non-Display values
#[derive(Debug, Clone, PartialEq)] pub struct Opaque(pub u8);
pub struct Op; impl parse_display::DisplayFormat<Opaque> for Op { fn write(&self, f: &mut std::fmt::Formatter, v: &Opaque) -> std::fmt::Result { write!(f, "op{}", v.0) } }
impl parse_display::FromStrFormat<Opaque> for Op { type Err = (); fn parse(&self, s: &str) -> Result<Opaque, ()> { s.strip_prefix("op").ok_or(())?.parse().map(Opaque).map_err(|_| ()) } fn regex_pattern(&self) -> String { "op[0-9]*".into() } }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] pub struct A { #[display(with = Op)] pub a: Opaque, #[display("-{}", with = Op, opt)] pub b: Option<Opaque> }
pub struct Len; impl<T> parse_display::DisplayFormat<Vec<T>> for Len { fn write(&self, f: &mut std::fmt::Formatter, v: &Vec<T>) -> std::fmt::Result { write!(f, "#{}", v.len()) } }
#[derive(Display)] #[display("{0}{1}")] pub struct B<T>(#[display(with = Len)] pub Vec<T>, pub u8);
#[derive(Display)] pub struct C<'a>(#[display(with = OnlyUp)] pub &'a str);
// formatters of an Option as such
pub struct OptF; impl parse_display::DisplayFormat<Option<u8>> for OptF { fn write(&self, f: &mut std::fmt::Formatter, v: &Option<u8>) -> std::fmt::Result { match v { Some(x) => write!(f, "some{x}"), None => write!(f, "none") } } }
impl parse_display::FromStrFormat<Option<u8>> for OptF { type Err = (); fn parse(&self, s: &str) -> Result<Option<u8>, ()> { if s == "none" { Ok(None) } else { s.strip_prefix("some").ok_or(())?.parse().map(Some).map_err(|_| ()) } } fn regex_pattern(&self) -> String { "some[0-9]*|none".into() } }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] pub struct O { #[display(with = OptF)] pub a: Option<u8>, #[from_str(with = OptF)] #[display("<{}>", with = OptF)] pub b: std::option::Option<u8> }
#[derive(Display, FromStr, Debug)] pub enum P { #[display("{}={x}")] V { #[display(with = OptF)] x: Option<u8> }, #[display("{0}")] W(#[display("[{}]", with = OptF, opt)] Option<Option<u8>>) }
// each text is read once, also where parts of the field are captured too
pub struct Cnt; thread_local! { static CALLS: std::cell::Cell<u32> = std::cell::Cell::new(0); }
#[derive(Debug, Clone, PartialEq, Default)] pub struct In2 { pub x: u8, pub y: Once } #[derive(Debug, Clone, PartialEq, Default)] pub struct Once(pub u8);
impl std::str::FromStr for Once { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { CALLS.with(|c| c.set(c.get() + 100)); s.parse().map(Once).map_err(|_| ()) } }
impl parse_display::FromStrFormat<In2> for Cnt { type Err = (); fn parse(&self, s: &str) -> Result<In2, ()> { CALLS.with(|c| c.set(c.get() + 1)); let (x, y) = s.split_once(',').ok_or(())?; Ok(In2 { x: x.parse().map_err(|_| ())?, y: Once(y.parse().map_err(|_| ())?) }) } }
fn calls<T>(f: impl FnOnce() -> T) -> (T, u32) { CALLS.with(|c| c.set(0)); let t = f(); (t, CALLS.with(|c| c.get())) }
#[derive(FromStr, Debug)] #[from_str(regex = "(?<a>[0-9]+,[0-9]+)(?:;(?<a.x>[0-9]+))(?:;(?<a.y>[0-9]+))")] pub struct R1 { #[from_str(with = Cnt)] pub a: In2 }
#[derive(FromStr, Debug)] #[from_str(regex = "(?<0>(?<0.x>[0-9]+),9*)")] pub struct R2(#[from_str(with = Cnt)] pub In2);
#[derive(FromStr, Debug)] #[display("{a};{a.y}")] pub enum R4 { V { #[display(with = Cnt)] a: In2 } }
#[derive(FromStr, Debug)] #[display("{a};{b}")] pub struct R5 { #[display("<{}>", with = Cnt, opt)] pub a: Option<In2>, #[display("-{}", opt)] pub b: Option<Once> }
pub struct NoStd; // neither Display nor anything else
pub struct Any; impl<T> parse_display::DisplayFormat<T> for Any { fn write(&self, f: &mut std::fmt::Formatter, _: &T) -> std::fmt::Result { f.write_str(std::any::type_name::<T>()) } }
#[derive(Display)] #[display("{a} {b}")] pub struct D { #[display(with = Any)] pub a: NoStd, #[display(with = Any, opt)] pub b: Option<i8> }
#[derive(Display)] pub enum E { #[display("{x}")] V { #[display(with = Any)] x: Option<u8> }, #[display("{}{0}")] W(#[display("<{}>", with = Any)] [u8; 3]) }
''', [("A { a: Opaque(1), b: Some(Opaque(2)) }", '"op1-op2"'), ("A { a: Opaque(1), b: None }", '"op1"'), (p("A", "op1-op2"), '"A { a: Opaque(1), b: Some(Opaque(2)) }"'), (p("A", "op1"), '"A { a: Opaque(1), b: None }"'), (p("A", "op1-"), '"parse failed."'), (p("A", "op"), '"field `a` parse failed."'), (p("A", "op1-op"), '"field `b` parse failed."'),
          ("B(vec![NoStd, NoStd], 3)", '"#23"'), ('C("aé")', '"AÉ"'), ("D { a: NoStd, b: Some(1) }", "format!(\"{} i8\", std::any::type_name::<NoStd>())"), ("D { a: NoStd, b: None }", "format!(\"{} \", std::any::type_name::<NoStd>())"),
          ("O { a: Some(1), b: None }", '"some1<none>"'), ("O { a: None, b: Some(7) }", '"none<some7>"'), (p("O", "some1<none>"), '"O { a: Some(1), b: None }"'), (p("O", "none<some7>"), '"O { a: None, b: Some(7) }"'), (p("O", "none<>"), '"parse failed."'), (p("O", "some<none>"), '"field `a` parse failed."'), (p("O", "none<some999>"), '"field `b` parse failed."'),
          ("P::V { x: None }", '"V=none"'), ("P::W(None)", '""'), ("P::W(Some(None))", '"[none]"'), (p("P", "V=some3"), '"V { x: Some(3) }"'), (p("P", ""), '"W(None)"'), (p("P", "[none]"), '"W(Some(None))"'), (p("P", "[some4]"), '"W(Some(Some(4)))"'), (p("P", "some4"), '"parse failed."'),
          *[("{ let (t, n) = calls(|| %s); format!(\"{t} {n}\") }" % p(t, x), '"%s"' % w) for t, x, w in [
              ("R1", "1,2;3;4", "R1 { a: In2 { x: 3, y: Once(4) } } 101"), ("R2", "7,9", "R2(In2 { x: 7, y: Once(9) }) 1"),
              ("R4", "1,2;3", "V { a: In2 { x: 1, y: Once(3) } } 101"), ("R5", "<1,2>;-5", "R5 { a: Some(In2 { x: 1, y: Once(2) }), b: Some(Once(5)) } 101"), ("R5", ";", "R5 { a: None, b: None } 0"), ("R5", "<1,2>;", "R5 { a: Some(In2 { x: 1, y: Once(2) }), b: None } 1")]],
          ("E::V { x: None }", "std::any::type_name::<Option<u8>>()"), ("E::W([1, 2, 3])", '"W<[u8; 3]>"')]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=3, min_evals=20000)
