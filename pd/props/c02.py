from corpora import *

RULE = ("A case is a declaration whose placeholders carry random parameter strings (fill, alignment, sign, #, 0, width, precision, "
        "trait); an evaluation compares to_string() with std's write! of the same parameters on the same value and counts the "
        "formatter calls a recording field type saw. Non-trivial: distinct (case, text).")

FILLS = list(" *0-+#x<>^.:$_?éß日🦀'\"\\/|[]()!%&~@=;,`") + ["\u00a0", "\n", "\t", "\u0301", "e", "b", "p", "X", "1", "9", "\0"]
TRAITS = ["", "?", "x?", "X?", "o", "x", "X", "p", "b", "e", "E"]
TY = {t: Ty(t, t) for t in ("Probe", "Num")}
PROBE, NUM = TY["Probe"], TY["Num"]
OKFOR = {"Probe": TRAITS, "Num": [t for t in TRAITS if t != "p"], "u8": [t for t in TRAITS if t != "p"], "i64": [t for t in TRAITS if t != "p"],
         "u128": [t for t in TRAITS if t not in ("p",)],
         "f64": ["", "?", "e", "E"], "f32": ["", "?", "e", "E", "x?"], "bool": ["", "?"], "char": ["", "?"], "String": ["", "?", "x?"],
         "&'static str": ["", "?"], "Box<u32>": ["", "?", "p"], "Vec<u8>": ["?", "x?", "X?"],
         "Option<u8>": ["?", "X?"], "()": ["?"], "(u8, Num)": ["?", "x?"]}
TYS = {"Probe": PROBE, "Num": NUM, "u8": U8, "i64": I64, "u128": U128, "f64": F64, "f32": F32, "bool": BOOL, "char": CHAR, "String": STRING}


def ty(name):
    return TYS.get(name) or Ty(name, name)


def spec(rng, trait, want=None):
    """a random parameter string; want forces some parts"""
    o = ""
    x = rng.random()
    if x < 0.35:
        o += rng.choice(FILLS) + rng.choice("<>^")
    elif x < 0.6:
        o += rng.choice("<>^")
    if rng.random() < 0.25:
        o += rng.choice("+-")
    if rng.random() < 0.3:
        o += "#"
    if rng.random() < 0.25:
        o += "0"
    if rng.random() < 0.6:
        o += rng.choice(["1", "2", "5", "8", "12", "31", "40", "300", "7"])
    if rng.random() < 0.4:
        o += "." + rng.choice(["0", "1", "2", "3", "10", "17", "40"])
    return o + trait


def pick(rng, name=None):
    name = name or rng.choice(["Probe"] * 6 + list(OKFOR))
    return name, spec(rng, rng.choice(OKFOR[name]))


def spec_field(rng, nm, kind):
    """a field and the placeholder that shows it"""
    x = rng.random()
    key = None
    if x < 0.5:                                            # plain
        name, sp = pick(rng)
        return Field(nm, ty(name)), sp
    if x < 0.7:                                            # through the field's own format
        name, sp = pick(rng)
        f = Field(nm, ty(name), fmt=[rng.choice(["", "<", "{"]), Var("", spec=sp), rng.choice(["", ">", "}"])])
        if rng.random() < .3:
            f.fmt.append(Var("", spec=spec(rng, rng.choice(OKFOR[name]))))
        f.fmt = [p for p in f.fmt if p != ""]
        return f, ""
    if x < 0.8:                                            # opt, parameters on either side
        name = rng.choice(["Probe", "Num", "u8", "String", "f64"])
        if rng.random() < .5:
            f = Field(nm, option(ty(name)), opt=True)
            return f, spec(rng, "")
        return Field(nm, option(ty(name)), opt=True, fmt=["(", Var("", spec=spec(rng, rng.choice(OKFOR[name]))), ")"]), ""
    if x < 0.9:                                            # with
        w = rng.choice([HEX, PLUS1, YESNO, BRK(PROBE), ANYP(PROBE), ANYP(NUM), REP3])
        if rng.random() < .5:
            return Field(nm, w.ty, dwith=w), spec(rng, "")
        return Field(nm, w.ty, dwith=w, fmt=["[", Var("", spec=spec(rng, "")), "]"]), ""
    return Field(nm, rng.choice([Ty("PNest", "s"), Ty("PTup", "s")])), None     # nested


NPATH = {"PNest": [["p"], ["n"], ["type"], ["t", "0"], ["t", "1", "0"]], "PTup": [["0"], ["1", "0"]]}
NTY = {("PNest", "p"): "Probe", ("PNest", "n"): "Num", ("PNest", "type"): "Probe", ("PNest", "t.0"): "Probe", ("PNest", "t.1.0"): "Num",
       ("PTup", "0"): "Probe", ("PTup", "1.0"): "Num"}
NEST = '''
#[derive(Clone, Debug, PartialEq, Default)] pub struct PTup(pub Probe, pub (Num,));
#[derive(Clone, Debug, PartialEq, Default)] pub struct PNest { pub p: Probe, pub n: Num, pub r#type: Probe, pub t: PTup }
impl Arb for PTup { fn arb(r: &mut Rng) -> Self { PTup(Arb::arb(r), (Arb::arb(r),)) } }
impl Arb for PNest { fn arb(r: &mut Rng) -> Self { PNest { p: Arb::arb(r), n: Arb::arb(r), r#type: Arb::arb(r), t: Arb::arb(r) } } }
'''


def unit(rng, u, variant):
    shape = rng.choice(["named", "tuple"])
    n = rng.choice([1, 1, 2, 3, 5])
    names = uniq(rng, FNAMES, n) if shape == "named" else [None] * n
    parts = []
    for i, nm in enumerate(names):
        f, sp = spec_field(rng, nm, shape)
        u.fields.append(f)
        k = f.key(i)
        if sp is None:
            p = rng.choice(NPATH[f.ty.rust])
            t = NTY[f.ty.rust, ".".join(p)]
            s = spec(rng, rng.choice(OKFOR[t]))
            if rng.random() < .4:
                f.fmt = ["<", Var(p, spec=s), ">"]
                parts.append(Var([k]))
            else:
                parts.append(Var([k] + p, spec=s))
        else:
            for _ in range(rng.choice([1, 1, 1, 2])):
                parts.append(Var([k], spec=sp, rawtext=raw(k) if rng.random() < .5 and not k.isdigit() else None))
                if f.fmt is None and f.dwith is None and not f.opt:
                    sp = spec(rng, rng.choice(OKFOR[f.ty.rust]))
        parts.append(rng.choice(["", "|", " ", ",", "{", "}"]))
    if variant and rng.random() < .6:
        parts.insert(0, Var("", spec=rng.choice([spec(rng, ""), ""])))
    if rng.random() < .3:
        parts.append(Var("", spec=spec(rng, rng.choice(["?", "x?", "X?"]))))
    u.shape = shape
    u.fmt = [p for p in parts if p != ""]


def corpus(b):
    out = []
    for i in range(2500):
        rng = rng_for("C02", b, "r", i)
        if rng.random() < .5:
            d = Decl("T", "struct")
            unit(rng, d, False)
        else:
            d = Decl("T", "enum", style=rng.choice([None, "UPPERCASE", "kebab-case"]))
            for nm in uniq(rng, VNAMES, rng.choice([1, 2, 3])):
                v = Variant(nm)
                unit(rng, v, True)
                d.variants.append(v)
            if rng.random() < .3:
                d.fmt = [rng.choice(["", "e:"]), Var("", spec=spec(rng, rng.choice(["", "", "?"])))]
                d.fmt = [p for p in d.fmt if p != ""]
                d.variants.append(Variant("Unit0"))
        d.from_str = False
        c = make_case("b%d_r%d" % (b, i), [d], rng, values=12)
        c.body = NEST + c.body if "PNest" in c.body or "PTup" in c.body else c.body
        out.append(c)
    # every parameter alone and in pairs, on a recording field, in each position
    rng = rng_for("C02", b, "sys")
    specs = []
    for tr in TRAITS:
        for al in ["", "<", ">", "^", "*<", "_>", "é^", "<<", ">>", "^^", "0<", "#>", "+^"]:
            for fl in ["", "+", "-", "#", "0", "+#0", "-#", "#0"]:
                specs.append(al + fl + rng.choice(["", "5", "12", "1.3", ".2", "20.0"]) + tr)
    for fill in FILLS:
        for a in "<>^":
            specs.append(fill + a + rng.choice(["", "8", "6.1"]) + rng.choice(TRAITS))
    specs += ["0", "00", "01", "1", "10", "100", ".0", ".10", "0.0", "#", "+", "-", "?", "#?", "#x?", "#X?", "05x?", "+05.1e", "#010b", "1000", "-1", "+1", "00005"]
    rng.shuffle(specs)
    for j in range(0, len(specs), 12):
        chunk = specs[j:j + 12]
        vs = []
        for q, s in enumerate(chunk):
            vs.append(Variant("A%d" % q, [Field(None, PROBE)], "tuple", fmt=[Var("0", spec=s)]))
            vs.append(Variant("B%d" % q, [Field("x", PROBE, fmt=[Var("", spec=s), "-", Var("", spec=s)])], "named", fmt=[Var("x")]))
            vs.append(Variant("C%d" % q, [Field("x", option(PROBE), opt=True, fmt=[Var("", spec=s)])], "named", fmt=[Var("x"), Var("x")]))
            if spec_trait(s) == "" or s == "":
                vs.append(Variant("D%d" % q, fmt=[Var("", spec=s)]))
                vs.append(Variant("E%d" % q, [Field("x", option(PROBE), opt=True)], "named", fmt=[Var("x", spec=s)]))
        d = Decl("T", "enum", variants=vs)
        d.from_str = False
        out.append(make_case("b%d_s%d" % (b, j), [d], rng, values=len(vs) * 8))
    P = "b%d_x_" % b
    out.append(checks(P + "pointers", '''
#[derive(Display)] #[display("{a:p} {b:p} {c:#p} {b:24p}|")] pub struct T<'a> { pub a: *const u8, pub b: &'a str, pub c: Box<u8> }
#[derive(Display)] pub enum E<'a> { #[display("{}={0:p}")] A(&'a u8), #[display("{x}")] B { #[display("{:p}")] x: &'a u8 } , #[display("{0}")] C(#[display("<{:p}>", opt)] Option<&'a u8>) }
#[derive(Display)] #[display("{0}")] pub struct W<'a>(#[display("{:>30p}")] pub &'a i32);
static X: u8 = 7; static Y: i32 = 8;
''', [
        ('{ let c = Box::new(3u8); let p = format!("{:p} {:p} {:#p} {:24p}|", 8 as *const u8, "xyz", c, "xyz"); let t = T { a: 8 as *const u8, b: "xyz", c }; let s = t.to_string(); assert!(s == p, "{s} {p}"); "ok" }', '"ok"'),
        ('E::A(&X)', 'format!("A={:p}", &X)'), ('E::B { x: &X }', 'format!("{:p}", &X)'), ('E::C(Some(&X))', 'format!("<{:p}>", &X)'), ('E::C(None)', '""'),
        ('W(&Y)', 'format!("{:>30p}", &Y)')]))
    out.append(checks(P + "selfvalue", '''
#[derive(Debug)] pub struct In(pub u8);
#[derive(Display, Debug)] #[display("{:?}")] pub struct A { pub x: u8, pub y: In }
#[derive(Display, Debug)] #[display("{:#?}|{x}")] pub struct B { pub x: u8 }
#[derive(Display, Debug)] #[display("{:?}")] pub enum E { V, W(u8), #[display("{:#?}/{}")] Z { a: u8 } }
#[derive(Display)] #[display("{:x}:{:#b}:{:o}:{:08X}:{:e}:{:E}")] pub struct H(pub u32);
impl std::fmt::LowerHex for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::LowerHex::fmt(&self.0, f) } }
impl std::fmt::UpperHex for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::UpperHex::fmt(&self.0, f) } }
impl std::fmt::Binary for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Binary::fmt(&self.0, f) } }
impl std::fmt::Octal for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Octal::fmt(&self.0, f) } }
impl std::fmt::LowerExp for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::LowerExp::fmt(&self.0, f) } }
impl std::fmt::UpperExp for H { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::UpperExp::fmt(&self.0, f) } }
#[derive(Display)] #[display("{0:5}|{1:<+8.2}|{0:^05}")] pub struct G<T, U>(pub T, pub U);
''', [
        ('A { x: 1, y: In(2) }', '"A { x: 1, y: In(2) }"'), ('B { x: 1 }', '"B {\\n    x: 1,\\n}|1"'), ('E::V', '"V"'), ('E::W(3)', '"W(3)"'), ('E::Z { a: 1 }', '"Z {\\n    a: 1,\\n}/Z"'),
        ('H(77)', 'format!("{0:x}:{0:#b}:{0:o}:{0:08X}:{0:e}:{0:E}", 77)'), ('G(3, 1.239)', '"    3|+1.24   |00003"'), ('G("ab", "é")', '"ab   |é       | ab  "')]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=10000)
