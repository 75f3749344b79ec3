from corpora import *
import rx

RULE = ("A case is a random declaration in which most fields are opt (plain, with field formats, with custom formatters, regexes, inferred "
        "patterns, derived and nested inner types, adjacent to each other and to literals, in structs and variants); evaluations compare the "
        "displayed text with a plain writer that skips None, and the parse of sampled and mutated strings with a matcher that prefers absence; "
        "further cases go through all 2^k presence patterns of k opt fields. Non-trivial: distinct (case, text).")


def corpus(b):
    out = []
    def knobs(rng, i):
        k = dict(opt=.8, depth=rng.choice([0, 1]), derived=.25, fieldfmt=.3, infer=.25, regexattr=.2, many=14, style=.2, efmt=.15, default=.05)
        k["with"] = .25
        if i % 3 == 0:
            k.update(leaves=[U8, WORD, STRING, BOOL, CHAR, I32], lits=["", "", "a", "-", ",", "1", "\n", " "], longlit=0)
        if i % 5 == 1:
            k.update(derived=.6)
        return k
    out += randoms("C11", b, 1500, knobs, values=24, strings=150)
    out += randoms("C11", b, 500, dict(display_only=1, ptr=.3, opt=.8, nested=.3, fieldfmt=.3, derived=.3, efmt=.2, **{"with": .2}), tag="d", values=40)
    out += mixed(b, c02=(500, lambda c: "opt" in c.body), c12=(150, lambda c: "opt" in c.body), c08=(150, lambda c: "opt" in c.body))
    for i in range(300):
        out.append(subsets(rng_for("C11", b, "p", i), "b%d_p%d" % (b, i)))
    if b == 0:
        out += special(b)
    return out


def subsets(rng, id):
    """every presence pattern of k opt fields, unambiguous by construction: must come back"""
    k = rng.choice([1, 2, 3, 4, 5, 6])
    shape = rng.choice(["named", "tuple"])
    marks = rng.sample(list("@#%&~;:=^$*?|"), 13)
    fs, vals = [], []
    order = []
    for i, nm in enumerate(uniq(rng, FNAMES, k) if shape == "named" else [None] * k):
        t = rng.choice([U8, I32, WORD, BOOL, F64])
        f = Field(nm, option(t), opt=True)
        x = rng.random()
        m = marks[i]
        f.fmt = [m, Var()] if x < .4 else [m, Var(), m] if x < .7 else [m + m, Var(), "\n" + m]
        if rng.random() < .3:
            f.infer = t.infer is not None
        if rng.random() < .2:
            f.regex = {"u8": "[0-9]+", "i32": "-?[0-9]+", "Word": "[a-z]*", "bool": "true|false", "f64": "(?s:.)*"}[t.rust]
        if rng.random() < .2 and t is BOOL:
            f.dwith, f.infer, f.regex = YESNO, False, None
        fs.append(f)
    order = list(range(k))
    rng.shuffle(order)
    fmt = [rng.choice(["", "<"])]
    for j in order:
        fmt += [Var([fs[j].key(j)]), rng.choice(["", "", ",", "/", "."]) if not rng.random() < .5 else ""]
    fmt = [p for p in fmt if p != ""]
    if rng.random() < .5:
        d = Decl("T", "struct", fs, shape, fmt=fmt)
    else:
        d = Decl("T", "enum", variants=[Variant("V0"), Variant("V1", fs, shape, fmt=["+"] + fmt), Variant("V2", fmt=["!"])])
    # "." "," "/" between opt fields are distinct from every mark and from the texts except floats
    for j, f in enumerate(fs):
        if f.vty is F64:
            f.ty = option(I32)
            if f.regex:
                f.regex = "-?[0-9]+"
    return make_case(id, [d], rng, values=96, strings=100, roundtrip=True)


def special(b):
    P = "b%d_x_" % b
    show = lambda v: "(%s)" % v
    p = lambda t, s: '%s.parse::<%s>().map(|v| format!("{v:?}")).unwrap_or_else(|e| e.to_string())' % (rlit(s), t)
    out = []
    out.append(checks(P + "empty", '''
#[derive(Display, FromStr, Debug)] #[display("{a}")] pub struct A { #[display(opt)] pub a: Option<String> }
#[derive(Display, FromStr, Debug)] pub struct B(#[display("[{}]", opt)] pub Option<String>);
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] pub struct C { #[display(opt)] pub a: Option<u8>, #[display("x{}", opt)] pub b: Option<u8> }
#[derive(Display, FromStr, Debug)] #[display("{0}")] pub struct D(#[display("({})", opt)] pub Option<Option3>);
#[derive(Display, FromStr, Debug)] #[display("{0}")] pub struct Option3(#[display("<{}>", opt)] pub Option<u8>);
#[derive(Display, FromStr, Debug)] pub enum E { #[display("{}{0}")] V(#[display("={}", opt)] Option<i8>), #[display("{x}")] W { #[display(opt)] x: Option<bool> } }
#[derive(Display, FromStr, Debug)] #[display("{0}")] pub struct G<T>(#[display("g{}", opt)] pub Option<T>);
#[derive(Display, FromStr, Debug)] #[display("{a}")] pub struct H { #[display(opt)] pub a: std::option::Option<u8> }
#[derive(Display, FromStr, Debug)] #[display("{a}")] pub struct I { #[display(opt)] #[from_str(regex = "[0-9]{2}")] pub a: core::option::Option<u8> }
''', [
        ("A { a: None }", '""'), ("A { a: Some(String::new()) }", '""'), ("A { a: Some(\"z\".into()) }", '"z"'),
        ("B(None)", '""'), ("B(Some(String::new()))", '"[]"'), ("C { a: None, b: None }", '""'), ("C { a: Some(1), b: None }", '"1"'), ("C { a: None, b: Some(2) }", '"x2"'), ("C { a: Some(1), b: Some(2) }", '"1x2"'),
        ("D(None)", '""'), ("D(Some(Option3(None)))", '"()"'), ("D(Some(Option3(Some(5))))", '"(<5>)"'),
        ("E::V(None)", '"V"'), ("E::V(Some(-1))", '"V=-1"'), ("E::W { x: None }", '""'), ("E::W { x: Some(true) }", '"true"'), ("G(Some(3u8))", '"g3"'), ("G::<u8>(None)", '""'),
        ("H { a: Some(4) }", '"4"'),
        (p("A", ""), '"A { a: None }"'), (p("A", "z\n"), r'''r#"A { a: Some("z\n") }"#'''), (p("B", ""), '"B(None)"'), (p("B", "[]"), r'''r#"B(Some(""))"#'''), (p("B", "["), '"parse failed."'), (p("B", "[]x"), '"parse failed."'),
        (p("C", "1x2"), '"C { a: Some(1), b: Some(2) }"'), (p("C", "x2"), '"C { a: None, b: Some(2) }"'), (p("C", "1"), '"C { a: Some(1), b: None }"'), (p("C", ""), '"C { a: None, b: None }"'), (p("C", "x"), '"field `b` parse failed."'), (p("C", "300"), '"field `a` parse failed."'),
        (p("D", ""), '"D(None)"'), (p("D", "()"), '"D(Some(Option3(None)))"'), (p("D", "(<5>)"), '"D(Some(Option3(Some(5))))"'), (p("D", "(<500>)"), '"field `0` parse failed."'), (p("D", "("), '"parse failed."'),
        (p("E", "V"), '"V(None)"'), (p("E", "V=3"), '"V(Some(3))"'), (p("E", "V=300"), '"parse failed."'), (p("E", ""), '"W { x: None }"'), (p("E", "false"), '"W { x: Some(false) }"'),
        (p("G<char>", "gx"), "\"G(Some('x'))\""), (p("G<char>", ""), '"G(None)"'), (p("G<char>", "gxx"), '"field `0` parse failed."'),
        (p("H", "9"), '"H { a: Some(9) }"'), (p("I", "99"), '"I { a: Some(99) }"'), (p("I", ""), '"I { a: None }"'), (p("I", "9"), '"parse failed."')]))
    out.append(checks(P + "noshow", '''
// the inner value is never touched when there is none
pub struct Loud; thread_local! { static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
impl std::fmt::Display for Loud { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { N.with(|n| n.set(n.get() + 1)); f.write_str("L") } }
#[derive(Display)] #[display("{a}{b}{a}")] pub struct T { #[display("<{}{}>", opt)] pub a: Option<Loud>, #[display(opt)] pub b: Option<Loud> }
fn t(v: T) -> String { N.with(|n| n.set(0)); let s = v.to_string(); format!("{s} {}", N.with(|n| n.get())) }
''', [("t(T { a: None, b: None })", '" 0"'), ("t(T { a: Some(Loud), b: None })", '"<LL><LL> 4"'), ("t(T { a: None, b: Some(Loud) })", '"L 1"'), ("t(T { a: Some(Loud), b: Some(Loud) })", '"<LL>L<LL> 5"')]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=20000)
