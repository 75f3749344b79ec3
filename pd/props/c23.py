from corpora import *

RULE = ("Formats of parse-display-with over random item types, collections, delimiters (single, long, overlapping themselves, Unicode, regex and "
        "format look-alikes, occurring in the items) and nestings, next to formats written by hand that collect the item texts and cut strings byte "
        "by byte; an evaluation writes one list, writes it into a writer failing at a position, or parses one text (displayed lists, and texts made of "
        "items, delimiters, parts of delimiters and other text). Further cases use the formats through display(with) and from_str(with) next to other "
        "fields. Non-trivial: distinct (case, list or text) longer than one character.")
DELIMS = [",", ", ", ";", "::", "aa", "aba", "abab", "é", "🦀", "\n", "\r\n", ".", "|", "[0-9]", "\\d", "{}", "{0}", " ", "  ", "a", "0", "-", "--", "<", ">", "\0",
          "$", "^", "(?:", ".*", "\t", "日本", "\u0301", "->", "=" * 40, "aab", ">,<", "1", "+", "e", "true", "\\", "\"", "'", "//", "%s", "ß", "\u2028"]
ITEMS = [("u8", True), ("i32", True), ("bool", True), ("char", True), ("Word", True), ("String", True), ("f32", False), ("u64", True), ("std::num::NonZero<u8>", True), ("i8", True), ("u128", True)]
SEQS = ["Vec<%s>", "Vec<%s>", "std::collections::VecDeque<%s>", "std::collections::LinkedList<%s>", "Box<[%s]>"]


def delim(rng):
    if rng.random() < .75:
        return rng.choice(DELIMS)
    while True:
        d = "".join(rng.choice(LITS[2:]) for _ in range(rng.choice([1, 1, 2, 3])))
        if d:
            return d


def item_format(rng, ty):
    """(library expression, model expression, error type)"""
    x = rng.random()
    if x < .55:
        return "fmt()", "MFmt"
    if x < .8:
        return "Brk2", "MBrk"
    return "MBrk", "MBrk"


def lib(rng, id):
    ty, ord_ = rng.choice(ITEMS)
    item = ty
    L, M = item_format(rng, ty)
    used = []
    depth = rng.choice([1, 1, 1, 2, 2, 3])
    t = ty
    for lvl in range(depth):
        d = delim(rng)
        used.append(d)
        if L == "fmt()" and rng.random() < .7:
            L = "delimiter(%s)" % rlit(d, rng)
        else:
            L = "join(%s, %s)" % (L, rlit(d, rng))
        M = "mjoin(%s, %s)" % (M, rlit(d))
        seq = rng.choice(SEQS + (["std::collections::BTreeSet<%s>"] if ord_ and "Box" not in t else []))
        t = seq % t
    seqtext = ""
    n = rng.choice([12, 20, 30])
    src = '''use parse_display_with::formats::*;
%s
pub fn run(m: &mut Mon) {
    fn item(r: &mut Rng) -> String { let x = <%s as Arb>::arb(r).to_string(); match r.below(5) { 0 => format!("<{x}>"), 1 => format!(" {x}"), _ => x } }
    lists::<%s, _, _, _>(m, %s, %s, %s, &[%s], item, %d, %d);
}''' % (BRK2, item, t, rlit(id), L.replace("Brk2", "BRK2" if 0 else "Brk2"), M, ", ".join(rlit(d) for d in used), n, n * 3)
    return Raw(id, src)


BRK2 = '''// closures on both sides of one format
pub struct Brk2;
impl<T: std::fmt::Display> parse_display::DisplayFormat<T> for Brk2 { fn write(&self, f: &mut std::fmt::Formatter, v: &T) -> std::fmt::Result { fmt_display(brk_write::<T>).write(f, v) } }
impl<T: std::str::FromStr> parse_display::FromStrFormat<T> for Brk2 { type Err = String; fn parse(&self, s: &str) -> Result<T, String> { fmt_from_str(brk_parse::<T>).parse(s) } }'''


def wr(rng, id):
    """collections that can only be written"""
    ty, _ = rng.choice(ITEMS)
    t = rng.choice(["[%s; 0]", "[%s; 1]", "[%s; 5]", "Option<%s>", "[[%s; 2]; 3]", "[Vec<%s>; 2]", "Option<[%s; 2]>", "Vec<[%s; 3]>", "[Option<%s>; 3]", "Vec<Option<%s>>"]) % ty
    d, e = delim(rng), delim(rng)
    nested = t.count("[") + t.count("Option<") + t.count("Vec<") > 1
    k = rng.random()
    if nested:
        L, M = "join(delimiter(%s), %s)" % (rlit(e), rlit(d)), "mjoin(mjoin(MFmt, %s), %s)" % (rlit(e), rlit(d))
    elif k < .5:
        L, M = "delimiter(%s)" % rlit(d), "mjoin(MFmt, %s)" % rlit(d)
    elif k < .75:
        L, M = "join(fmt_display(brk_write::<%s>), %s)" % (ty, rlit(d)), "mjoin(MBrk, %s)" % rlit(d)
    else:
        L, M = "join(fmt_display(|f: &mut std::fmt::Formatter, v: &%s| { let n = %s.len(); write!(f, \"{v:?}{n}\") }), %s)" % (ty, rlit(e), rlit(d)), "mjoin(fmt_display(|f: &mut std::fmt::Formatter, v: &%s| f.write_str(&format!(\"{v:?}{}\", %s.len()))), %s)" % (ty, rlit(e), rlit(d))
        M = M.replace("fmt_display(", "By(")
    src = '''use parse_display_with::formats::*;
pub struct By<F>(F);
fn By_<F>(f: F) -> By<F> { By(f) }
impl<T, F: Fn(&mut std::fmt::Formatter, &T) -> std::fmt::Result> parse_display::DisplayFormat<T> for By<F> { fn write(&self, f: &mut std::fmt::Formatter, v: &T) -> std::fmt::Result { (self.0)(f, v) } }
pub fn run(m: &mut Mon) {
    let mut r = Rng::for_case(m.seed, %s);
    writes::<%s, _, _>(m, %s, &%s, &%s, &mut r, 24);
}''' % (rlit(id), t, rlit(id), L, M)
    return Raw(id, src)


def withs(rng, seps):
    """a list format as a With, with a sampler"""
    ty, samp = rng.choice([("u8", "[0-9]{1,3}"), ("i32", "-?[0-9]{1,4}"), ("bool", "(?:true|false|x)"), ("Word", "[a-z]{0,3}"), ("char", "[a-z,;]"), ("String", "[a-z ,.]{0,3}")])
    L, M = "fmt()", "MFmt"
    if rng.random() < .3:
        L = M = "MBrk"
        samp = "<%s>" % samp
    t = ty
    for _ in range(rng.choice([1, 1, 1, 2])):
        d = delim(rng)
        if len(d) > 20:
            d = ","
        L = "delimiter(%s)" % rlit(d, rng) if L == "fmt()" and rng.random() < .7 else "join(%s, %s)" % (L, rlit(d, rng))
        M = "mjoin(%s, %s)" % (M, rlit(d))
        t = rng.choice(["Vec<%s>", "std::collections::VecDeque<%s>", "std::collections::LinkedList<%s>", "Vec<%s>"]) % t
        samp = "(?:%s(?:%s%s){0,3})" % (samp, resc(d), samp)
    return With(L, Ty(t, "s", None), None, sample=samp, mexpr=M)


def derived(rng, id):
    shape = rng.choice(["named", "tuple"])
    n = rng.choice([1, 1, 2, 2, 3, 4])
    fs = []
    for nm in uniq(rng, FNAMES, n) if shape == "named" else [None] * n:
        if rng.random() < .7:
            w = withs(rng, None)
            f = Field(nm, w.ty)
            x = rng.random()
            if x < .7:
                f.dwith = w
            elif x < .85:
                f.dwith, f.fwith = w, w
            else:
                f.dwith = w
                w2 = withs(rng, None)
                while w2.ty.rust != w.ty.rust:
                    w2 = withs(rng, None)
                f.fwith = w2
            if rng.random() < .15:
                f.regex = f.dwith.sample
        else:
            f = Field(nm, rng.choice([U8, I32, WORD, BOOL, STRING]))
        if rng.random() < .2:
            f.ty, f.opt = option(f.ty), True
        if rng.random() < .35:
            f.fmt = [p for p in [rng.choice(LITS), Var(), rng.choice(LITS)] if p != ""]
        fs.append(f)
    order = list(range(n))
    rng.shuffle(order)
    fmt = [rng.choice(LITS)]
    for o in order:
        fmt += [Var([fs[o].key(o)]), rng.choice(SEPS) if rng.random() < .8 else rng.choice(LITS)]
    fmt = [p for p in fmt if p != ""]
    if rng.random() < .35:
        d = Decl("T", "enum", variants=[Variant("Aa"), Variant("V", fs, shape, fmt=fmt + ([Var()] if rng.random() < .3 else []))])
    else:
        d = Decl("T", "struct", fs, shape)
        if not (n == 1 and rng.random() < .4):
            d.fmt = fmt
    c = make_case(id, [d], rng, values=10, strings=90)
    c.modpre = MODPRE + "    use parse_display_with::formats::*;\n"
    return c


def corpus(b):
    out = [lib(rng_for("C23", b, "l", i), "b%d_l%d" % (b, i)) for i in range(420)]
    out += [wr(rng_for("C23", b, "w", i), "b%d_w%d" % (b, i)) for i in range(120)]
    out += [derived(rng_for("C23", b, "d", i), "b%d_d%d" % (b, i)) for i in range(420)]
    if b == 0:
        out += special(b)
    return out


def special(b):
    P = "b%d_x_" % b
    p = lambda t, s: '%s.parse::<%s>().map(|v| format!("{v:?}")).unwrap_or_else(|e| e.to_string())' % (rlit(s), t)
    out = [checks(P + "derive", '''
use parse_display_with::formats::*; use std::collections::*;
#[derive(Display, FromStr, Debug)] pub struct A(#[display(with = delimiter(", "))] pub Vec<u32>);
#[derive(Display, FromStr, Debug)] #[display("[{a}] {b}")] pub struct B { #[display(with = delimiter("|"))] pub a: Vec<String>, pub b: String }
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] pub struct C { #[display("({})", with = delimiter(","), opt)] pub a: Option<Vec<u8>>, #[display("<{}>", with = join(delimiter("-"), "/"))] pub b: VecDeque<Vec<i8>> }
#[derive(Display, FromStr, Debug)] pub enum E { #[display("{}={0}")] Aa(#[display(with = join(fmt(), ":"))] LinkedList<bool>), #[display("{x}!")] B { #[display(with = delimiter("+"))] x: BTreeSet<char> }, #[display("n{0}")] N(u8) }
#[derive(Display)] #[display("{a};{b};{c}")] pub struct D<'a> { #[display(with = delimiter("."))] pub a: &'a [u8], #[display(with = delimiter(""))] pub b: [char; 3], #[display(with = delimiter("x"))] pub c: Option<i8> }
pub struct NoDisp(u8);
#[derive(Display)] pub struct G<T>(#[display(with = Len)] pub Vec<T>);
pub struct Len; impl<T> parse_display::DisplayFormat<Vec<T>> for Len { fn write(&self, f: &mut std::fmt::Formatter, v: &Vec<T>) -> std::fmt::Result { write!(f, "{}", v.len()) } }
#[derive(Display, FromStr, Debug)] pub struct H<T: std::fmt::Display + std::str::FromStr>(#[display(with = delimiter(","))] pub Vec<T>);
#[derive(Display, FromStr, Debug)] pub struct I(#[display(with = join(fmt(), ","))] #[from_str(with = join(fmt(), ";"))] pub Vec<u8>);
#[derive(FromStr, Debug)] pub struct J(#[from_str(with = delimiter(","))] pub HashSet<u8>);
#[derive(FromStr, Debug)] pub struct K(#[from_str(with = delimiter::<char>("-"))] pub String);
fn mk<'a>(n: usize) -> Join<'a, u8> { delimiter(&"abc"[..n]) }
#[derive(Display, FromStr, Debug)] #[display("{a}|{b}")] pub struct L { #[display(with = mk(1))] pub a: Vec<u8>, #[display(with = mk(3))] pub b: Vec<u8> }
#[derive(Display, FromStr, Debug)] #[display("{0}")] pub struct M(#[display(with = delimiter("\\n"))] pub Vec<A>);
#[derive(Display, FromStr, Debug)] #[display("{a}{b}")] #[from_str(regex_infer)] pub struct N { #[display(with = delimiter(","))] #[from_str(regex = "[0-9,]*")] pub a: Vec<u8>, pub b: char }
#[derive(Display)] #[display("{a:4}|{b:>9.1}|{c:<3}")] pub struct O { #[display(with = delimiter(", "))] pub a: Vec<Opq>, #[display(with = delimiter("--"))] pub b: [Opq; 2], #[display(with = join(delimiter("+"), "="))] pub c: Vec<Vec<Opq>> }
/// ignores every option
pub struct Opq(u8); impl std::fmt::Display for Opq { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0.to_string()) } }
''', [("O { a: vec![Opq(1), Opq(2), Opq(3)], b: [Opq(4), Opq(5)], c: vec![vec![Opq(6), Opq(7)], vec![Opq(8)]] }", '"1, 2, 3|4--5|6+7=8"'), ("O { a: vec![], b: [Opq(4), Opq(5)], c: vec![] }", '"|4--5|"'),
          ("A(vec![])", '""'), ("A(vec![1])", '"1"'), ("A(vec![1, 2, 30])", '"1, 2, 30"'), (p("A", "1, 2, 30"), '"A([1, 2, 30])"'), (p("A", "1,2"), '"field `0` parse failed."'), (p("A", ""), '"field `0` parse failed."'), (p("A", "1, "), '"field `0` parse failed."'), (p("A", ", 1"), '"field `0` parse failed."'), (p("A", "1, , 2"), '"field `0` parse failed."'),
          ('B { a: vec!["x".into(), "".into(), "y]".into()], b: "z".into() }', '"[x||y]] z"'), (p("B", "[x||y] z"), '"B { a: [\\"x\\", \\"\\", \\"y\\"], b: \\"z\\" }"'), (p("B", "[] z"), '"B { a: [\\"\\"], b: \\"z\\" }"'),
          ("C { a: Some(vec![1, 2]), b: [vec![1, -2], vec![], vec![3]].into() }", '"(1,2)<1--2//3>"'), ("C { a: None, b: [].into() }", '"<>"'), ("C { a: Some(vec![]), b: [vec![]].into() }", '"()<>"'), (p("C", "(1,2)<1/3-4>"), '"C { a: Some([1, 2]), b: [[1], [3, 4]] }"'), (p("C", "<1>"), '"C { a: None, b: [[1]] }"'), (p("C", "()<1>"), '"field `a` parse failed."'), (p("C", "<1-->"), '"field `b` parse failed."'),
          ("E::Aa([true, false].into())", '"Aa=true:false"'), (p("E", "Aa=true:false:true"), '"Aa([true, false, true])"'), (p("E", "Aa="), '"parse failed."'), (p("E", "c+a+b+a!"), '"B { x: {\'a\', \'b\', \'c\'} }"'), (p("E", "+!"), '"parse failed."'), ("E::B { x: ['b', 'a'].into() }", '"a+b!"'), (p("E", "n5"), '"N(5)"'),
          ("D { a: &[1, 2], b: ['a', 'b', 'c'], c: Some(-1) }", '"1.2;abc;-1"'), ("D { a: &[], b: ['a', 'b', 'c'], c: None }", '";abc;"'), ("G(vec![NoDisp(1), NoDisp(2)])", '"2"'),
          ("H(vec![1u8, 2])", '"1,2"'), (p("H<u8>", "1,2"), '"H([1, 2])"'), (p("H<String>", "1,2,"), '"H([\\"1\\", \\"2\\", \\"\\"])"'), ("I(vec![1, 2])", '"1,2"'), (p("I", "1;2"), '"I([1, 2])"'), (p("I", "1,2"), '"field `0` parse failed."'),
          ('"1,2,1,3".parse::<J>().map(|j| { let mut v: Vec<u8> = j.0.into_iter().collect(); v.sort(); format!("{v:?}") }).unwrap()', '"[1, 2, 3]"'), (p("K", "a-b-c"), '"K(\\"abc\\")"'), (p("K", "a-bc"), '"field `0` parse failed."'),
          ("L { a: vec![1, 2], b: vec![3, 4] }", '"1a2|3abc4"'), (p("L", "1a2|3abc4"), '"L { a: [1, 2], b: [3, 4] }"'), ("M(vec![A(vec![1, 2]), A(vec![3])])", '"1, 2\\n3"'), (p("M", "1, 2\n3"), '"M([A([1, 2]), A([3])])"'), (p("M", "1, 2\n"), '"field `0` parse failed."'),
          (p("N", "1,2,3x"), '"N { a: [1, 2, 3], b: \'x\' }"'), (p("N", "1,2,3"), '"field `a` parse failed."')])]
    out.append(checks(P + "formats", '''
use parse_display_with::formats::*; use parse_display::{DisplayFormat, FromStrFormat}; use std::cell::Cell; use std::fmt::{self, Formatter, Write as _};
struct W<'a, T: ?Sized, F>(&'a T, &'a F);
impl<T: ?Sized, F: DisplayFormat<T>> fmt::Display for W<'_, T, F> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { self.1.write(f, self.0) } }
fn w<T: ?Sized, F: DisplayFormat<T>>(v: &T, f: F) -> String { W(v, &f).to_string() }
#[derive(Debug, PartialEq)] struct MyErr(String);
// every item is given to the item format once and in order
fn calls_display() -> String { let log = std::cell::RefCell::new(String::new()); let o = w(&[3u8, 1, 2][..], join(fmt_display(|f: &mut Formatter, v: &u8| { log.borrow_mut().push_str(&v.to_string()); write!(f, "{v}") }), ",")); format!("{o} {}", log.borrow()) }
fn calls_parse(s: &str) -> String { let log = std::cell::RefCell::new(Vec::new()); let r: Result<Vec<u8>, MyErr> = join(fmt_from_str(|s: &str| { log.borrow_mut().push(s.to_string()); s.parse::<u8>().map_err(|_| MyErr(s.to_string())) }), ",").parse(s); format!("{r:?} {:?}", log.borrow()) }
fn state() -> String { let n = Cell::new(0); w(&["a", "b", "c"], join(fmt_display(|f: &mut Formatter, v: &&str| { n.set(n.get() + 1); write!(f, "{v}{}", n.get()) }), "-")) }
fn fails() -> String { let mut o = String::new(); let r = write!(o, "{}", W(&[1u8, 2, 3][..], &join(fmt_display(|f: &mut Formatter, v: &u8| if *v == 2 { Err(fmt::Error) } else { write!(f, "{v}") }), ","))); format!("{r:?} {o}") }
fn unsized_() -> String { w::<str, _>("text", fmt()) + &w::<str, _>("x", fmt_display(|f: &mut Formatter, v: &str| write!(f, "{v:?}"))) + &w::<dyn fmt::Display, _>(&5, fmt()) }
fn many(n: usize) -> String { let v: Vec<usize> = (0..n).collect(); let t = w(&v, delimiter(", ")); let back: Vec<usize> = delimiter(", ").parse(&t).unwrap(); (back == v && t.matches(", ").count() == n - 1).to_string() }
fn longitems() -> String { let v: Vec<String> = (0..20).map(|i| "ab".repeat(i * 50)).collect(); let t = w(&v, delimiter(";")); let back: Vec<String> = delimiter(";").parse(&t).unwrap(); (back == v && t == v.join(";")).to_string() }
''', [("calls_display()", '"3,1,2 312"'), ('calls_parse("1,2,3")', "r#\"Ok([1, 2, 3]) [\"1\", \"2\", \"3\"]\"#"), ('calls_parse("1,x,3,y").split(\') \').next().unwrap()'.replace("\\'", "'").replace("') '", '") "'), "r#\"Err(MyErr(\"x\")\"#"), ('calls_parse("").split(") ").next().unwrap()', "r#\"Err(MyErr(\"\")\"#"),
          ("state()", '"a1-b2-c3"'), ("fails()", '"Err(Error) 1,"'), ("unsized_()", '"text\\"x\\"5"'), ("many(1)", "true"), ("many(2)", "true"), ("many(70000)", "true"), ("longitems()", "true"),
          ('format!("{:?}", FromStrFormat::<u8>::parse(&fmt(), "7"))', '"Ok(7)"'), ('format!("{:?}", FromStrFormat::<u8>::parse(&fmt(), "x"))', 'format!("{:?}", "x".parse::<u8>())'), ('format!("{:?}", FromStrFormat::<u8>::parse(&fmt(), "256"))', 'format!("{:?}", "256".parse::<u8>())'),
          ('format!("{:?}", FromStrFormat::<u8>::parse(&fmt_from_str(|s| Err::<u8, _>(MyErr(s.into()))), "q"))', "r#\"Err(MyErr(\"q\"))\"#"),
          ('w(&1.5f64, fmt())', '"1.5"'), ('w("aé", fmt())', '"aé"'), ('w(&[0.1f32, f32::NAN, 1e30], delimiter(" "))', 'format!("{} {} {}", 0.1f32, f32::NAN, 1e30f32)'),
          ('w(&vec![vec![1u8, 2], vec![], vec![3]], join(delimiter(","), ";"))', '"1,2;;3"'), ('format!("{:?}", FromStrFormat::<Vec<Vec<u8>>>::parse(&join(delimiter(","), ";"), "1,2;3"))', '"Ok([[1, 2], [3]])"'),
          ('format!("{:?}", FromStrFormat::<Vec<String>>::parse(&delimiter("aa"), "aaaaa"))', "r#\"Ok([\"\", \"\", \"a\"])\"#"), ('format!("{:?}", FromStrFormat::<Vec<String>>::parse(&delimiter(","), ""))', "r#\"Ok([\"\"])\"#"),
          ('w(&Vec::<u8>::new(), delimiter(","))', '""'), ('w(&vec![String::new()], delimiter(","))', '""'), ('w(&vec![String::new(); 3], delimiter(","))', '",,"')]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=4, min_evals=20000, deps=DEPS_WITH)
