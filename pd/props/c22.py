from corpora import *

RULE = ("A case is a random declaration (structs mostly; fields plain, nested paths, opt, formatters, derived types, raw names, new and default) "
        "and an evaluation parses one string sampled so that texts of the right shape but out of range for some field are frequent; the message "
        "must name a field that really fails, or be the plain one, per the model. Error values are also compared with each other and displayed. "
        "Non-trivial: distinct (case, string) accepted, failing, rejected or longer than one character.")


def corpus(b):
    def knobs(rng, i):
        k = dict(enum=.2, depth=rng.choice([0, 0, 1]), derived=.2, nested=.25, opt=.15, fieldfmt=.25, default=.1, new=.1, decl_default=.1, many=14, infer=.05, regexattr=.05, style=.2, ignore=.1,
                 leaves=[U8, U8, I8, U16, BOOL, CHAR, WORD, F32, U32], fnames=None)
        k["with"] = .15
        return k
    out = randoms("C22", b, 1600, knobs, values=6, strings=160)
    # each field in turn fails
    for i in range(150):
        rng = rng_for("C22", b, "each", i)
        shape = rng.choice(["named", "tuple"])
        n = rng.choice([1, 2, 3, 5, 9, 12])
        names = uniq(rng, FNAMES, n) if shape == "named" else [None] * n
        fs = [Field(nm, rng.choice([U8, I8, BOOL, WORD, INNER]), default=False) for nm in names]
        order = list(range(n))
        rng.shuffle(order)
        parts, texts = [], []
        for o in order:
            f, k = fs[o], fs[o].key(o)
            if f.ty is INNER:
                f.default = True
                path = [k] + rng.choice([["a"], ["b"], ["type"]])
                t = {"a": ("5", "-"), "b": ("w", "W"), "type": ("5", "256")}[path[-1]]
            else:
                path = [k]
                t = {"u8": ("7", "256"), "i8": ("-3", "128"), "bool": ("true", "yes"), "Word": ("abc", "aBc")}[f.ty.rust]
                if rng.random() < .3:
                    f.fmt = ["<", Var(), ">"]
                    t = ("<" + t[0] + ">", "<" + t[1] + ">")
            a, tx = G(rng).rawpath(path)
            parts += [Var(a, rawtext=tx), ","]
            texts.append(t)
        d = Decl("T", "struct", fs, shape, fmt=parts)
        ex = ["".join(t[0] + "," for t in texts)]
        for j in range(n):
            ex.append("".join((t[1] if q == j else t[0]) + "," for q, t in enumerate(texts)))
        for _ in range(8):
            ex.append("".join(rng.choice(t) + "," for t in texts))
        out.append(make_case("b%d_e%d" % (b, i), [d], rng, values=2, strings=len(ex) + 30, extra=ex))
    if b == 0:
        out += special(b)
    return out


def special(b):
    P = "b%d_x_" % b
    e = lambda t, s: '%s.parse::<%s>().unwrap_err()' % (rlit(s), t)
    out = [checks(P + "value", '''
use parse_display::ParseError; use std::error::Error as _;
#[derive(FromStr, Debug)] #[display("{a},{b}")] pub struct T { pub a: u8, pub b: u8 }
#[derive(FromStr, Debug)] #[display("{b}/{a}")] pub struct U { pub b: i8, pub a: bool }
#[derive(FromStr, Debug)] pub struct N(pub u8);
#[derive(FromStr, Debug)] #[display("{t};{u}")] pub struct D { pub t: T, pub u: N }
#[derive(FromStr, Debug)] pub enum E { #[display("a{0}")] A(u8), #[display("b{0}")] B(T), C }
#[derive(FromStr, Debug)] #[display("{a}")] #[from_str(new = only(a))] pub struct R { pub a: u8 }
fn only(a: u8) -> Result<R, ParseError> { if a == 1 { Ok(R { a }) } else { Err(ParseError::with_message("mine")) } }
#[derive(FromStr, Debug)] #[display("{0}:{1}")] pub struct O(#[display(opt)] pub Option<u8>, pub u8);
#[derive(FromStr, Debug)] #[from_str(regex = "(?<x>[0-9]+)-(?<h.0>[0-9]+)")] pub struct X { pub x: u8, #[from_str(default)] pub h: H }
#[derive(Debug, Default)] pub struct H(pub u8);
fn debug_of(e: &ParseError) -> bool { !format!("{e:?}").is_empty() }
fn all() -> Vec<ParseError> { vec![ParseError::new(), ParseError::default(), ParseError::with_message("parse failed."), ParseError::with_message(""), ParseError::with_message("x"),
    ParseError::with_message("X"), ParseError::with_message("field `a` parse failed."), ParseError::with_message("field `b` parse failed."), ParseError::with_message("{} {x}\\n\\"\\u{1F980}"),
    %s, %s, %s, %s, %s, %s, %s, %s] }
fn laws() -> String {
    // equal texts at other addresses too
    let moved = |v: Vec<ParseError>| -> Vec<ParseError> { v.into_iter().map(|e| ParseError::with_message(Box::leak(e.to_string().into_boxed_str()))).collect() };
    let mut a = all();
    a.extend(moved(all()));
    let mut bad = String::new();
    for x in &a { for y in all().iter().chain(&moved(all())) {
        let same = x.to_string() == y.to_string();
        if (x == y) != same || (x != y) == same || (y == x) != same { bad += &format!("{x:?} {y:?} "); }
    } if x.source().is_some() || !debug_of(x) { bad += "source "; } }
    bad
}
fn takes_boxed(s: &str) -> Result<T, Box<dyn std::error::Error + Send + Sync + 'static>> { Ok(s.parse::<T>()?) }
''' % (e("T", "1,x"), e("T", "x,1"), e("T", "x"), e("U", "x/true"), e("U", "1/x"), e("N", "x"), e("E", "a"), e("R", "2")), [
        ("laws()", '""'), ('ParseError::new()', '"parse failed."'), ('ParseError::default()', '"parse failed."'), ('ParseError::with_message("abc {0} {{")', '"abc {0} {{"'), ('ParseError::with_message("")', '""'),
        (e("T", "1,x"), '"field `b` parse failed."'), (e("T", "x,1"), '"field `a` parse failed."'), (e("T", "1"), '"parse failed."'), (e("U", "128/true"), '"field `b` parse failed."'), (e("U", "1/x"), '"field `a` parse failed."'),
        (e("N", "x"), '"field `0` parse failed."'), (e("N", ""), '"field `0` parse failed."'), (e("D", "1,x;3"), '"field `t` parse failed."'), (e("D", "1,2;x"), '"field `u` parse failed."'), (e("D", "1,2;"), '"field `u` parse failed."'), (e("D", "1,2"), '"parse failed."'),
        (e("E", "a256"), '"parse failed."'), (e("E", "b1,x"), '"parse failed."'), (e("E", "c"), '"parse failed."'), (e("R", "2"), '"parse failed."'), (e("R", "x"), '"field `a` parse failed."'),
        (e("O", "256:1"), '"field `0` parse failed."'), (e("O", "1:256"), '"field `1` parse failed."'), (e("O", ":x"), '"field `1` parse failed."'), (e("O", "1"), '"parse failed."'),
        (e("X", "256-1"), '"field `x` parse failed."'), (e("X", "1-256"), '"field `h.0` parse failed."'), (e("X", "1-x"), '"parse failed."'),
        ('takes_boxed("1,x").unwrap_err()', '"field `b` parse failed."')])]
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=3, min_evals=20000, env_extra=dict(VRT_MESSAGES="1"))
