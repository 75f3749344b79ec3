from corpora import *

RULE = ("A case is a random declaration in which fields (plain, nested, opt, with, derived types) are left out of the format in every "
        "combination of field default, struct default (with a Default of its own, different from the field types' Default), default_fields on "
        "the type or variant, and formats that mention defaulted fields or single parts of nested ones; an evaluation parses a string and "
        "compares the whole value with the model. Non-trivial: accepted, failing in a field, or longer than one character.")


def tweak(d, rng):
    """moves some defaults to where else they may stand"""
    for u in d.units():
        if d.kind == "struct" and d.default and d.new is None:
            for f in u.fields:
                if f.default and rng.random() < .5:
                    f.default = False
    # the deprecated list, on the variant or on the type
    allkeys = None
    for u in d.units():
        if not getattr(u, "ignore", False):
            ks = {f.key(i) for i, f in enumerate(u.fields)}
            allkeys = ks if allkeys is None else allkeys & ks
    for u in d.units():
        if rng.random() < .35:
            for i, f in enumerate(u.fields):
                if f.default and rng.random() < .7:
                    up = d.kind == "enum" and f.key(i) in (allkeys or ()) and rng.random() < .5
                    f.default = False
                    (d if up else u).default_fields.append(f.key(i))
    d.default_fields = list(dict.fromkeys(d.default_fields))


def corpus(b):
    out = []
    for i in range(1700):
        rng = rng_for("C09", b, "r", i)
        k = dict(default=.4, decl_default=.5, nested=.35, opt=.15, depth=rng.choice([0, 1]), derived=.15, fieldfmt=.25, many=16, style=.2, infer=.1, efmt=.15)
        k["with"] = .1
        if i % 4 == 0:
            k.update(nested=.8, default=.2)
        if i % 4 == 1:
            k.update(enum=1)
        if i % 7 == 0:
            k.update(new=.5)
        g = G(rng, **k)
        d = g.decl()
        tweak(d, rng)
        for x in g.inner:
            tweak(x, rng)
        out.append(make_case("b%d_r%d" % (b, i), g.inner + [d], rng, values=4, strings=140))
    if b == 0:
        out += special(b)
    return out


def special(b):
    P = "b%d_x_" % b
    sh = lambda t, s: '%s.parse::<%s>().map(|v| format!("{v:?}")).unwrap_or_else(|e| e.to_string())' % (rlit(s), t)
    out = []
    # every subset of mentioned and defaulted fields, both levels
    decls, pairs, n = [], [], 0
    for shape in ("named", "tuple"):
        for lvl in ("field", "struct", "both"):
            for mask in range(8):
                if lvl == "field" and mask == 7:
                    pass
                name = "S%d" % n
                n += 1
                keys = ["a", "b", "c"] if shape == "named" else ["0", "1", "2"]
                ment = [i for i in range(3) if mask >> i & 1]
                fmt = "x" + "".join("{%s}," % keys[i] for i in ment)
                fa = ["#[from_str(default)] " if (lvl == "field" and i not in ment) or (lvl == "both" and i == 1) else "" for i in range(3)]
                flds = ", ".join(("%s%s: u32" % (fa[i], keys[i])) if shape == "named" else "%su32" % fa[i] for i in range(3))
                decls.append('#[derive(FromStr, Debug)] #[display(%s)] %spub struct %s %s' % (
                    rlit(fmt), "" if lvl == "field" else "#[from_str(default)] ", name, "{ %s }" % flds if shape == "named" else "(%s);" % flds))
                if lvl != "field":
                    vals = "101, 102, 103".split(", ")
                    decls.append("impl Default for %s { fn default() -> Self { %s } }" % (name, "%s { %s }" % (name, ", ".join("%s: %s" % z for z in zip(keys, vals))) if shape == "named" else "%s(%s)" % (name, ", ".join(vals))))
                text = "x" + "".join("%d," % (7 + i) for i in ment)
                want = []
                for i in range(3):
                    if i in ment:
                        want.append(str(7 + i))
                    elif lvl == "field" or (lvl == "both" and i == 1):
                        want.append("0")
                    else:
                        want.append(str(101 + i))
                dbg = "%s { %s }" % (name, ", ".join("%s: %s" % z for z in zip(keys, want))) if shape == "named" else "%s(%s)" % (name, ", ".join(want))
                pairs.append((sh(name, text), rlit(dbg)))
                if ment:
                    pairs.append((sh(name, text.replace("7", "q").replace("8", "q").replace("9", "q")), rlit("field `%s` parse failed." % keys[ment[0]])) if len(ment) == 1 else
                                 (sh(name, text[:-1]), rlit("parse failed.")))
    out.append(checks(P + "subsets", "\n".join(decls), pairs))
    out.append(checks(P + "counts", '''
use std::cell::Cell;
thread_local! { static N: Cell<u32> = const { Cell::new(0) }; }
#[derive(Debug, PartialEq)] pub struct C(u32);
impl Default for C { fn default() -> Self { N.with(|n| { n.set(n.get() + 1); C(n.get()) }) } }
impl std::str::FromStr for C { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { s.parse().map(C).map_err(drop) } }
#[derive(FromStr, Debug)] #[display("{a}-{c}")] pub struct T { pub a: u8, #[from_str(default)] pub b: C, pub c: C, #[from_str(default)] pub d: C }
#[derive(FromStr, Debug)] pub enum E { #[display("v{0}")] V(C), #[display("w{1}")] W(#[from_str(default)] C, u8) }
fn t<X: std::str::FromStr + std::fmt::Debug>(s: &str) -> String where X::Err: std::fmt::Debug { N.with(|n| n.set(40)); format!("{:?} {}", s.parse::<X>().ok(), N.with(|n| n.get() >= 40)) }
''', [('t::<T>("1-2")', '"Some(T { a: 1, b: C(41), c: C(2), d: C(42) }) true"'), ('t::<E>("v9")', '"Some(V(C(9))) true"'), ('t::<E>("w3")', '"Some(W(C(41), 3)) true"'), ('t::<E>("x3")', '"None true"')]))
    out.append(checks(P + "generic", '''
#[derive(FromStr, Debug)] #[display("{a}")] pub struct G<A, B: Default> { pub a: A, #[from_str(default)] pub b: B }
#[derive(FromStr, Debug)] #[display("{0}")] pub struct H<A, B: Default>(pub A, #[from_str(default)] pub B);
#[derive(FromStr, Debug)] #[display("{x.a}:{y}")] #[from_str(default)] pub struct D { pub x: Inner, pub y: u8, pub z: Vec<String>, pub w: [u8; 3] }
impl Default for D { fn default() -> Self { D { x: Inner { a: 5, b: Word("dd".into()), r#type: 9 }, y: 1, z: vec!["q".into()], w: [1, 2, 3] } } }
#[derive(FromStr, Debug)] pub enum M { #[display("{x.b}!{x.type}")] A { #[from_str(default)] x: Inner, #[from_str(default)] y: Option<u8> }, #[display("{0.2.a}")] B(#[from_str(default)] Tup, #[from_str(default)] Vec<u8>) }
''', [(sh("G<u8, Vec<u8>>", "4"), '"G { a: 4, b: [] }"'), (sh("H<u8, String>", "4"), '"H(4, \\"\\")"'),
      (sh("D", "77:8"), r'"D { x: Inner { a: 77, b: Word(\"dd\"), type: 9 }, y: 8, z: [\"q\"], w: [1, 2, 3] }"'),
      (sh("M", "abc!4"), r'"A { x: Inner { a: 0, b: Word(\"abc\"), type: 4 }, y: None }"'),
      (sh("M", "321"), r'"B(Tup(0, Word(\"\"), Inner { a: 321, b: Word(\"\"), type: 0 }), [])"'), (sh("M", "abc!400"), '"parse failed."'), (sh("D", "77:800"), '"field `y` parse failed."'),
      (sh("D", "q:8"), '"field `x.a` parse failed."')]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=3, min_evals=20000)
