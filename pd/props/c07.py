from corpora import *

RULE = ("A case is an enum whose variants overlap on purpose (few literal texts, free-text fields, constants that other variants also match, "
        "ignored variants, variants that reject through a field or new); an evaluation parses one string and compares the chosen variant and "
        "value, or the error, with the declared order. Non-trivial: distinct (case, string) accepted, failing in a field, or longer than one character.")


def corpus(b):
    def knobs(rng, i):
        k = dict(enum=1, depth=rng.choice([0, 0, 1]), derived=.15, ignore=.2, new=.25, default=.05, opt=.08, efmt=.1, many=25, style=.4, vstyle=.3,
                 lits=["", "", "", "a", "b", "ab", "1", "A", "-", "x"], leaves=[U8, I8, BOOL, CHAR, STRING, WORD, WORD, U32, F32],
                 vnames=["A", "Ab", "B", "X", "a", "AB", "b", "ab", "Aa", "X1", "True", "x", "A1"], longlit=0)
        if i % 3 == 0:
            k.update(infer=.3, regexattr=.2)
        if i % 3 == 1:
            k["with"] = .2
        return k
    out = randoms("C07", b, 1400, knobs, values=8, strings=200,
                  extra=["", "a", "b", "ab", "A", "AB", "aa", "1", "0", "255", "256", "-1", "x", "true", "false", "a1", "A1", "1a", "x1", "-", "Ab", "bb", "X", "a-b", "a\n"])
    enum = lambda c: "is_enum: true" in c.tail
    out += mixed(b, c08=(250, enum), c10=(200, enum), c11=(100, enum), c12=(100, enum), c03=(100, enum))
    out += special(b)
    return out


def special(b):
    out = []
    # long lists where every text is accepted by several variants
    for j in range(80):
        rng = rng_for("C07", b, "special", j)
        vs = []
        d = Decl("T", "enum")
        g = G(rng)
        n = rng.choice([5, 12, 30])
        pool = ["a", "b", "ab", "1", "12", "x", "-5", "true", "t"]
        for i, nm in enumerate(uniq(rng, VNAMES, n)):
            x = rng.random()
            ign = rng.random() < .2
            if x < .1:
                # a constant text that still has fields to fill, or that new may reject
                fs = [Field(q, rng.choice([U8, STRING, BOOL]), default=True) for q in rng.choice([[], ["p"], ["p", "s"]])]
                vs.append(Variant(nm, fs, "named" if fs else rng.choice(["unit", "named", "tuple"]), fmt=[rng.choice(pool)], ignore=ign))
                if rng.random() < .7:
                    g.add_new(d, vs[-1])
            elif x < .4:
                vs.append(Variant(nm, fmt=[rng.choice(pool)], ignore=ign))
            elif x < .8:
                t = rng.choice([U8, I8, U32, BOOL, CHAR, WORD, STRING, F64])
                pre = rng.choice(["", "", "a", "1", "x"])
                vs.append(Variant(nm, [Field(None, t)], "tuple", fmt=[p for p in [pre, Var("0")] if p != ""], ignore=ign))
            else:
                vs.append(Variant(nm, [Field("q", rng.choice([U8, WORD])), Field("r", rng.choice([U8, STRING]))], "named",
                                  fmt=[Var("q"), rng.choice(["", "a", "b"]), Var("r")], ignore=ign))
                vs[-1].fmt = [p for p in vs[-1].fmt if p != ""]
        if rng.random() < .15:
            for v in vs:
                v.ignore = True
        d.variants = vs
        ex = list(dict.fromkeys(["".join(rng.choice(["a", "b", "1", "2", "x", "t", "-", "5"]) for _ in range(rng.randrange(0, 5))) for _ in range(150)] + pool))
        out.append(make_case("b%d_s%d" % (b, j), [d], rng, values=8, strings=120, extra=ex))
    # enums of many variants: texts of their own, numbers behind a letter, and texts that two of them accept
    for n in (129, 260):
        rng = rng_for("C07", b, "wide", n)
        vs = []
        for i in range(n):
            x = rng.random()
            if x < .4:
                vs.append(Variant("V%d" % i, ignore=rng.random() < .05))
            elif x < .6:
                vs.append(Variant("V%d" % i, fmt=["V%d" % rng.randrange(n)], ignore=rng.random() < .05))
            else:
                vs.append(Variant("V%d" % i, [Field(None, rng.choice([U8, WORD, BOOL]))], "tuple", fmt=["V%d" % (i // 2 if x < .8 else i), rng.choice(["", "-"]), Var("0")], ignore=rng.random() < .05))
                vs[-1].fmt = [p for p in vs[-1].fmt if p != ""]
        ex = ["V%d" % i for i in range(n)] + ["V%d%s" % (rng.randrange(n), t) for t in ["-1", "-true", "a", "-a", "255", "-256", "true", "-", "x"] * 8]
        out.append(make_case("b%d_wide%d" % (b, n), [Decl("T", "enum", variants=vs)], rng, values=60, strings=60, extra=ex))
    P = "b%d_x_" % b
    sh = lambda t, s: 'match %s.parse::<%s>() { Ok(v) => format!("{v:?}"), Err(_) => "error".to_string() }' % (rlit(s), t)
    out.append(checks(P + "ignore", '''
pub struct Opaque; impl std::fmt::Debug for Opaque { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Opaque") } }
#[derive(FromStr, Debug)] pub enum T { #[from_str(ignore)] A, B, #[from_str(ignore)] C(Opaque, std::rc::Rc<Opaque>), #[display("n{0}")] D(u8), #[from_str(ignore)] #[display("n{0}")] E(u16), #[display("A")] F, #[from_str(ignore)] G { x: Opaque } }
#[derive(FromStr, Debug)] pub enum U { #[from_str(ignore)] A, #[from_str(ignore)] #[display("{0}")] B(String) }
''', [(sh("T", "A"), '"F"'), (sh("T", "B"), '"B"'), (sh("T", "C"), '"error"'), (sh("T", "n5"), '"D(5)"'), (sh("T", "n500"), '"error"'), (sh("T", "G"), '"error"'), (sh("T", "E"), '"error"'),
      (sh("U", "A"), '"error"'), (sh("U", ""), '"error"'), (sh("U", "zz"), '"error"')]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=20000)
