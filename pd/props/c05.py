from corpora import *

RULE = ("A case is a random declaration (struct or enum) whose formats have literal text and placeholders without custom regexes; an "
        "evaluation parses one string (sampled from the declared language, mutated, truncated, padded, repeated, spliced or arbitrary) "
        "and compares acceptance and value with a matcher assembled by hand. Non-trivial: the string is accepted, fails in a field, or is "
        "longer than one character; counted as distinct (case, string).")


def corpus(b):
    def knobs(rng, i):
        k = dict(depth=rng.choice([0, 0, 1]), derived=.2, nested=0.08, opt=0.12, default=0.08, efmt=.2, style=.3, many=14)
        if i % 4 == 0:       # adjacent and ambiguous fields of free text
            k.update(leaves=[STRING, STRING, WORD, U8, CHAR], fieldfmt=.4, lits=["", "", "a", "ab", "aa", ",", "\n", "x", "-", "a,"])
        if i % 4 == 1:
            k.update(enum=0, nested=.5)
        return k
    out = randoms("C05", b, 1400, knobs, values=4, strings=220)
    if b == 0:
        out += special(b)
    return out


def special(b):
    out = []
    rng = rng_for("C05", b, "special")
    i = 0
    # every literal text before, between and after fields, as a constant, and doubled
    for j, t in enumerate(LITS):
        if not t:
            continue
        d = Decl("T", "enum", variants=[
            Variant("A", fmt=[t]), Variant("B", [Field(None, STRING), Field(None, WORD)], "tuple", fmt=["[", Var("0"), t, Var("1"), "]"]),
            Variant("C", [Field("x", U8)], "named", fmt=[t, Var("x"), t]), Variant("D", [Field(None, BOOL, fmt=[t, Var(), t + t])], "tuple", fmt=["=", Var("0")])])
        ex = [t + t, t[:-1], t + "x", "x" + t, t.upper(), t.lower(), t + "\n", "\n" + t, t + "1" + t, "[" + t + "]", "[\n" + t + "a]", "[" + t + t + "]", "[" + t + "a]\n"]
        out.append(make_case("b%d_l%d" % (b, j), [d], rng, values=24, strings=160, extra=ex))
    # structs that are only text
    for j, t in enumerate(LITS + ["abc", ""]):
        d = Decl("T", "struct", shape=rng.choice(["unit", "named", "tuple"]), fmt=[t] if t else [])
        out.append(make_case("b%d_u%d" % (b, j), [d], rng, values=1, strings=60, extra=[t + t, t + "x", "x" + t, t[:-1], t + "\n", t + "\0"]))
    # shortest-match order with several free fields
    for j in range(60):
        n = rng.choice([2, 3, 4, 5])
        sep = [rng.choice(["", "a", "b", ",", "ab", "\n", "aa"]) for _ in range(n + 1)]
        shape = rng.choice(["named", "tuple"])
        fs = [Field(nm if shape == "named" else None, rng.choice([STRING, STRING, CHAR, WORD])) for nm in uniq(rng, FNAMES, n)]
        order = list(range(n))
        rng.shuffle(order)
        fmt = [sep[0]]
        for q, o in enumerate(order):
            fmt += [Var([fs[o].key(o)]), sep[q + 1]]
        d = Decl("T", "struct", fs, shape, fmt=[p for p in fmt if p != ""])
        ex = ["".join(rng.choice("aab,b\n") for _ in range(rng.randrange(0, 12))) for _ in range(120)]
        out.append(make_case("b%d_o%d" % (b, j), [d], rng, values=4, strings=100, extra=ex))
    # many fields
    for n in (10, 11, 20, 33, 101, 129, 260):
        for shape in ("named", "tuple"):
            names = uniq(rng, FNAMES, n) if n < 50 else ["f%d" % q for q in range(n)]
            fs = [Field(nm if shape == "named" else None, rng.choice([U8, WORD, I32, BOOL])) for nm in names]
            order = list(range(n))
            rng.shuffle(order)
            fmt = []
            for o in order:
                fmt += [Var([fs[o].key(o)]), rng.choice([",", ";", "-"])]
            d = Decl("T", "struct", fs, shape, fmt=fmt)
            out.append(make_case("b%d_n%d%s" % (b, n, shape), [d], rng, values=8, strings=80))
    # long texts
    for n in (255, 256, 4000, 20000):
        t = "".join(rng.choice(["ab", "é", "{", "}", "\n", ".", "(", "日", " "]) for _ in range(n))
        d = Decl("T", "struct", [Field("a", U8), Field("b", STRING, fmt=["<", Var(), t[: n // 2]])], "named", fmt=[Var("a"), t, Var("b"), "!"])
        out.append(make_case("b%d_long%d" % (b, n), [d], rng, values=6, strings=20))
        d = Decl("T", "enum", variants=[Variant("A", fmt=[t]), Variant("B", fmt=[t + "x"]), Variant("C", [Field(None, U8)], "tuple", fmt=[t, Var("0")])])
        out.append(make_case("b%d_elong%d" % (b, n), [d], rng, values=6, strings=20, extra=[t, t + "x", t + "7", t[:-1], t + "xx", t + "256"]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=20000)
