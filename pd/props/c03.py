from corpora import *
import rx

RULE = ("A case is an enum whose variants have random identifiers (case, digits, underscores, non-ASCII, raw) under a style on the enum "
        "and/or the variants, with the name used as default text, in {} with fields, in an enum format, in an empty capture of a regex and "
        "in the inferred pattern; evaluations compare display, parse and published pattern with an independent word splitter. "
        "Non-trivial: distinct (case, text).")


# digits, letters and marks beyond ASCII, which rustc takes in identifiers
VNAMES = VNAMES + ["A٣b", "X٣", "x３Y", "Ⅷa", "ǅx", "a٣", "Ab٣Cd_٤", "ªB", "Жж٣Ж", "éÉ", "日A本B"]

RAWV = ["type", "match", "r", "fn", "enum", "async", "A", "dyn", "loop", "as", "in", "if", "try", "abstract", "union", "Type"]


def vname_rx(rng, fs, allcaps=None):
    """a regex with the variant name and the fields"""
    pre, post = rx.seq(rng, 1, rng.choice([0, 1])), rx.seq(rng, 1, rng.choice([0, 1]))
    caps = [([f.key(i)], f.vty) for i, f in enumerate(fs)]
    P = [rng.choice(["", "P"]) for _ in range(len(caps) + 1)]
    bodies = ["".join(rx.body_for(rng, t)) for _, t in caps]
    dummy = rng.choice(["", "", ".*", "x", "(a|b)"])
    seps = [rng.choice(["-", ":", "=+", " ?"]) for _ in caps]
    front = rng.random() < .5

    def go(own, cap):
        o = "".join(pre)
        if front:
            o += own
        for (p, _), b, s, P_ in zip(caps, bodies, seps, P[1:]):
            o += s + cap(p, b, P_)
        if not front:
            o += own
        return o + "".join(post)
    src = go("(?%s<>%s)" % (P[0], dummy), lambda p, b, P_: "(?%s<%s>%s)" % (P_, ".".join(p), b))

    def model(take, vname):
        take([])
        return go("(?:%s)" % resc(vname), lambda p, b, P_: "(?<%s>%s)" % (take(p), b))
    return Regex(src, model)


def corpus(b):
    out = []
    ASCIIF = [f for f in FNAMES if f.isascii()]
    for i in range(1400):
        rng = rng_for("C03", b, "r", i)
        d = Decl("T", "enum", style=rng.choice([None] * 4 + ["none"] * 2 + list(STYLES)))
        n = rng.choice([1, 2, 3, 4, 6, 9])
        pos = rng.choice(["plain", "plain", "mixed", "mixed", "mixed", "efmt", "eregex"])
        common = []
        if pos in ("efmt", "eregex") and rng.random() < .5:
            sh = rng.choice(["named", "tuple"])
            common = [Field(nm if sh == "named" else None, rng.choice([U8, WORD, I32])) for nm in uniq(rng, ASCIIF, rng.choice([1, 2]), rand=0)]
        for nm in uniq(rng, RAWV if rng.random() < .2 else VNAMES, n, rand=.6, up=.5):
            v = Variant(nm)
            v.style = rng.choice(list(STYLES) + ["none"] * 3) if rng.random() < .3 else None
            if pos in ("efmt", "eregex"):
                v.fields = [Field(f.name, f.ty) for f in common]
                v.shape = sh if common else rng.choice(["unit", "tuple", "named"])
            x = rng.random()
            if pos == "mixed":
                sh2 = rng.choice(["named", "tuple"])
                if x < .3:
                    v.fmt = [p for p in [rng.choice(["", "a", "<", "{"]), Var(), rng.choice(["", "b", ">", "}"]), rng.choice(["", Var()])] if p != ""]
                elif x < .55:
                    v.shape = sh2
                    v.fields = [Field(m if sh2 == "named" else None, rng.choice([U8, WORD, I32])) for m in uniq(rng, FNAMES, rng.choice([1, 2]))]
                    v.fmt = [Var()] if rng.random() < .5 else [rng.choice(["k", "#"]), Var()]
                    for j, f in enumerate(v.fields):
                        v.fmt += [rng.choice([",", ":", "-", " "]), Var([f.key(j)])]
                elif x < .8:
                    v.shape = sh2
                    v.fields = [Field(m if sh2 == "named" else None, rng.choice([U8, WORD, I32])) for m in uniq(rng, ASCIIF, rng.choice([0, 1, 2]), rand=0)]
                    v.fmt = [Var(), ":"]
                    for j, f in enumerate(v.fields):
                        v.fmt += [",", Var([f.key(j)])]
                    v.regex = vname_rx(rng, v.fields)
            d.variants.append(v)
        if pos == "efmt":
            d.fmt = [rng.choice(["e.", "<", "}"]), Var()]
            for j, f in enumerate(common):
                d.fmt += [rng.choice([",", " ", "|"]), Var([f.key(j)])]
            d.fmt.append(rng.choice([">", Var()]))
        if pos == "eregex":
            d.fmt = [Var(), "!"]
            for j, f in enumerate(common):
                d.fmt += [",", Var([f.key(j)])]
            d.regex = vname_rx(rng, common)
        decls = [d]
        rnd = rng.random()
        extra = []
        for v in d.variants:
            for st in [v.style or d.style, d.style, "none", rng.choice(list(STYLES))]:
                extra.append(styled(v.name, st))
            extra += [v.name, raw(v.name), "r#" + v.name, v.name.lower(), v.name.upper()]
        extra = list(dict.fromkeys(extra))
        if rnd < .25 and pos != "eregex":
            w = Decl("W", "struct", [Field(None, d.as_ty(), infer=True), Field(None, STRING)], "tuple", fmt=[Var("0"), rng.choice(["", " ", "-", "x"]), Var("1")])
            w.fmt = [p for p in w.fmt if p != ""]
            decls.append(w)
            extra = [e + x for e in extra for x in ("", "x", " y", "-")]
        out.append(make_case("b%d_r%d" % (b, i), decls, rng, values=24, strings=40, extra=extra[:60], regex=rng.random() < .5))
    # every style on a fixed list of telling identifiers
    for st in STYLES:
        for lvl in ("enum", "variant"):
            rng = rng_for("C03", b, st, lvl)
            names = list(dict.fromkeys(VNAMES + [rand_ident(rng, .5) for _ in range(60)]))
            d = Decl("T", "enum", variants=[Variant(nm, style=st if lvl == "variant" else None) for nm in names],
                     style=st if lvl == "enum" else rng.choice(list(STYLES)))
            out.append(make_case("b%d_s%s" % (b, re.sub(r"\W", "", st) + str(list(STYLES).index(st)) + lvl), [d], rng, values=600, strings=300, regex=True,
                                 extra=[styled(nm, st) for nm in names]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=10000)
