from corpora import *
import rx

RULE = ("A case is a declaration with random regexes (classes, repetitions, alternations, flags, escaped parentheses, plain, lazy, nested "
        "and optional groups, both capture syntaxes) on the type, on variants, on fields (with and without captures) in every shape, with "
        "nested capture paths and empty captures; an evaluation parses a string sampled from or around the regex and compares with the "
        "plain regex crate on the user's regex with the captures renamed. Non-trivial: accepted, failing in a field, or longer than one character.")

ASCII = [f for f in FNAMES if f.isascii()]


def fields(rng, n, shape, nested=.2, opt=.08, wth=.08):
    out = []
    for nm in uniq(rng, ASCII, n, rand=0) if shape == "named" else [None] * n:
        if rng.random() < nested:
            out.append(Field(nm, rng.choice([INNER, TUP, DEEP, INNERL]), default=True))
            continue
        t = rng.choice(LEAVES)
        f = Field(nm, t)
        if rng.random() < opt:
            f.ty, f.opt = option(t), True
        elif rng.random() < wth:
            w = rng.choice([HEX, GRP, YESNO, PLUS1])
            f.ty, f.fwith = w.ty, w
        out.append(f)
    return out


def caps_of(rng, fs, variant=False, keep=.9):
    caps = []
    for i, f in enumerate(fs):
        k = f.key(i)
        if f.vty.rust in NESTED:
            ps = NESTED[f.vty.rust]
            for p, t in rng.sample(ps, rng.randrange(0 if rng.random() < .1 else 1, len(ps) + 1)):
                caps.append(([k] + p, t))
        elif rng.random() < keep or f.opt or not f.ty.default:
            w = f.fwith
            caps.append(([k], Ty(f.vty.rust, "s", w.pat, sample=w.sample) if w else f.vty))
        else:
            f.default = True
    if variant and rng.random() < .6:
        caps.append(([], None))
    return caps


def other_format(rng, fs):
    """a format that only Display uses"""
    return [p for p in [rng.choice(["", "<"])] + sum([[Var([f.key(i)] + (NESTED[f.vty.rust][0][0] if f.vty.rust in NESTED else [])), ";"] for i, f in enumerate(fs)], []) if p != ""]


def type_case(rng, id, regex=False):
    x = rng.random()
    if x < .4:
        shape = rng.choice(["named", "tuple", "tuple"]) if rng.random() < .95 else "unit"
        fs = fields(rng, rng.choice([0, 1, 1, 2, 2, 3, 4, 6]) if shape != "unit" else 0, shape)
        d = Decl("T", "struct", fs, shape)
        d.regex = rx.build(rng, caps_of(rng, fs))
        units = [d]
        if rng.random() < .15:
            d.infer = False
    elif x < .75:
        d = Decl("T", "enum", style=rng.choice([None, "snake_case", "UPPERCASE", "Title Case"]))
        for nm in uniq(rng, VNAMES, rng.choice([1, 2, 3, 4]), rand=.3):
            v = Variant(nm, shape=rng.choice(["named", "tuple", "unit"]))
            v.fields = fields(rng, rng.choice([0, 1, 2, 3]), v.shape) if v.shape != "unit" else []
            if rng.random() < .75 or any(f.vty.rust in NESTED for f in v.fields):
                v.regex = rx.build(rng, caps_of(rng, v.fields, True))
            else:
                v.fmt = [Var(), ":"] + sum([[Var([f.key(i)]), ","] for i, f in enumerate(v.fields)], [])
            v.ignore = rng.random() < .08
            d.variants.append(v)
        units = d.variants
    else:
        # on the enum, for every variant without one
        d = Decl("T", "enum", style=rng.choice([None, "kebab-case", "camelCase", "lowercase"]))
        shape = rng.choice(["named", "tuple"])
        common = fields(rng, rng.choice([0, 1, 2, 3]), shape)
        d.regex = rx.build(rng, caps_of(rng, common, True, keep=1))
        import copy
        for nm in uniq(rng, VNAMES, rng.choice([1, 2, 3]), rand=.3):
            v = Variant(nm, [copy.copy(f) for f in common], shape if common else rng.choice(["unit", "tuple", "named"]))
            if rng.random() < .25:
                v.regex = rx.build(rng, caps_of(rng, v.fields, True))
            elif rng.random() < .15:
                if all(f.vty.rust not in NESTED for f in v.fields):
                    v.fmt = [Var(), "="] + sum([[Var([f.key(i)]), ";"] for i, f in enumerate(v.fields)], [])
            d.variants.append(v)
        units = d.variants
    d.display = False
    if rng.random() < .25:
        # the regex wins over a format
        for u in units:
            if u.regex is not None and not any(f.opt and f.vty.rust in NESTED for f in u.fields):
                u.fmt = other_format(rng, u.fields)
        if d.kind == "enum" and rng.random() < .5:
            pass
    return make_case(id, [d], rng, values=0, strings=140, regex=rng.random() < .3 or regex)


def field_case(rng, id, regex=False):
    shape = rng.choice(["named", "tuple"])
    n = rng.choice([1, 1, 2, 2, 3, 4])
    fs = []
    for nm in uniq(rng, FNAMES, n) if shape == "named" else [None] * n:
        x = rng.random()
        if x < .2:
            t = rng.choice([INNER, TUP, DEEP, INNERL])
            f = Field(nm, t, default=True)
            ps = rng.sample(NESTED[t.rust], rng.randrange(1, len(NESTED[t.rust]) + 1))
            f.mregex = rx.build(rng, ps)
            fs.append(f)
            continue
        t = rng.choice(LEAVES)
        f = Field(nm, t)
        if rng.random() < .2:
            f.ty, f.opt = option(t), True
        if x < .5:
            f.mregex = rx.build(rng, [([], t)])
        elif x < .85:
            f.regex = "".join(rx.body_for(rng, t)) if rng.random() < .6 else rx.build(rng, []).src
            if rng.random() < .5:
                f.fmt = [p for p in [rng.choice(LITS), Var(), rng.choice(LITS)] if p != ""]
        else:
            f.fmt = [p for p in [rng.choice(LITS), Var(), rng.choice(LITS)] if p != ""] if rng.random() < .5 else None
        fs.append(f)
    u = Decl("T", "struct", fs, shape)
    order = list(range(n))
    rng.shuffle(order)
    fmt = [rng.choice(LITS)]
    for o in order:
        fmt += [Var([fs[o].key(o)]), rng.choice(LITS)]
    fmt = [p for p in fmt if p != ""]
    if rng.random() < .4:
        vs = [Variant("Aa"), Variant("V", fs, shape, fmt=fmt + ([Var()] if rng.random() < .3 else [])), Variant("Z")]
        d = Decl("T", "enum", variants=vs)
    else:
        d = u
        if not (n == 1 and rng.random() < .3):
            d.fmt = fmt
    d.display = False
    return make_case(id, [d], rng, values=0, strings=140, regex=rng.random() < .3 or regex)


def corpus(b):
    out = []
    for i in range(1100):
        out.append(type_case(rng_for("C08", b, "t", i), "b%d_t%d" % (b, i)))
    for i in range(700):
        out.append(field_case(rng_for("C08", b, "f", i), "b%d_f%d" % (b, i)))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=4, min_evals=20000)
