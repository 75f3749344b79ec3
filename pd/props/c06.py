from corpora import *

RULE = ("A case is a random declaration with any mix of attributes; an evaluation is one call into derived code (formatting a random value, "
        "parsing a sampled, mutated, arbitrary or huge string) in which a panic is caught; results are compared with the model as well. "
        "Non-trivial: distinct (case, text) longer than one character.")


def corpus(b):
    def knobs(rng, i):
        k = dict(depth=rng.choice([0, 1, 2]), derived=.25, nested=.12, opt=.25, fieldfmt=.3, infer=.2, infer_all=.1, regexattr=.15, new=.15,
                 default=.15, decl_default=.15, ignore=.1, efmt=.2, style=.4, vstyle=.2, many=20)
        k["with"] = .2
        return k
    out = randoms("C06", b, 1000, knobs, values=24, strings=100, regex=False, hostile=6000)
    out += randoms("C06", b, 64, knobs, tag="h", values=4, strings=12, hostile=2000000 if THOROUGH else 300000)
    out += randoms("C06", b, 500, dict(display_only=1, ptr=.15, nested=.2, opt=.3, efmt=.3, many=60, longlit=.05), tag="d", values=48)
    out += mixed(b, c02=150, c03=100, c05=100, c07=150, c08=400, c09=100, c10=150, c11=200, c12=200, c14=100)
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=20000)
