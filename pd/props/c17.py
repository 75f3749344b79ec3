from corpora import *
import props.c02 as c02
import props.c23 as c23

RULE = ("A case is a random declaration that displays (formats, styles, field formats, opt, formatters, the lists of parse-display-with, nested derived types, any format "
        "parameters). For random values the text is written once to a writer that never fails, then to writers that fail after every number "
        "of bytes (refusing the piece, or taking the part that fits) and at every call, and with every field's formatter in turn reporting an "
        "error after it wrote; all would accept more afterwards. Monitors: result, later calls, prefix. Non-trivial: distinct (value, place of failure).")


def fault_case(c, values):
    c.tail = "pub fn run(m: &mut Mon) { fault::<%s>(m, %s, <%s as Arb>::arb, show_%s, %d); }" % (c.name, rlit(c.id), c.name, c.name, values)
    return c


def corpus(b):
    def knobs(rng, i):
        k = dict(display_only=1, ptr=i % 3 * .2, depth=rng.choice([0, 1, 2]), derived=.25, nested=.15, opt=.3, fieldfmt=.35, efmt=.25, style=.3, vstyle=.2, many=12,
                 leaves=[WORD, WORD, c02.NUM, c02.PROBE, U8, STRING, CHAR], longlit=.003)
        k["with"] = .3
        return k
    out = [fault_case(c, 24) for c in randoms("C17", b, 900, knobs, tag="f")]
    for c in c02.corpus(b)[:700]:
        if isinstance(c, Raw):
            continue
        c.id = "s" + c.id
        out.append(fault_case(c, 16))
    # the lists of parse-display-with
    for c in [c23.derived(rng_for("C17", b, "l", i), "b%d_l%d" % (b, i)) for i in range(200)]:
        out.append(fault_case(c, 16))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=20000, thorough=6, deps=DEPS_WITH)
