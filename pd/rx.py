"""Random regexes with captures, rendered both for the attribute and for the model."""
from spec import *

META = r"\.+*?()|[]{}^$#&-~/"
TEXT = list("abcxyzABC019 _-=,;:<>!@%&~'\"/#") + ["é", "日", ".", "*", "(", ")", "[", "]", "{", "}", "|", "+", "?", "^", "$", "\\", "\n"]


def rlitc(rng, c):
    """one literal character, written in some way"""
    x = rng.random()
    if c == "\n":
        return rng.choice(["\\n", "\\x0A", "\n"])
    if c in META and (c not in "#&-~/" or x < 0.5):
        return rng.choice(["\\" + c, "\\" + c, "\\x%02X" % ord(c), "[%s]" % ("\\" + c)])
    if x < 0.1:
        return "\\x{%X}" % ord(c)
    if x < 0.2 and c not in "^]\\[&-~":
        return "[%s]" % c
    return c


class Cap:
    def __init__(self, path, inner):
        self.path, self.inner = path, inner


def atom(rng, depth):
    """tokens of one atom that can be repeated"""
    x = rng.random()
    if x < 0.4:
        return [rlitc(rng, rng.choice(TEXT))]
    if x < 0.6:
        return [rng.choice(["[a-z]", "\\d", "[0-9]", "\\w", ".", "[^,]", "[a-zA-Z_]", "\\s", "\\S", "[[:alpha:]]", "\\p{L}", "(?s:.)", "[\\d.]", "[^\\n]", "(?i:ab)", "[(-+]", "[)(]"])]
    if x < 0.68:
        return [rng.choice(["\\(", "\\)", "(?:\\\\)", "\\(\\?", "(?:\\(\\?<a>)", "(?:\\(\\?P<x>\\))", "(?:\\\\\\()", "(?:\\\\(?:z))"] +
                           ["(?:%s%s)" % ("\\\\" * rng.choice([1, 2, 3, 5]), rng.choice(["\\(?<a>", "\\(?P<x>", "\\(?<>", "(?:z)", "\\("]))])]
    if depth <= 0:
        return ["(?:%s)" % rng.choice(["ab", "", "x|y", "a|", "|b"])]
    k = rng.choice(["(?:", "(?:", "(", "(?i:", "(?s:", "(?-u:" if False else "(?:"])
    return [k] + alt(rng, depth - 1) + [")"]


def piece(rng, depth):
    t = atom(rng, depth)
    if rng.random() < 0.35:
        t = t + [rng.choice(["*", "+", "?", "*?", "+?", "??", "{2}", "{1,3}", "{0,2}?", "{1,}"])]
    return t


def seq(rng, depth, n=None):
    out = []
    for _ in range(n if n is not None else rng.choice([0, 1, 1, 2, 3])):
        out += piece(rng, depth)
    return out


def alt(rng, depth):
    out = seq(rng, depth)
    while rng.random() < 0.3:
        out += ["|"] + seq(rng, depth)
    return out


def body_for(rng, ty, depth=1):
    """text of a capture for a value of this type"""
    t = ty.rust if ty is not None else ""
    x = rng.random()
    if x < 0.15:
        return [rng.choice([".*", ".*?", ".+", "[^,]*", "(?s:.*)", "\\S*", ""])]
    if ty is not None and ty.infer and x < 0.8:
        return [ty.infer]
    if t == "Word":
        return [rng.choice(["[a-z]*", "[a-z]+?", "\\w*", "(?:a|b)*", "[a-y]*z?"])]
    if ty is not None and ty.infer:
        return [rng.choice(["\\d+", "[0-9]{1,3}", "\\d*", "-?\\d+", "[-+]?[0-9]+", "(?:1|22|333)", "true|false", "."])]
    if ty is not None and ty.sample:
        return [ty.sample]
    return alt(rng, depth)


def build(rng, caps, anywhere=True):
    """caps: list of (path, ty). Random regex that holds every capture once."""
    toks = []
    caps = list(caps)
    if rng.random() < .4:
        rng.shuffle(caps)
    i = -1
    while caps:
        path, ty = caps.pop(0)
        i += 1
        if rng.random() < .8 or i:
            toks += seq(rng, 1, rng.choice([1, 1, 2]))
        inner = body_for(rng, ty)
        if path and caps and caps[0][0] and rng.random() < .12:
            # one capture inside another
            p2, t2 = caps.pop(0)
            inner = ["(?:"] + inner + [")", Cap(p2, body_for(rng, t2))] + seq(rng, 0, 1)
        # a capture inside a group, optional, repeated or within an alternative
        x = rng.random()
        c = Cap(path, inner)
        if x < 0.7:
            toks.append(c)
        elif not path and x < .78:
            # the name itself repeated
            toks += [c, rng.choice(["+", "{2}", "?", "*", "{1,2}?"])]
        elif x < 0.78:
            toks += ["(?:"] + [c] + seq(rng, 0, 1) + [")?"]
        elif x < 0.84:
            toks += ["(?:"] + seq(rng, 0, 1) + [c, ")+"]
        elif x < 0.92:
            toks += ["(?:"] + seq(rng, 0, 2) + ["|", c, ")"]
        else:
            toks += ["("] + [c] + [")"]
    if rng.random() < .6:
        toks += seq(rng, 1)
    if rng.random() < .12 and anywhere:
        toks += ["|"] + seq(rng, 1, 2)
    if rng.random() < .08 and anywhere:
        toks = [rng.choice(["(?i)", "(?s)", "(?U)", "(?m)", "(?i-s)", "(?x) "])] + toks if not any(isinstance(t, str) and ("#" in t or " " in t or "\n" in t) for t in flat(toks)) else toks
    if rng.random() < .06 and anywhere:
        toks = ["^"] + toks
    if rng.random() < .06 and anywhere:
        toks = toks + ["$"]
    # the same text for the model
    keys = ["P" if rng.random() < .3 else "" for _ in toks]

    def src(ts):
        o = ""
        for t in ts:
            o += t if isinstance(t, str) else "(?%s<%s>%s)" % (rng2.choice(["", "", "P"]), ".".join(t.path), src(t.inner))
        return o
    rng2 = random.Random(rng.random())
    text = src(toks)

    def model(take, vname):
        def go(ts):
            o = ""
            for t in ts:
                if isinstance(t, str):
                    o += t
                else:
                    g = take(t.path)
                    o += "(?:%s)" % resc(vname) if g is None else "(?<%s>%s)" % (g, go(t.inner))
            return o
        return go(toks)
    return Regex(text, model)


def flat(ts):
    for t in ts:
        if isinstance(t, str):
            yield t
        else:
            yield from flat(t.inner)
