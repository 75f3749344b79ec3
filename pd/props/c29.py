"""The code of a derive depends on the declaration alone."""
from corpora import *
from props import c25, c28

RULE = ("A case is a declaration (random, hand-written generic, or with damaged attributes) written several times: in two crates, among different neighbours, with the derives in either order, alone or together, with other white "
        "space, comments and line breaks. dump makes every derive show its code as an error; the codes, and for damaged declarations the errors, of all copies must be the same text but for white space. Non-trivial: "
        "distinct (declaration, derive) that showed code or errors in every copy.")
COPIES = 3
TOK = c28.TOK


def toks(text):
    out, i = [], 0
    while i < len(text):
        m = re.match(r"//[^\n]*\n|/\*.*?\*/", text[i:], re.S) if text[i] == "/" else None
        if m and not re.match(r"///(?!/)|/\*\*(?![*/])|//!|/\*!", m.group(0)):
            i += m.end()
            continue
        if m:
            out.append(m.group(0))
            i += m.end()
            continue
        t = TOK.match(text, i)
        if t is None:
            return None
        out.append(t.group(0))
        i = t.end()
    return out


def restyle(rng, text):
    """the same tokens with other white space"""
    ts = toks(text)
    if ts is None:
        return text
    out = []
    for t in ts:
        if not t.strip():
            out.append(rng.choice([" ", " ", "\n", "  \n\t", " /* {x} */ ", " // a \"comment\"\n"]) if rng.random() < .5 else t)
        elif t in (",", "(", "{", "}", ")") and rng.random() < .15:
            out.append(rng.choice([" ", "\n", ""]) + t + rng.choice([" ", "\n", "/**/"]))
        else:
            out.append(t)
    return "".join(out)


def squeeze(s):
    """without white space outside literals"""
    return "".join(t for t in re.findall(r'r(?:#*)"[^"]*"#*|"(?:\\.|[^"\\])*"|\s+|.', s, re.S) if t.strip())


class Copies:
    def __init__(self, id, pre, decl, which, rng, damaged):
        self.id, self.pre, self.decl, self.which, self.damaged = id, pre, decl, which, damaged
        self.texts = []
        for k in range(COPIES):
            w = list(which)
            if k and len(w) == 2 and rng.random() < .3:
                ders = [", ".join(w[::-1])]
            elif k and len(w) == 2 and rng.random() < .3:
                # one after the other
                ders = w if rng.random() < .5 else w[::-1]
            else:
                ders = [", ".join(w)]
            body = decl if k == 0 else restyle(rng, decl)
            self.texts.append("%s\n%s\n#[display(dump)]\n%s" % (pre, "\n".join("#[derive(%s)]" % x for x in ders), body))

    def source(self):
        return "\n\n// ----\n".join(self.texts)


GENERIC = [t for t in c28.HAND if "<" in t.split("pub ", 1)[-1].split("{")[0]]


def corpus(b):
    out = []
    for i in range(1500):
        rng = rng_for("C29", b, i)
        k = dict(newfn=1, depth=0, nested=.2, opt=.25, fieldfmt=.3, infer=.3, regexattr=.2, new=.2, default=.3, decl_default=.2,
                 ignore=.15, efmt=.25, style=.3, small=rng.random() < .4, infer_all=.15, many=7)
        k["with"] = .3
        g = G(rng, **k)
        d = g.decl()
        which = [x for x, y in (("Display", d.display), ("FromStr", d.from_str)) if y]
        if not which:
            continue
        text = render_decl(d, rng)
        at = text.index("#[derive(")
        decl = text[:at] + text[text.index("\n", at) + 1:]
        bad = i % 3 == 0
        if bad:
            decl = c28.damage(rng, decl, True)
        out.append(Copies("b%d_g%d" % (b, i), "", decl, which, rng, bad))
    for i in range(150):
        rng = rng_for("C29", b, "gen", i)
        # generic parameters in bounds, defaults and fields: their bounds are generated
        n = rng.randint(1, 5)
        ps = ["%s%s" % (x, rng.choice(["", "", ": Clone", ": ?Sized + Clone"])) for x in rng.sample(["T", "U", "V", "W", "X", "Y", "r#Z"], n)]
        names = [p.split(":")[0] for p in ps]
        tys = ["{}", "Box<{}>", "Option<{}>", "Vec<{}>", "<{} as Iterator>::Item", "[{}; 3]", "({}, u8)", "std::collections::HashMap<{}, u8>"]
        fs = ["f%d" % j for j in range(rng.randint(1, 8))]
        specs = ["", ":?", ":x", ":>4", ":#?", ":e", ":p"]
        fields = ", ".join("%s%s: %s" % (rng.choice(["", "", "#[display(opt)] ", '#[display("<{}>")] ', "#[from_str(default)] ", "#[from_str(regex_infer)] ", "#[display(bound(%s : Copy))] " % rng.choice(names), "#[from_str(bound(%s : Copy, ..))] " % rng.choice(names)]), f, rng.choice(tys).format(rng.choice(names))) for f in fs)
        fmt = "/".join("{%s%s}" % (f, rng.choice(specs)) for f in rng.sample(fs, len(fs)))
        at = rng.choice(["", "#[display(bound(%s, ..))]" % ", ".join(rng.sample(names, rng.randint(1, n)))])
        decl = '#[display("%s")] %s pub struct G<%s> { %s }' % (fmt, at, ", ".join(ps), fields)
        out.append(Copies("b%d_p%d" % (b, i), "", decl, ["Display", "FromStr"], rng, True))
    if b == 0:
        rng = rng_for("C29", b, "hand")
        for i, t in enumerate(c28.HAND):
            out.append(Copies("b0_h%d" % i, "", t, ["Display", "FromStr"], rng, True))
    return out


def observe(res, cases, rnd):
    d = os.path.join(VERIF, "work/wc29")
    n = 4
    texts, where = {}, {}
    for side in range(2):
        rng = rng_for("C29", "order", rnd, side)
        for k in range(n):
            lines = PRE.rstrip("\n").split("\n")
            rs = []
            mods = [(c, j) for c in cases[k::n] for j in range(COPIES) if side == 0 or j]
            rng.shuffle(mods)
            for c, j in mods:
                start = len(lines) + 1
                lines += ("mod %s_%d {\n%s%s\n}" % (c.id, j, MODPRE, c.texts[j])).split("\n")
                rs.append((start, len(lines), c, j))
            lines.append("fn main() {}")
            name = "wc29_s%d_%d" % (side, k)
            texts[name] = "\n".join(lines) + "\n"
            where["src/bin/%s.rs" % name] = rs
    package("wc29", d, DEPS, texts)
    b = cargo(["check", "--offline", "--message-format=json", "--keep-going"], d)
    import bisect
    got = {}
    for _, src, msg in b.errors:
        text = msg.get("message", "")
        if text.startswith(("aborting due to", "could not compile")) or not msg["spans"]:
            continue
        for fn, line, _ in outer_spans(msg):
            rs = where.get(fn)
            if not rs:
                continue
            i = bisect.bisect_right(rs, line, key=lambda x: x[0]) - 1
            if i >= 0 and rs[i][0] <= line <= rs[i][1]:
                c, j = rs[i][2:]
                full = "\n".join([text] + [x["message"] for x in msg["children"]])
                if "macro output:\n" in full:
                    full = "code " + full.split("macro output:\n", 1)[1]
                got.setdefault(c.id, {}).setdefault((fn, j), []).append(((msg.get("code") or {}).get("code") or "", squeeze(full)))
                break
    return b, got


def main(prop, only=None):
    res = Result(prop)
    for b in range(12 if THOROUGH else 1):
        left = [c for c in corpus(b) if not only or c.id == only]
        if not left:
            continue
        total = len(left)
        for rnd in range(3):
            bld, got = observe(res, left, (b, rnd))
            rest = []
            for c in left:
                # what rustc itself says depends on what else is in the crate
                g = {k: sorted(m for code, m in v if not code) for k, v in got.get(c.id, {}).items()}
                g = {k: v for k, v in g.items() if v}
                if not g:
                    rest.append(c)
                    continue
                want = max(g.values(), key=len)
                full = 2 * COPIES - 1
                diff = [(k, v) for k, v in g.items() if v != want]
                if diff:
                    (k, v) = diff[0]
                    k0 = next(x for x in g if g[x] == want)
                    a = [x for x in want if x not in v]
                    z = [x for x in v if x not in want]
                    # a derive that said nothing in one crate because of an error elsewhere in it
                    if z or len(g) == full:
                        res.violation(c.id, "not the same", "copies %s and %s of one declaration differ:\n%s\n----\n%s" % (k0, k, "\n".join(a)[:3000], "\n".join(z)[:3000]), c.source())
                        continue
                if len(g) < full:
                    rest.append(c)
                    continue
                res.cases += 1
                for m in want:
                    res.evals += full
                    res.distinct += 1
                    key = "code" if m.startswith("code") else "error"
                    res.bins[key + (" of damaged declarations" if c.damaged else "")] = res.bins.get(key + (" of damaged declarations" if c.damaged else ""), 0) + 1
            left = rest
            if not left or res.found:
                break
        res.bins["declarations seen in part only"] = res.bins.get("declarations seen in part only", 0) + len(left)
        if not only and not res.found and len(left) > total // 4:
            raise Inconclusive("the compiler said too little:\n" + bld.log[-3000:])
        if res.found or time.time() - T0 > 1200:
            break
    return finish(res, RULE, min_evals=1 if only else 5000)
