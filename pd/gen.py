"""Random declarations."""
import random
from spec import *

LITS = ["", "", ",", ":", "-", " ", "  ", "=", "::", "->", "(", ")", "[", "]", "{", "}", "{}", "{{", "}}", "{a}",
        "{0}", "<", ">", "^", "$", ".", ".*", "*", "+", "?", "|", "\\", "\\d", "\\\\", "/", "#", "&", "~", "%", "@",
        "!", "'", '"', "`", "\n", "\r\n", "\t", "\0", "a", "x", "A", "1", "0x", "é", "ß", "日本", "🦀", "\u2028", "\u0301",
        "(?:", "(?<a>", "(?s)", "[a-z]", "{2}", "\\Q", "\\n", "r#", "//", "/*", "a b", "value_1", "%s", "$0", "${1}",
        "---", "&&", "--", "~~", "[[", "[^", "\x7f", "\u00a0", "\ufeff", "İ", "aa", "ab", "abab", "parse failed."]
SEPS = list(",;:/|()[]{}#&~%@'\"`=^$*?\\ \n\t") + ["ö", "漢", "🦀", "\u2028", "\r", "::", "->"[1:] + "=", "{}", "{{", "||", "\\d", ".*"[1:] + "|", "(?:",
        "[^", "\0", "  ", "&&", "~~", "\u00a0"]
SEPS = [s for s in SEPS if not any(c.isascii() and (c.isalnum() or c in "-+._<>!") for c in s)] + ["\\x"[0], "#["]
FNAMES = ["a", "b", "c", "x", "y", "z", "ab", "abc", "a1", "a_b", "_a", "__", "a_", "type", "match", "fn", "r", "s", "p",
          "f", "e", "m", "value", "field", "value_1", "field_value", "_value_a", "_formatter", "data", "len", "name", "é",
          "日本", "ñandú", "x0", "_0", "_1", "gen", "async", "dyn", "loop", "move", "ref", "try", "do", "empty", "parse",
          "fmt", "self_", "Foo", "A", "N", "T0", "aVeryLongFieldNameIndeed_with_parts", "write", "result", "captures", "re",
          "parser", "regex", "str", "u8", "i32", "bool", "core", "std", "ok", "err", "some", "none", "union", "auto", "default"]
VNAMES = ["A", "B", "C", "Abc", "AbCd", "ABC", "ABCd", "AbcDEF", "X1", "X1Y2", "HTTPServer", "IoError", "a", "abc", "aBc",
          "Foo_Bar", "FOO_BAR", "_Foo", "Foo_", "Foo__Bar", "foo_bar", "X_1", "A1b2C3", "Type", "type", "match", "r", "Éa",
          "aÉb", "日本", "Ñu", "Z9Z", "Z9z", "iOS", "Ok2", "None_", "Some_", "T", "U", "Self_", "ÄB", "straßE", "AÀB", "x_Y_z",
          "_9A", "__", "_", "ab1CD", "value", "v", "s", "p", "c", "f", "e", "m", "parse_variant", "PARSER", "Value", "r1", "str", "u8",
          "Ok", "Err", "Some", "None", "String", "Result", "Option", "Default", "Error", "Empty", "Box", "Vec", "Infer"]
VNAMES = [v for v in VNAMES if v.strip("_")]
TNAMES = ["T", "Foo", "X", "Data", "MyType", "S", "E", "Value", "P", "F"]


def rand_ident(rng, up=0.3):
    """A random identifier."""
    while True:
        n = rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 12])
        s = ""
        for i in range(n):
            x = rng.random()
            if x < 0.12:
                s += "_"
            elif x < 0.24 and s:
                s += rng.choice("0123456789")
            elif x < 0.28:
                s += rng.choice("éßÉñÑ日本ÄжЖ")
            elif x < 0.28 + up:
                s += rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
            else:
                s += rng.choice("abcdefghijklmnopqrstuvwxyz")
        if s.strip("_") and not s.strip("_")[0].isdigit() and s not in ("self", "Self", "super", "crate") and s not in RESERVED:
            return s


# names the corpora's own scope uses for constants and unit structs
RESERVED = {"CASE", "REP3", "TEXTS", "CHARS", "Hex", "Brk", "Grp", "Flg"}


def uniq(rng, pool, n, rand=0.25, up=0.3):
    """n distinct names."""
    pool = list(dict.fromkeys(pool))
    rng.shuffle(pool)
    out = pool[:n]
    for j in range(len(out)):
        if rng.random() < rand:
            x = rand_ident(rng, up)
            if x not in out:
                out[j] = x
    i = 0
    while len(out) < n:
        nm = "f%d" % i
        if nm not in out:
            out.append(nm)
        i += 1
    return out


class Knobs(dict):
    def __getattr__(self, k):
        return self.get(k, 0)


class G:
    def __init__(self, rng, **k):
        self.r, self.k = rng, Knobs(k)
        self.inner = []          # inner declarations made so far
        self.counter = 0

    def p(self, name, dflt=0.0):
        return self.r.random() < self.k.get(name, dflt)

    def lit(self):
        r = self.r
        lits = self.k.get("lits") or LITS
        t = r.choice(lits)
        if r.random() < 0.15:
            t += r.choice(lits)
        if r.random() < self.k.get("longlit", 0.01 if self.k.display_only else 0.003):
            t = (t or "xy") * r.choice([40, 257, 1000] if self.k.display_only else [40, 200])
        return t

    # ---------------- types
    def leaf_ty(self, last=False):
        r = self.r
        if self.k.roundtrip:
            if last and r.random() < 0.25 and not self.k.notext:
                return r.choice([STRING, CHAR])
            return r.choice(CLEAN + [LINES, LINES] if self.k.lines else CLEAN)
        return r.choice(self.k.get("leaves") or LEAVES)

    def inner_decl(self, depth, notext=False):
        g = G(self.r, **self.k)
        g.k["notext"] = notext
        g.k["depth"] = depth - 1
        g.k["level"] = self.k.get("level", 0) + 1
        g.k["decl_new"] = 0
        g.k["many"] = 4
        g.k["small"] = 1
        g.k["inner_prefix"] = self.k.get("inner_prefix", "In") + "_%d" % self.counter if "inner_prefix" in self.k else "In%d" % self.counter
        self.counter += 1
        d = g.decl(name=g.k["inner_prefix"])
        if self.k.display_only:
            d.from_str = False
        self.inner += g.inner + [d]
        return d

    # ---------------- one field
    def field(self, name, last=False, shape="named"):
        r = self.r
        if self.k.depth and self.p("derived", 0.15):
            text = last and not self.k.notext
            d = self.inner_decl(self.k.depth, not text)
            t = d.as_ty()
            t.text = text
            f = Field(name, t)
            if self.p("opt", 0) and not self.k.roundtrip:
                f = Field(name, option(t), opt=True)
                if r.random() < 0.7:
                    f.fmt = [self.lit(), Var(), self.lit()]
            elif self.p("fieldfmt", 0.2) and not self.k.roundtrip:
                f.fmt = [self.lit(), Var(), self.lit()]
            if self.p("infer", 0) and self.can_infer(f):
                f.infer = True
            return f
        if self.p("nested", 0):
            t = r.choice(([INNER, TUP] + [INNERL] * 2 * bool(self.k.lines)) if self.k.roundtrip else [INNER, TUP, DEEP, INNERL])
            f = Field(name, t, default=True)
            n = len(NESTED[t.rust])
            paths = r.sample(NESTED[t.rust], n if self.k.roundtrip else r.randrange(1, n + 1))
            f.nested = [p for p, _ in paths]
            if self.k.roundtrip:
                # every part is written, so the whole value comes back
                f.own = r.random() < 0.5
                return f
            if self.k.display_only and r.random() < 0.3 and self.p("opt", .15):
                f.ty, f.opt = option(t), True
                f.fmt = [self.lit()]
                for p in f.nested:
                    f.fmt += [Var(self.rawpath(p)[0], rawtext=self.rawpath(p)[1]), self.lit()]
                f.default = False
                f.nested = None
                return f
            if r.random() < 0.5:
                f.fmt = [self.sep_or_lit()]
                for p in f.nested:
                    f.fmt += [Var(self.rawpath(p)[0], rawtext=self.rawpath(p)[1]), self.sep_or_lit()]
                f.default = True
                f.nested = None
                # what is said of the field's own pattern does not touch the parts of it
                x = len(f.fmt) * 7 + len(name or "") + len(f.ty.rust)
                if x % 3 == 0 and not self.k.display_only:
                    f.regex = ["[0-9]", "x+", "(?:a|b)", r"\d{2}"][x % 4]
                elif x % 3 == 1 and not self.k.display_only:
                    f.infer = x % 2 == 0
            return f
        t = self.leaf_ty(last)
        f = Field(name, t)
        if self.p("with", 0):
            ws = withs_for(t)
            if self.k.roundtrip:
                ws = [w for w in ws if w.clean]
            if not ws and r.random() < 0.7:
                w = r.choice([HEX, PLUS1, YESNO, GRP, FLG] + ([] if self.k.roundtrip else [OLD, REP3, REP2, GREEDY, DOT]))
                t, ws = w.ty, [w]
                f = Field(name, t)
            if ws:
                w = r.choice(ws)
                how = r.random()
                if how < 0.6 or self.k.roundtrip:
                    f.dwith = w
                elif how < 0.8:
                    f.fwith = w
                else:
                    f.dwith, f.fwith = r.choice(ws), w
        if self.p("opt", 0):
            f.ty, f.opt = option(t), True
            if self.k.roundtrip:
                pass
            elif r.random() < 0.6:
                f.fmt = [self.lit(), Var(), self.lit()]
        elif self.p("fieldfmt", 0.2):
            f.fmt = [self.sep_or_lit(), Var(), self.sep_or_lit()]
        if self.p("regexattr", 0):
            f.regex = self.field_regex(f)
        if self.p("infer", 0) and self.can_infer(f):
            f.infer = True
        return f

    def can_infer(self, f):
        t = f.vty
        if t.decl is not None:
            return True
        return t.infer is not None

    def field_regex(self, f):
        r = self.r
        w = f.fwith or f.dwith
        base = (w.sample if w is not None else None) or f.vty.infer or {
            "Word": "[a-z]*", "String": r.choice([".*", "[^,]+", "[a-z ]+?", "(a|b)*", "\\w+"])}.get(f.vty.rust) or ".*"
        return r.choice([base, base, "(%s)" % base, "(?:%s)" % base, "%s|never" % base, "(?:%s){1}" % base, "(((%s)))" % base,
                         "(?i:%s)" % base, "%s()" % base, base + "|" + base, "\\b(?:%s)\\b" % base if "[0-9]" in base else base])

    def sep_or_lit(self):
        if self.k.roundtrip:
            return self.r.choice(self.seps) if self.r.random() < .5 else ""
        return self.lit()

    def rawpath(self, p):
        """(path, text): keyword members may be written with or without r#"""
        t = ".".join(("r#" + k if k in KEYWORDS and self.r.random() < 0.5 else k) for k in p)
        return list(p), t

    # ---------------- formats for a list of fields
    def dparts(self, fields, variant=False):
        """format of a type that only displays: any field any number of times, nested paths"""
        r = self.r
        refs = []
        for i, f in enumerate(fields):
            k = f.key(i)
            if f.vty.rust in NESTED and not f.fmt:
                for p, _ in r.sample(NESTED[f.vty.rust], min(3, len(NESTED[f.vty.rust]))):
                    refs.append(self.rawpath([k] + p))
            elif not getattr(f, "noshow", False):
                refs.append(self.rawpath([k]))
        n = r.choice([0, 1, len(refs), len(refs), len(refs) + 2])
        refs = [r.choice(refs) for _ in range(n)] if r.random() < .4 and refs else r.sample(refs, len(refs))
        out = [self.lit()]
        for p, t in refs:
            out.append(Var(p, rawtext=t))
            out.append(self.lit() if r.random() < .8 else "")
        if variant:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                out.insert(r.randrange(len(out) + 1), Var())
        return [x for x in out if x != ""]

    def parts(self, fields, variant=False):
        r = self.r
        if self.k.display_only:
            return self.dparts(fields, variant)
        vars_ = []
        for i, f in enumerate(fields):
            k = f.key(i)
            if getattr(f, "skip", False):
                continue
            nested = getattr(f, "nested", None)
            if nested:
                for p in nested:
                    vars_.append(self.rawpath([k] + p))
            else:
                vars_.append(self.rawpath([k]))
        if r.random() < 0.4:
            r.shuffle(vars_)
        out = []
        if variant and r.random() < 0.4:
            out += [Var(), self.lit()]
        elif r.random() < 0.6:
            out.append(self.lit())
        for j, (p, t) in enumerate(vars_):
            if j > 0:
                out.append(self.lit() if r.random() < 0.85 else "")
            v = Var(p, rawtext=t)
            if self.k.specs and r.random() < 0.2:
                pass
            out.append(v)
        if r.random() < 0.5:
            out.append(self.lit())
        if variant and r.random() < 0.15:
            out.append(Var())
        return [x for x in out if x != ""]

    def rt_parts(self, fields, tag):
        """unambiguous format: tag, then fields separated by distinct separators"""
        r = self.r
        seps = list(self.seps)
        r.shuffle(seps)

        def clash(a, b):
            return any(c in b for c in a)
        used = []

        def nextsep():
            for s in seps:
                if not any(clash(s, u) for u in used):
                    used.append(s)
                    seps.remove(s)
                    return s
            s = chr(0x2460 + len(used) + 60 * (self.k.get("level", 0) % 3))
            used.append(s)
            return s
        order = list(enumerate(fields))
        # an arbitrary-text field may only come last
        order.sort(key=lambda x: hastext(x[1]))
        if r.random() < 0.5:
            free = [x for x in order if not hastext(x[1])]
            r.shuffle(free)
            order = free + [x for x in order if hastext(x[1])]
        out = list(tag)
        if tag or r.random() < 0.5:
            out.append(nextsep())
        prev = None
        for j, (i, f) in enumerate(order):
            k = f.key(i)
            if f.opt:
                if prev is not None:
                    # text of its own ends the field in front
                    out.append(nextsep())
                f.fmt = [nextsep(), Var()] + ([nextsep()] if r.random() < 0.3 else [])
                out.append(Var(self.rawpath([k])[0], rawtext=self.rawpath([k])[1]))
                prev = f
                continue
            if prev is not None:
                out.append(nextsep())
            nested = getattr(f, "nested", None)
            if nested:
                part = []
                for q, p in enumerate(nested):
                    if q:
                        part.append(nextsep())
                    a, b = self.rawpath(p if f.own else [k] + p)
                    part.append(Var(a, rawtext=b))
                if f.own:
                    f.fmt = [nextsep()] * r.choice([0, 1]) + part + [nextsep()] * r.choice([0, 1])
                    a, b = self.rawpath([k])
                    part = [Var(a, rawtext=b)]
                out += part
            else:
                if f.fmt is not None:
                    f.fmt = [nextsep(), Var(), nextsep()]
                a, b = self.rawpath([k])
                out.append(Var(a, rawtext=b))
            prev = f
        if r.random() < 0.4:
            out.append(nextsep())
        return [x for x in out if x != ""]

    # ---------------- new expressions
    def add_new(self, d, u):
        """A constructor expression that changes and sometimes rejects the values."""
        r = self.r
        i = self.counter
        self.counter += 1
        names = [f.name if f.name is not None else "_%d" % j for j, f in enumerate(u.fields)]
        path = "Self" + ("::" + raw(u.name) if u is not d else "")
        kind = r.choice(["self", "opt", "opt", "res", "res2"])
        ret = {"self": "Self", "opt": "Option<Self>", "res": "Result<Self, &'static str>", "res2": "Result<Self, parse_display::ParseError>"}[kind]

        def build(vs):
            if u.shape == "named":
                return "%s { %s }" % (path, ", ".join(("%s: %s" % (raw(f.name), v)) if raw(f.name) != v or r.random() < .3 else v for f, v in zip(u.fields, vs)))
            return "%s(%s)" % (path, ", ".join(vs)) if u.shape == "tuple" else path

        def change(f, v):
            t = f.ty.rust
            if r.random() < 0.4:
                return v
            if f.ty in INTS:
                return "%s.wrapping_add(%d)" % (v, r.choice([1, 3]))
            if t == "bool":
                return "!%s" % v
            if t == "String":
                return "%s + \"~\"" % v
            return v

        def wrap(cond, val):
            no = {"opt": "None", "res": 'Err("no")', "res2": "Err(parse_display::ParseError::new())"}
            yes = {"opt": "Some(%s)", "res": "Ok(%s)", "res2": "Ok(%s)"}
            if kind == "self":
                return val
            return "vrt::either!(%s, %s, %s)" % (cond, no[kind], yes[kind] % val)
        order = list(range(len(names)))
        r.shuffle(order)
        params = ", ".join("%s: %s" % (raw(n), f.ty.rust) for n, f in zip(names, u.fields))
        if self.k.get("newfn") or r.random() < 0.5 or not names:
            # through a function, in an order of its own
            fn = "make_%d" % i
            ps = ", ".join("q%d: %s" % (j, u.fields[j].ty.rust) for j in order)
            vals = [change(f, "q%d" % j) for j, f in enumerate(u.fields)]
            cond = "vrt::rng::hash_str(&format!(\"%s%s\"%s)) %% 4 == 0" % ("{:?} " * len(names), r.randrange(64) if not names else "", "".join(", &q%d" % j for j in range(len(names))))
            d.items += "impl %s { fn %s(%s) -> %s { %s } }\n" % (d.name, fn, ps, ret, wrap(cond, build(vals)))
            expr = "Self::%s(%s)" % (fn, ", ".join(raw(names[j]) for j in order))
            call = "%s::%s(%s)" % (d.name, fn, ", ".join("{%d}" % j for j in order))
        else:
            vals = ["vrt::bump::<%s>(%s)" % (f.ty.rust, raw(n)) if (f.ty in INTS or f.ty.rust in ("bool", "String")) and r.random() < .5
                    else raw(n) for n, f in zip(names, u.fields)]
            expr = build(vals)
            if kind != "self":
                expr = {"opt": "vrt::some_of(%s)", "res": "vrt::some_of(%s).ok_or(\"no\")",
                        "res2": "vrt::some_of(%s).ok_or_else(parse_display::ParseError::new)"}[kind] % expr
                if r.random() < .3:
                    expr = "(%s)" % expr
            fn = "mirror_%d" % i
            d.items += "impl %s { fn %s(%s) -> %s { %s } }\n" % (d.name, fn, params, ret, expr)
            call = "%s::%s(%s)" % (d.name, fn, ", ".join("{%d}" % j for j in range(len(names))))
        u.new = New(expr, kind, call)

    # ---------------- fields of a unit
    def fields(self, shape, n):
        r = self.r
        names = uniq(r, self.k.get("fnames") or FNAMES, n) if shape == "named" else [None] * n
        fs = [self.field(nm, i == n - 1, shape) for i, nm in enumerate(names)]
        if self.k.roundtrip:
            # at most one field of arbitrary text
            seen = False
            for f in reversed(fs):
                if hastext(f):
                    if seen or f.opt:
                        f.ty = option(WORD) if f.opt else WORD
                        f.dwith = f.fwith = None
                        f.infer = False
                    seen = True
        for f in fs:
            if self.p("default", 0) and f.vty.default and not f.opt:
                f.default = True
                if r.random() < 0.5:
                    f.skip = True
                    f.nested = None
                    f.fmt = None
        return fs

    def nfields(self, lo=0):
        r = self.r
        x = r.random()
        if x < 0.03:
            return self.k.get("many", 12)
        return max(lo, r.choice([1, 1, 2, 2] if self.k.small else [1, 1, 2, 2, 2, 3, 3, 4, 5]))

    def struct(self, name):
        r = self.r
        shape = r.choice(["named", "named", "tuple"])
        n = self.nfields(1)
        d = Decl(name, "struct", shape=shape)
        self.setup(d)
        d.fields = self.fields(shape, n)
        if self.p("infer_all", 0) and all(self.can_infer(f) or f.fwith or f.dwith for f in d.fields):
            d.infer = True
        if n == 1 and r.random() < 0.4 and not getattr(d.fields[0], "nested", None) and not getattr(d.fields[0], "skip", False) \
                and not d.fields[0].opt:
            d.fmt = None
        elif self.k.roundtrip:
            d.fmt = self.rt_parts(d.fields, [])
        else:
            d.fmt = self.parts(d.fields)
        self.finish(d, d)
        if self.p("new", 0):
            self.add_new(d, d)
        return d

    def setup(self, d):
        if self.k.roundtrip:
            s = list(SEPS)
            random.Random(12345).shuffle(s)
            # levels of nesting use characters of their own
            level = self.k.get("level", 0)
            chars = sorted({c for x in s for c in x})
            mine = {c for i, c in enumerate(chars) if i % 3 == level % 3}
            self.seps = [x for x in s if all(c in mine for c in x) and not (self.k.lines and "\n" in x)]

    def finish(self, d, u):
        if self.p("decl_default", 0) and u is d:
            d.default = True
            for i, f in enumerate(d.fields):
                if not f.default and self.r.random() < 0.4 and not getattr(f, "skip", False):
                    pass
        # fields the format does not mention need a default
        if self.k.display_only:
            for f in u.fields:
                f.default = False
            return
        um_keys = mentioned(u.fmt if u.fmt is not None else (d.fmt if u is not d else None))
        for i, f in enumerate(u.fields):
            if f.key(i) not in um_keys and (u.fmt is not None or u is not d):
                if not (d.default and u is d):
                    f.default = True

    def variant(self, d, i, name, tags):
        r = self.r
        shape = r.choice(["unit", "unit", "named", "tuple", "tuple"])
        n = 0 if shape == "unit" else self.nfields(0 if r.random() < .1 else 1)
        v = Variant(name, shape=shape)
        v.style = r.choice(list(STYLES)) if self.p("vstyle", 0.15) else None
        v.fields = self.fields(shape, n) if n else []
        vname = styled(name, v.style or d.style)
        if self.p("ignore", 0):
            v.ignore = True
        if self.k.roundtrip:
            lvl = "Q"[:0]
            tag = [Var()] if r.random() < 0.5 else [r.choice(["", "k", "K-", "tag.", "x"]) + str(i) + "t"]
            text = vname if not isinstance(tag[0], str) else tag[0]
            k = 0
            while not text or any(text.startswith(t) or t.startswith(text) for t in tags):
                tag = ["%s%d_%d." % ("tK9#@"[k % 5], i, k)]
                text = tag[0]
                k += 1
            tags.append(text)
            if shape == "unit" or n == 0:
                v.fmt = tag if (isinstance(tag[0], str) or n == 0 and shape != "unit") else (None if r.random() < .5 else tag)
            else:
                v.fmt = self.rt_parts(v.fields, tag)
        else:
            if shape == "unit" and r.random() < 0.6:
                v.fmt = None
            else:
                v.fmt = self.parts(v.fields, True)
        self.finish(d, v)
        if self.p("new", 0):
            self.add_new(d, v)
        return v

    def enum(self, name):
        r = self.r
        d = Decl(name, "enum")
        self.setup(d)
        d.style = r.choice(list(STYLES)) if self.p("style", 0.35) else None
        n = r.choice([1, 2, 2, 3] if self.k.small else [1, 2, 3, 3, 4, 5, 6]) if r.random() > 0.04 else self.k.get("many", 12)
        names = uniq(r, self.k.get("vnames") or VNAMES, n, up=0.5)
        names = [nm if nm != "f0" else nm for nm in names]
        if self.k.roundtrip:
            # keep names distinct after any style
            seen, ok = set(), []
            for nm in names:
                key = "".join(c.lower() for c in nm if c != "_")
                if not any(key.startswith(s) or s.startswith(key) for s in seen):
                    seen.add(key)
                    ok.append(nm)
            names = ok
        tags = []
        if self.p("efmt", 0.12) and not self.k.roundtrip:
            return self.enum_level(d, names)
        d.variants = [self.variant(d, i, nm, tags) for i, nm in enumerate(names)]
        return d

    def enum_level(self, d, names):
        """format on the enum, used by the variants without one"""
        r = self.r
        shape = r.choice(["named", "tuple"])
        common = self.fields(shape, r.choice([0, 1, 1, 2, 3]))
        for f in common:
            f.skip, f.nested, f.default = False, None, False
            if f.ty.rust in NESTED:
                f.ty, f.fmt, f.regex, f.infer = WORD, None, None, False
            if f.vty.rust in NESTED:
                f.ty, f.opt, f.fmt, f.regex, f.infer = U32, False, None, None, False
        d.fmt = self.parts(common, True)
        keys = mentioned(d.fmt)
        tags = []
        import copy
        for i, nm in enumerate(names):
            if r.random() < 0.25:
                d.variants.append(self.variant(d, i, nm, tags))
                if d.variants[-1].fmt is None:
                    d.variants[-1].fmt = [Var(), self.lit()] if self.lit() else [Var()]
                continue
            if not keys and r.random() < 0.4:
                d.variants.append(Variant(nm, shape="unit"))
                continue
            fs = [copy.copy(f) for f in common]
            for f in fs:
                if r.random() < 0.4 and not (f.dwith or f.fwith or f.regex or f.infer) and f.vty.decl is None:
                    t = self.leaf_ty()
                    f.ty = option(t) if f.opt else t
                if r.random() < 0.3 and not f.opt:
                    f.fmt = [self.lit(), Var(), self.lit()] if r.random() < .5 else None
            if r.random() < 0.4:
                nf = Field("extra_field" if shape == "named" else None, self.leaf_ty(), default=not self.k.display_only)
                fs.append(nf)
            if shape == "named":
                r.shuffle(fs)
            for f in fs:
                if (f.name if shape == "named" else None) is not None and f.name not in keys and not self.k.display_only:
                    f.default, f.opt = True, False
                    if not f.ty.default or f.ty.inner is not None:
                        f.ty, f.dwith, f.fwith, f.regex, f.fmt, f.infer = U32, None, None, None, None, False
            if shape == "tuple" and not self.k.display_only:
                for j, f in enumerate(fs):
                    if str(j) not in keys:
                        f.default, f.opt = True, False
                        if not f.ty.default or f.ty.inner is not None:
                            f.ty, f.dwith, f.fwith, f.regex, f.fmt, f.infer = U32, None, None, None, None, False
            v = Variant(nm, fs, shape)
            v.style = r.choice(list(STYLES)) if self.p("vstyle", 0.15) else None
            d.variants.append(v)
        return d

    def decl(self, name=None):
        name = name or self.r.choice(TNAMES)
        return self.enum(name) if self.p("enum", 0.45) else self.struct(name)


def hastext(f):
    """the field's text can be anything"""
    return f.vty in (STRING, CHAR) or getattr(f.vty, "text", False)


def mentioned(parts):
    return {p.path[0] for p in (parts or []) if not isinstance(p, str) and p.path}
