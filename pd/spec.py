"""Declarations of types, their Rust source, and an independent reference model of their meaning.

Nothing here looks at what the macros generate: from one structured description we render (a) the
declaration with its attributes, (b) a plain-std writer for the text it should display and (c) a
matcher assembled by hand for the language it should parse.
"""
import random

KEYWORDS = set("""as break const continue dyn else enum extern false fn for if impl in let loop match mod
move mut pub ref return static struct trait true type unsafe use where while async await abstract become
box do final macro override priv typeof unsized virtual yield try gen""".split())


def raw(name):
    """Source text of an identifier."""
    return "r#" + name if name in KEYWORDS else name


def rawdecl(name, rng):
    """The same where the identifier is declared: any identifier may be written raw."""
    if rng is not None and name not in ("self", "Self", "super", "crate", "_") and rng.random() < .06:
        return "r#" + name
    return raw(name)


def rlit(s, rng=None):
    """A Rust string literal for s."""
    if rng is not None and rng.random() < 0.4 and "\r" not in s and "\0" not in s and s.isprintable():
        n = 0
        while '"' + "#" * n in s:
            n += 1
        return "r" + "#" * n + '"' + s + '"' + "#" * n
    out = ['"']
    for c in s:
        if c == "\n" and rng is not None and rng.random() < 0.3:
            out.append("\n")          # a literal line break is part of the string
        elif c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        elif c == "\r":
            out.append("\\r")
        elif ord(c) < 32 or 0x7F <= ord(c) < 0xA0 or ord(c) in (0x2028, 0x2029, 0xFEFF, 0x200E, 0x200F, 0x202A) \
                or 0x202A <= ord(c) <= 0x202E or 0x2066 <= ord(c) <= 0x2069:
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    out.append('"')
    return "".join(out)


def resc(s):
    """Regex that matches exactly the text s."""
    out = []
    for c in s:
        if c.isascii() and c.isalnum():
            out.append(c)
        elif c.isascii() and not c.isspace() and ord(c) > 32 and ord(c) != 0x7F:
            out.append("\\x{%X}" % ord(c))
        else:
            out.append("\\x{%X}" % ord(c))
    return "".join(out)


# ---------------------------------------------------------------- types
class Ty:
    def __init__(self, rust, kind=None, infer=None, clean=False, nonempty=False, decl=None,
                 default=True, inner=None, sample=None):
        self.rust, self.kind, self.infer = rust, kind or "s", infer
        self.clean, self.nonempty, self.decl = clean, nonempty, decl
        self.default, self.inner, self.sample = default, inner, sample


UINT, SINT = "[0-9]+", "-?[0-9]+"
FLT = r"(?:[+\-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+\-]?[0-9]+)?|[+\-]?[iI][nN][fF]|[nN][aA][nN])"
ANY = "(?s:.*?)"
U8, U16, U32, U64, U128, USIZE = [Ty(t, t, UINT, True, True) for t in "u8 u16 u32 u64 u128 usize".split()]
I8, I16, I32, I64, I128, ISIZE = [Ty(t, t, SINT, True, True) for t in "i8 i16 i32 i64 i128 isize".split()]
F64 = Ty("f64", "f64", FLT, True, True)
F32 = Ty("f32", "f32", FLT, True, True)
BOOL = Ty("bool", "bool", "(?:true|false)", True, True)
CHAR = Ty("char", "char", "(?s:.)", False, True, default=True)
STRING = Ty("String", "String", ANY)
WORD = Ty("Word", "Word", None, True)
LINES = Ty("Lines", "Lines", None, True)
NZU8 = Ty("std::num::NonZero<u8>", "u8", UINT, True, True, default=False)
NZI32 = Ty("std::num::NonZeroI32", "i32", SINT, True, True, default=False)
# shapes with fields to reach into (defined in vrt); they have no Display of their own
INNER = Ty("Inner", "s", None)
TUP = Ty("Tup", "s", None)
DEEP = Ty("Deep", "s", None)
INNERL = Ty("InnerL", "s", None)
NESTED = {
    "InnerL": [(["n"], U8), (["l"], LINES), (["m"], LINES)],
    "Inner": [(["a"], U32), (["b"], WORD), (["type"], U8)],
    "Tup": [(["0"], U8), (["1"], WORD), (["2", "a"], U32), (["2", "b"], WORD), (["2", "type"], U8)],
    "Deep": [(["i", "a"], U32), (["i", "type"], U8), (["t", "0"], U8), (["t", "2", "b"], WORD),
             (["t", "2", "a"], U32), (["n"], I64), (["t", "1"], WORD)],
}
INTS = [U8, U16, U32, U64, U128, USIZE, I8, I16, I32, I64, I128, ISIZE]
LEAVES = INTS + [F64, F32, BOOL, CHAR, STRING, WORD, WORD, LINES, U32, I32]
CLEAN = INTS + [F64, F32, BOOL, WORD, WORD, U32, I32, NZU8, NZI32]


def option(t):
    return Ty("Option<%s>" % t.rust, t.kind, None, inner=t)


class With:
    """A formatter: expression, value type, pattern (None = anything)."""
    def __init__(self, expr, ty, pat, sample=None, nonempty=False, clean=False, mexpr=None):
        self.expr, self.ty, self.pat = expr, ty, pat
        self.mexpr = mexpr or expr       # what the model uses in its place
        self.sample, self.nonempty, self.clean = sample or pat, nonempty, clean


HEX = With("Hex", U32, "[0-9a-f]+", nonempty=True, clean=True)
PLUS1 = With("Plus1", I32, None, sample="-?[0-9]+", nonempty=True, clean=True)
BRK = lambda t: With("Brk", t, "<[^<>]*>", nonempty=True)
YESNO = With("YesNo", BOOL, "(?:yes|no)", nonempty=True, clean=True)
GRP = With("Grp", U16, r"(?:\d+(?:k|m))", sample="[0-9]{1,5}(?:k|m)", nonempty=True, clean=True)
FLG = With("Flg", WORD, "[A-Za-z\u017F\u212A]*", sample="[A-Z]*", clean=True)
OLD = With("OldRegex", WORD, "[a-z]*!", nonempty=True)
ANYP = lambda t: With("AnyPat", t, None)
REP3 = With("REP3", U8, "[0-9]+_[0-9]+_[0-9]+", sample="(?:7_7_7|0_0_0|255_255_255|12_12_12|1_2_3)", nonempty=True)
REP2 = With("rep(2)", U8, "[0-9]+_[0-9]+", sample="(?:7_7|0_0|255_255|12_12|1_2)", nonempty=True)
GREEDY = With("Greedy", STRING, "(?s:.*)")
DOT = With("DotPat", STRING, ".+?")


def withs_for(t):
    r = [w for w in (HEX, PLUS1, YESNO, GRP, FLG, OLD, REP3, REP2, GREEDY, DOT) if w.ty.rust == t.rust]
    if t.decl is None and t.rust not in NESTED and t.inner is None:
        r += [BRK(t), ANYP(t)]
    return r


# ---------------------------------------------------------------- formats
class Var:
    def __init__(self, path="", spec="", rawtext=None):
        """path: key path as a list (names without r#); rawtext: how it is written, if special."""
        self.path = [] if path == "" else (path if isinstance(path, list) else path.split("."))
        self.spec = spec
        self.rawtext = rawtext

    def src(self):
        t = self.rawtext if self.rawtext is not None else ".".join(self.path)
        return "{" + t + (":" + self.spec if self.spec else "") + "}"


def fmt_src(parts):
    return "".join(p.replace("{", "{{").replace("}", "}}") if isinstance(p, str) else p.src() for p in parts)


TRAIT_LETTERS = ("x?", "X?", "?", "o", "x", "X", "p", "b", "e", "E")


def spec_trait(spec):
    """Trailing trait of a spec (the generator never uses fills that could confuse this)."""
    for t in TRAIT_LETTERS:
        if spec.endswith(t) and not (len(spec) > len(t) and False):
            return t
    return ""


class Field:
    def __init__(self, name, ty, fmt=None, opt=False, dwith=None, fwith=None, regex=None, infer=False,
                 default=False, mregex=None, extra_attrs=()):
        self.name, self.ty, self.fmt, self.opt = name, ty, fmt, opt
        self.dwith, self.fwith, self.regex, self.infer, self.default = dwith, fwith, regex, infer, default
        self.mregex = mregex            # for a regex with captures: how the model sees it
        self.extra_attrs = list(extra_attrs)

    @property
    def vty(self):
        return self.ty.inner if self.opt else self.ty

    def key(self, i):
        return self.name if self.name is not None else str(i)


class Regex:
    """A custom regex: src is what the user writes; model(take) renders the reference pattern, where
    take(path) gives the group name for a capture ("" path = variant name text)."""
    def __init__(self, src, model):
        self.src, self.model = src, model


class New:
    """A `new` expression; call is the same construction as an ordinary call with {i} for the fields."""
    def __init__(self, expr, kind, call):
        self.expr, self.kind, self.call = expr, kind, call

    def model(self, d, u, args):
        e = self.call.format(*args)
        if self.kind == "self":
            return "Ok(%s)" % e
        return "%s.%s" % (e, "ok_or(Bad::Rejected)" if self.kind == "opt" else "map_err(|_| Bad::Rejected)")


def member(k):
    return k if k.isdigit() else "r#" + k if k not in ("self", "Self", "super", "crate", "_") else k


def path_expr(path):
    return "".join("." + member(k) for k in path)


# ---------------------------------------------------------------- styles (independent of the library's loop)
STYLES = {
    "none": None,
    "lowercase": ("l", "l", "l", ""), "UPPERCASE": ("u", "u", "u", ""),
    "snake_case": ("l", "l", "l", "_"), "SNAKE_CASE": ("u", "u", "u", "_"),
    "camelCase": ("l", "u", "l", ""), "CamelCase": ("u", "u", "l", ""),
    "kebab-case": ("l", "l", "l", "-"), "KEBAB-CASE": ("u", "u", "u", "-"),
    "Title Case": ("u", "u", "l", " "), "TITLE CASE": ("u", "u", "u", " "),
    "title case": ("l", "l", "l", " "), "Title case": ("u", "l", "l", " "),
}


def is_up(c):
    return "A" <= c <= "Z"


def words(ident):
    """Words begin after a separator and at an ASCII capital that does not follow an ASCII capital."""
    ws, prev, fresh = [], None, True
    for c in ident:
        if c == "_":
            fresh = True
            continue
        assert c.isalnum(), ident
        if fresh or (is_up(c) and not (prev is not None and is_up(prev))):
            ws.append(c)
        else:
            ws[-1] += c
        fresh, prev = False, c
    return ws


def acase(c, how):
    if c.isascii():
        return c.upper() if how == "u" else c.lower()
    return c


def styled(ident, style):
    st = STYLES[style or "none"]
    if st is None:
        return ident
    line, word, rest, sep = st
    out = []
    for i, w in enumerate(words(ident)):
        head = line if i == 0 else word
        out.append(acase(w[0], head) + "".join(acase(c, rest) for c in w[1:]))
    return sep.join(out)


# ---------------------------------------------------------------- declarations
class Variant:
    def __init__(self, name, fields=(), shape="unit", fmt=None, style=None, regex=None, ignore=False, new=None,
                 infer=False, default=False, default_fields=()):
        self.name, self.fields, self.shape = name, list(fields), shape
        self.fmt, self.style, self.regex, self.ignore, self.new = fmt, style, regex, ignore, new
        self.infer, self.default, self.default_fields = infer, default, list(default_fields)


class Decl:
    def __init__(self, name, kind, fields=(), shape="named", variants=(), fmt=None, style=None, regex=None,
                 new=None, infer=False, default=False, default_fields=(), display=True, from_str=True,
                 crate=None, extra="", derives=("Debug",), items=""):
        self.name, self.kind, self.fields, self.shape = name, kind, list(fields), shape
        self.variants, self.fmt, self.style, self.regex = list(variants), fmt, style, regex
        self.new, self.infer, self.default = new, infer, default
        self.default_fields, self.display, self.from_str = list(default_fields), display, from_str
        self.crate, self.extra, self.derives, self.items = crate, extra, derives, items

    # ---- as a field type of another declaration
    def as_ty(self):
        res = self.samples() if self.from_str else []
        return Ty(self.name, "s", None, decl=self, default=self.default,
                  sample="(?:" + "|".join("(?:%s)" % r for r in res) + ")" if res else None)

    def units(self):
        return self.variants if self.kind == "enum" else [self]

    def patterns(self):
        """(model pattern without names) of each parsed unit, in declaration order."""
        out = []
        for u in self.units():
            if getattr(u, "ignore", False):
                continue
            out.append(UnitModel(self, u).pattern())
        return out

    def infer_pattern(self):
        ps = self.patterns()
        if not ps:
            return "[a&&b]"          # nothing is accepted
        return "(?:" + "|".join("(?:%s)" % strip_names(p) for p in ps) + ")"

    def samples(self):
        out = []
        for u in self.units():
            if getattr(u, "ignore", False):
                continue
            out.append(UnitModel(self, u).sample)
        return out


def strip_names(p):
    out, i = [], 0
    while i < len(p):
        if p.startswith("(?<g", i) and not esc_before(p, i):
            j = p.index(">", i)
            out.append("(?:")
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


FRESH = [0]


def fresh(p):
    """The same pattern with group names of its own."""
    out, i = [], 0
    while i < len(p):
        if p.startswith("(?<g", i) and not esc_before(p, i):
            FRESH[0] += 1
            out.append("(?<g%dq" % FRESH[0])
            i += 4
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


def esc_before(p, i):
    n = 0
    while i - n - 1 >= 0 and p[i - n - 1] == "\\":
        n += 1
    return n % 2 == 1


class UnitModel:
    """Language and construction of a struct or one variant."""
    def __init__(self, decl, unit):
        self.decl, self.unit = decl, unit
        self.n = 0
        self.cap, self.deep = {}, {}
        self.fields = unit.fields
        self.index = {f.key(i): (i, f) for i, f in enumerate(self.fields)}
        self.is_variant = unit is not decl
        self.literal = ""          # exact text while the format is constant
        self.m, self.s = [], []
        self.vname = styled(unit.name, unit.style or decl.style) if self.is_variant else None
        self.build()
        self.sample = "".join(self.s)

    def pattern(self):
        return "".join(self.m)

    def emit(self, m, s=None):
        self.m.append(m)
        self.s.append(m if s is None else s)

    def lit(self, t):
        if self.literal is not None:
            self.literal += t
        self.emit(resc(t))

    def group(self, path, kind):
        k = path[0]
        assert k in self.index, (k, list(self.index))
        self.n += 1
        g = "g%d_%s" % (self.n, kind)
        if len(path) == 1:
            assert k not in self.cap, "duplicate capture"
            self.cap[k] = g
        else:
            d = self.deep.setdefault(k, {})
            assert tuple(path[1:]) not in d, "duplicate capture"
            d[tuple(path[1:])] = g
        return g

    def build(self):
        u, d = self.unit, self.decl
        if u.regex is not None:
            return self.custom(u.regex)
        if u.fmt is not None:
            return self.fmt(u.fmt)
        if self.is_variant:
            if d.regex is not None:
                return self.custom(d.regex)
            if d.fmt is not None:
                return self.fmt(d.fmt)
            assert not self.fields, "no format"
            return self.lit(self.vname)
        assert len(self.fields) == 1, "no format"
        self.field(self.fields[0].key(0))

    def nested_ty(self, path):
        f = self.index[path[0]][1]
        for p, t in NESTED.get(f.vty.rust, []):
            if p == path[1:]:
                return t
        return None

    def deep_group(self, path):
        t = self.nested_ty(path)
        g = self.group(path, t.kind if t else "s")
        self.emit("(?<%s>%s)" % (g, ANY))

    def custom(self, rx):
        self.literal = None

        def take(path):
            if path == []:
                assert self.is_variant
                return None
            if len(path) == 1:
                f = self.index[path[0]][1]
                return self.group(path, f.vty.kind)
            t = self.nested_ty(path)
            return self.group(path, t.kind if t else "s")
        p = rx.model(take, self.vname)
        self.emit("(?:%s)" % p)

    def fmt(self, parts):
        for p in parts:
            if isinstance(p, str):
                self.lit(p)
            elif not p.path:
                assert self.is_variant, "{} in struct"
                self.lit(self.vname)
            elif len(p.path) == 1:
                self.field(p.path[0])
            else:
                self.literal = None
                self.deep_group(p.path)

    def value_pattern(self, f):
        """pattern and sampling pattern of the field's own text (no regex attribute)"""
        t = f.vty
        w = f.fwith or f.dwith
        if w is not None:
            return (w.pat or ANY), (w.sample or None)
        infer = f.infer or self.decl.infer or (self.is_variant and self.unit.infer)
        if infer:
            pat = t.decl.infer_pattern() if t.decl is not None else t.infer
            assert pat is not None, "no pattern for " + t.rust
            return pat, t.sample
        return ANY, t.sample

    def field(self, key):
        self.literal = None
        f = self.index[key][1]
        if f.opt:
            self.emit("(?:")
        self.field_body(key, f)
        if f.opt:
            self.emit(")??")

    def own(self, key, f, pat, sample):
        g = self.group([key], f.vty.kind if (f.fwith or f.dwith) is None else "s")
        self.emit("(?<%s>%s)" % (g, pat), "(?<%s>%s)" % (g, fresh(sample) if sample else pat))

    def field_body(self, key, f):
        if f.mregex is not None:
            def take(path):
                return self.group([key] + path, f.vty.kind if not path else "s")
            self.emit("(?:%s)" % f.mregex.model(take, None))
            return
        own = None
        if f.regex is not None:
            if f.fmt is not None:
                own = ("(?s:%s)" % f.regex, None)
            else:
                own = ("(?:%s)" % f.regex, None)
        elif f.fmt is None or any(not isinstance(p, str) and not p.path for p in f.fmt):
            own = self.value_pattern(f)
        if f.fmt is None:
            return self.own(key, f, *own)
        for p in f.fmt:
            if isinstance(p, str):
                self.emit(resc(p))
            elif not p.path:
                self.own(key, f, *own)
            else:
                self.deep_group([key] + p.path)

    # ---- Rust code of the model
    def code(self, fname):
        d, u = self.decl, self.unit
        ctor = d.name + ("::" + raw(u.name) if self.is_variant else "")
        o = ["pub fn %s(s: &str) -> MR<%s> {" % (fname, d.name)]
        if self.literal is not None:
            o.append("    if s != %s { return Err(Bad::NoMatch); }" % rlit(self.literal))
            if any(f for f in self.fields):
                pass
        else:
            o.append("    let c = caps(%s, s)?;" % rlit("\\A(?:" + self.pattern() + ")\\z"))
            o.append("    let mut e = Vec::new();")
        named = []
        for i, f in enumerate(self.fields):
            k = f.key(i)
            if k in self.cap:
                w = f.fwith or f.dwith
                opt = "leaf_opt" if f.opt else "leaf"
                if w is not None:
                    call = "%s_by(&c, %s, %s, &mut e, wparse(%s))" % (opt, rlit(self.cap[k]), rlit(k), w.mexpr)
                elif f.vty.decl is not None:
                    call = "%s_by(&c, %s, %s, &mut e, |s| model_%s(s).ok())" % (opt, rlit(self.cap[k]), rlit(k), f.vty.decl.name)
                else:
                    call = "%s(&c, %s, %s, &mut e)" % (opt, rlit(self.cap[k]), rlit(k))
                o.append("    let f%d: Option<%s> = %s;" % (i, f.ty.rust, call))
            for j, (p, g) in enumerate(self.deep.get(k, {}).items()):
                o.append("    let d%d_%d = leaf(&c, %s, %s, &mut e);" % (i, j, rlit(g), rlit(".".join((k,) + p))))
        if self.literal is None:
            o.append("    done(e)?;")
        if d.default and not self.is_variant and d.new is None:
            o.append("    let mut v = <%s as Default>::default();" % d.name)
            for i, f in enumerate(self.fields):
                k = f.key(i)
                if k in self.cap:
                    o.append("    v.%s = f%d.unwrap();" % (member(k), i))
                elif f.default or k in d.default_fields:
                    o.append("    v.%s = <%s as Default>::default();" % (member(k), f.ty.rust))
                for j, p in enumerate(self.deep.get(k, {})):
                    o.append("    v.%s%s = d%d_%d.unwrap();" % (member(k), path_expr(p), i, j))
            o.append("    Ok(v)\n}")
            return "\n".join(o)
        for i, f in enumerate(self.fields):
            k = f.key(i)
            dl = self.deep.get(k, {})
            mut = "mut " if dl else ""
            if k in self.cap:
                o.append("    let %sv%d = f%d.unwrap();" % (mut, i, i))
            else:
                assert f.default or k in d.default_fields or k in u.default_fields, "field %s not provided" % k
                o.append("    let %sv%d = <%s as Default>::default();" % (mut, i, f.ty.rust))
            for j, p in enumerate(dl):
                o.append("    v%d%s = d%d_%d.unwrap();" % (i, path_expr(p), i, j))
        new = u.new
        args = ["v%d" % i for i in range(len(self.fields))]
        if new is not None:
            o.append("    " + new.model(d, u, args))
        elif u.shape == "named":
            o.append("    Ok(%s { %s })" % (ctor, ", ".join("%s: %s" % (member(f.name), a) for f, a in zip(self.fields, args))))
        elif u.shape == "tuple":
            o.append("    Ok(%s(%s))" % (ctor, ", ".join(args)))
        else:
            o.append("    Ok(%s)" % ctor)
        o.append("}")
        return "\n".join(o)


# ---------------------------------------------------------------- rendering
def attr_list(rng, disp, fs):
    """Distributes the arguments over one or more attributes in some order."""
    out = []

    def chunks(name, args):
        args = list(args)
        if not args:
            return
        if rng.random() < 0.25 and len(args) > 1:
            k = rng.randrange(1, len(args))
            # an unnamed format must come first in its attribute
            for part in (args[:k], args[k:]):
                out.append("#[%s(%s)]" % (name, ", ".join(part)))
        else:
            out.append("#[%s(%s)]" % (name, ", ".join(args)))
    chunks("display", disp)
    chunks("from_str", fs)
    if rng.random() < 0.4:
        rng.shuffle(out)
    return [y for x in out for y in dress(rng, x)]


def dress(rng, attr):
    """The same attribute in other clothes, perhaps with attributes that mean nothing around it."""
    x = rng.random()
    if x < .8:
        return [attr]
    inner = attr[2:-1]
    if x < .85:
        return ["#[cfg_attr(all(), %s)]" % inner]
    if x < .88:
        i = inner.index("(")
        o, c = rng.choice(["[]", "{}"])
        return ["#[%s%s%s%s]" % (inner[:i], o, inner[i + 1:-1], c)]
    if x < .9:
        return ["#[ %s ,) ]" % inner[:-1]]
    if x < .94:
        return [attr, rng.choice(IDLE)]
    if x < .97:
        return [rng.choice(IDLE), attr]
    return [rng.choice(["#[cfg_attr(any(), display(\"{nowhere} %s\"))]", "#[cfg_attr(any(), from_str(regex = \"(?<nowhere>%s\", default, ignore))]"]) % rng.randint(0, 9), attr]


# attributes that say nothing to the derives
IDLE = ['#[doc = "{not} a format {"]', "/// display(\"{0}\")\n", "#[allow(dead_code)]", "#[cfg(all())]", "#[allow(unused, clippy::all)]", "/** from_str(ignore) */"]


def named_args(rng, pos, named):
    named = list(named)
    if rng.random() < 0.4:
        rng.shuffle(named)
    return ([pos] if pos is not None else []) + named


def field_attrs(f, rng, fromstr=True):
    pos = rlit(fmt_src(f.fmt), rng) if f.fmt is not None else None
    d = []
    if f.opt:
        d.append("opt")
    if f.dwith is not None:
        d.append("with = " + f.dwith.expr)
    fs = []
    if fromstr:
        if f.fwith is not None:
            fs.append("with = " + f.fwith.expr)
        if f.regex is not None:
            fs.append("regex = " + rlit(f.regex, rng))
        if f.mregex is not None:
            fs.append("regex = " + rlit(f.mregex.src, rng))
        if f.infer:
            fs.append("regex_infer")
        if f.default:
            fs.append("default")
        if rng.random() < 0.3:
            rng.shuffle(fs)
    return attr_list(rng, named_args(rng, pos, d), fs) + f.extra_attrs


def unit_attrs(u, rng, fromstr=True, crate=None):
    pos = rlit(fmt_src(u.fmt), rng) if u.fmt is not None else None
    d = []
    if u.style is not None:
        d.append("style = " + rlit(u.style, rng))
    if crate is not None:
        d.append("crate = " + crate)
    fs, extra = [], []
    if fromstr:
        if u.regex is not None:
            fs.append("regex = " + rlit(u.regex.src, rng))
        if u.infer:
            fs.append("regex_infer")
        if u.default:
            fs.append("default")
        if u.default_fields:
            items = [rlit(x) if rng.random() < .3 and not x.isdigit() else raw(x) for x in u.default_fields]
            if len(items) > 1 and rng.random() < .4:
                k = rng.randrange(1, len(items))
                extra = ["#[from_str(default_fields(%s))]" % ", ".join(items[k:])]
                items = items[:k]
            fs.append("default_fields(%s)" % ", ".join(items))
        if getattr(u, "ignore", False):
            fs.append("ignore")
        if u.new is not None:
            fs.append("new = " + u.new.expr)
        if rng.random() < (.95 if getattr(u, "shuffle_attrs", False) else .3):
            rng.shuffle(fs)
    at = attr_list(rng, named_args(rng, pos, d), fs)
    return extra + at if extra and rng.random() < .5 else at + extra


VIS = ["pub "] * 7 + ["pub(crate) ", "pub(super) ", "pub(in crate) "]


def render_fields(u, rng, indent, vis, fromstr):
    o = []
    if u.shape == "named":
        o.append(" {")
        for f in u.fields:
            if rng.random() < .02:
                o.append(indent + '    #[cfg(any())] #[display("{gone}")] gone: Nothing,')
            for a in field_attrs(f, rng, fromstr):
                o.append(indent + "    " + a)
            o.append(indent + "    %s%s: %s," % (rng.choice(VIS) if vis else "", rawdecl(f.name, rng), f.ty.rust))
        o.append(indent + "}")
    elif u.shape == "tuple":
        o.append("(")
        for f in u.fields:
            for a in field_attrs(f, rng, fromstr):
                o.append(indent + "    " + a)
            o.append(indent + "    %s%s," % (rng.choice(VIS) if vis else "", f.ty.rust))
        o.append(indent + ")")
    return "\n".join(o)


def render_decl(d, rng):
    o = []
    ders = list(d.derives)
    if d.display:
        ders.insert(0, "Display")
    if d.from_str:
        ders.insert(rng.randrange(len(ders) + 1), "FromStr")
    o.append("#[derive(%s)]" % ", ".join(ders))
    o += unit_attrs(d, rng, d.from_str, d.crate)
    if d.kind == "struct":
        body = render_fields(d, rng, "", "pub ", d.from_str)
        o.append("pub struct %s%s%s" % (rawdecl(d.name, rng), body, "" if d.shape == "named" else ";"))
    else:
        disc = d.variants and all(v.shape == "unit" for v in d.variants) and rng.random() < .15
        at = 0
        if disc and rng.random() < .5:
            o.append("#[repr(i32)]")
        o.append("pub enum %s {" % rawdecl(d.name, rng))
        for v in d.variants:
            if rng.random() < .02:
                o.append('    #[cfg(any())] #[display("{gone}")] Gone(Nothing),')
            for a in unit_attrs(v, rng, d.from_str):
                o.append("    " + a)
            eq = ""
            if disc and rng.random() < .7:
                at += rng.randint(0 if v is not d.variants[0] else -9, 5)
                eq = " = %s" % (at if rng.random() < .7 else "[%d, 0][{ struct T; 0 }]" % at)
            at += 1
            o.append("    %s%s%s," % (rawdecl(v.name, rng), render_fields(v, rng, "    ", "", d.from_str), eq))
        o.append("}")
    if d.items:
        o.append(d.items)
    return "\n".join(o)


def ctor_expr(d, u, args):
    c = d.name + ("::" + raw(u.name) if u is not d else "")
    if u.shape == "named":
        return "%s { %s }" % (c, ", ".join("%s: %s" % (member(f.name), a) for f, a in zip(u.fields, args)))
    if u.shape == "tuple":
        return "%s(%s)" % (c, ", ".join(args))
    return c


def render_arb(d):
    o = ["impl Arb for %s {" % d.name, "    #[allow(unused_variables)]", "    fn arb(r: &mut Rng) -> Self {"]
    if d.kind == "struct":
        o.append("        %s" % ctor_expr(d, d, ["Arb::arb(r)"] * len(d.fields)))
    elif not d.variants:
        o.append("        unreachable!()")
    else:
        o.append("        match r.below(%d) {" % len(d.variants))
        for i, v in enumerate(d.variants):
            o.append("            %s => %s," % ("_" if i == len(d.variants) - 1 else i, ctor_expr(d, v, ["Arb::arb(r)"] * len(v.fields))))
        o.append("        }")
    o.append("    }\n}")
    if d.default:
        o.append("impl Default for %s { fn default() -> Self { <%s as Arb>::arb(&mut Rng::new(%d)) } }" % (d.name, d.name, len(d.name) * 7919 + len(d.fields)))
    return "\n".join(o)


class Shower:
    """Plain-std code that writes what should be displayed into the String `o`."""
    def __init__(self, d):
        self.d = d

    def render(self):
        d = self.d
        o = ["#[allow(unused_mut, unused_variables, unused_must_use)]", "pub fn show_%s(the_v: &%s) -> String {" % (d.name, d.name),
             "    use std::fmt::Write as _;", "    let mut o = String::new();"]
        if d.kind == "struct":
            self.places = {f.key(i): "the_v.%s" % member(f.key(i)) for i, f in enumerate(d.fields)}
            o += self.unit(d)
        elif not d.variants:
            o.append("    match *the_v {}")
        else:
            o.append("    match the_v {")
            for v in d.variants:
                self.places = {f.key(i): "(*m%d)" % i for i, f in enumerate(v.fields)}
                o.append("        %s => {" % ctor_pat(d, v))
                o += ["        " + x for x in self.unit(v)]
                o.append("        }")
            o.append("    }")
        o.append("    o\n}")
        return "\n".join(o)

    def unit(self, u):
        d = self.d
        parts = u.fmt
        variant = u is not d
        if parts is None and variant:
            parts = d.fmt
        if parts is None:
            if variant:
                assert not u.fields
                parts = [Var("")]
            else:
                assert len(u.fields) == 1
                parts = [Var([u.fields[0].key(0)])]
        index = {f.key(i): f for i, f in enumerate(u.fields)}
        o = []
        for p in parts:
            if isinstance(p, str):
                o.append("    o.push_str(%s);" % rlit(p))
            elif not p.path:
                if spec_trait(p.spec):
                    o.append("    write!(o, %s, the_v);" % rlit("{:%s}" % p.spec))
                else:
                    assert variant
                    o.append("    write!(o, %s, %s);" % (rlit("{:%s}" % p.spec if p.spec else "{}"), rlit(styled(u.name, u.style or d.style))))
            elif len(p.path) == 1:
                o += self.field(index[p.path[0]], self.places[p.path[0]], p.spec)
            else:
                o.append("    write!(o, %s, %s%s);" % (rlit("{:%s}" % p.spec), self.places[p.path[0]], path_expr(p.path[1:])))
        return o

    def field(self, f, place, spec):
        if f.opt:
            return ["    if let Some(x) = &%s {" % place] + ["    " + x for x in self.value(f, "(*x)", spec)] + ["    }"]
        return self.value(f, place, spec)

    def value(self, f, place, spec):
        if f.fmt is None:
            return [self.one(f, place, spec)]
        o = []
        for p in f.fmt:
            if isinstance(p, str):
                o.append("    o.push_str(%s);" % rlit(p))
            elif not p.path:
                o.append(self.one(f, place, p.spec))
            else:
                o.append("    write!(o, %s, %s%s);" % (rlit("{:%s}" % p.spec), place, path_expr(p.path)))
        return o

    def one(self, f, place, spec):
        lit = rlit("{:%s}" % spec if spec else "{}")
        if f.dwith is not None:
            to = "::<%s, _>" % f.dwith.ty.rust if getattr(f, "ptr", None) else ""
            return "    write!(o, %s, Ws%s(&%s, &%s));" % (lit, to, place, f.dwith.mexpr)
        if f.vty.decl is not None and not spec_trait(spec):
            return "    o.push_str(&show_%s(&%s));" % (f.vty.decl.name, place)
        if spec_trait(spec) == "p":
            return "    write!(o, %s, %s);" % (lit, place)
        return "    write!(o, %s, &%s);" % (lit, place)


def ctor_pat(d, v):
    return ctor_expr(d, v, ["m%d" % i for i in range(len(v.fields))])


def render_model(d):
    if d.kind == "struct":
        return UnitModel(d, d).code("model_%s" % d.name)
    out, lits, pats = [], [], []
    for i, v in enumerate(d.variants):
        if v.ignore:
            continue
        um = UnitModel(d, v)
        fn = "model_%s__v%d" % (d.name, i)
        out.append("#[allow(unused_variables, dead_code)]\n" + um.code(fn))
        (lits if um.literal is not None else pats).append(fn)
    o = ["#[allow(unused_mut)]", "pub fn model_%s(s: &str) -> MR<%s> {" % (d.name, d.name), "    let mut bad = Bad::NoMatch;"]
    for fn in lits + pats:
        o.append("    match %s(s) { Ok(the_v) => return Ok(the_v), Err(Bad::NoMatch) => {} Err(b) => bad = b }" % fn)
    o.append("    Err(bad)\n}")
    return "\n".join(out + ["\n".join(o)])


class CaseSrc:
    """One case: a Rust module with a `CASE` constant (or a `run(&mut Mon)` function)."""
    def __init__(self, id, body, tail, note=""):
        self.id, self.body, self.tail, self.note = id, body, tail, note
        self.tags = set()

    def source(self):
        return self.body + "\n" + self.tail


def make_case(id, decls, rng, show=True, parse=True, roundtrip=False, regex=False, values=12, strings=48,
              extra=(), tags=(), hostile=0):
    """decls: inner types first, the type under test last."""
    d = decls[-1]
    body = []
    for x in decls:
        body.append(render_decl(x, rng))
        body.append(render_arb(x))
        if x.display:
            body.append(Shower(x).render())
        if x.from_str:
            body.append(render_model(x))
    res = d.samples() if d.from_str else []
    cost = sum(len(x) for x in res)
    if cost > 1500:
        strings = max(24, strings * 1500 // cost)
    t = ["pub const CASE: Case = Case {", "    id: %s," % rlit(id)]
    if show and d.display:
        t.append("    show: Some(|r| shown::<%s>(r, <%s as Arb>::arb, show_%s))," % (d.name, d.name, d.name))
    if parse and d.from_str:
        t.append("    parse: Some(parsed::<%s>)," % d.name)
        t.append("    model: Some(|s| modelled(s, model_%s))," % d.name)
    t.append("    is_enum: %s," % ("true" if d.kind == "enum" else "false"))
    t.append("    res: &[%s]," % ", ".join(rlit(r) for r in res))
    t.append("    extra: &[%s]," % ", ".join(rlit(r) for r in extra))
    t.append("    roundtrip: %s, values: %d, strings: %d," % ("true" if roundtrip else "false", values, strings))
    if hostile:
        t.append("    hostile: %d," % hostile)
    if regex:
        t.append("    regex: Some(<%s as parse_display::FromStrRegex>::from_str_regex)," % d.name)
    t.append("    ..Case::BASE\n};")
    t.append("pub fn run(m: &mut Mon) { drive(m, &CASE); }")
    c = CaseSrc(id, "\n".join(body), "\n".join(t))
    c.tags = set(tags)
    c.name = d.name
    return c
