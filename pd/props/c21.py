"""Observes the compiler on declarations made invalid by one fault each, and on the same declarations without it."""
from corpora import *
import copy

RULE = ("A case is a random declaration with one fault put into it (malformed or missing format, unknown name, style, regex, capture, misplaced attribute, ...), derived with Display, FromStr or both. "
        "The compiler's messages are recorded: the faulty declaration must get an error located in it, its twin without the fault none. Non-trivial: distinct (fault, source text).")

MODPRE21 = """#[allow(unused_imports)] use vrt::*; use parse_display::{Display, FromStr};
pub struct Plain;
impl std::fmt::Debug for Plain { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("") } }
#[derive(Display, Debug)] #[display("")] pub struct OnlyD;
#[derive(FromStr, Default, Debug)] #[display("")] pub struct OnlyF;"""
NODISP = Ty("Plain", "s", default=False)


class Bad:
    """a piece of format source"""
    def __init__(self, text):
        self.text, self.path = text, []

    def src(self):
        return self.text


def used_units(d, der):
    return [u for u in d.units() if not ("F" in der and getattr(u, "ignore", False))]


def fmt_hosts(d, der):
    """(owner, unit) of formats that the derives read: types, variants, fields that a format mentions"""
    out = []
    if d.fmt is not None:
        out.append((d, d if d.kind == "struct" else None))
    for u in used_units(d, der):
        if u is not d and u.fmt is not None:
            out.append((u, u))
    return out


def active_fmt(d, u):
    return u.fmt if u.fmt is not None else d.fmt


def used_fields(d, der, pred=lambda f: True):
    out = []
    for u in used_units(d, der):
        ks = mentioned(active_fmt(d, u))
        vs = [p for p in (active_fmt(d, u) or []) if not isinstance(p, str) and len(p.path) == 1]
        for i, f in enumerate(u.fields):
            plain = any(p.path[0] == f.key(i) for p in vs) or (active_fmt(d, u) is None and u is d and len(u.fields) == 1)
            if plain and pred(f):
                out.append((u, i, f))
    return out


def put(rng, parts, x):
    parts = list(parts)
    parts.insert(rng.randint(0, len(parts)), x)
    return parts


def keys(u):
    return {f.key(i) for i, f in enumerate(u.fields)}


# every fault: (rng, d, derives) -> True when it has been put in
def brace(rng, d, der):
    hs = [h for h, _ in fmt_hosts(d, der)] + [f for _, _, f in used_fields(d, der, lambda f: f.fmt is not None)]
    if not hs:
        return
    h = rng.choice(hs)
    x = rng.choice(["{", "}", "{", "}", "}{", "{a", "{a:", "{0", "{:", "{:>", "{a{b}}", "{{}", "{}}", "a}", "{a}}", "{ {"])
    # nobody reads what follows the colon of a placeholder in FromStr alone or in an overridden format: "{:" is unclosed only at the end
    h.fmt = list(h.fmt) + [Bad(x)] if ":" in x and (der == "F" or h is d) else put(rng, h.fmt, Bad(x))
    return True


def bad_name(rng, ks):
    base = rng.choice(sorted(ks) or ["a"])
    while True:
        n = rng.choice([base + "x", base[:-1], base.upper(), base.lower(), "zz", str(len(ks)), str(len(ks) + 7), "self", "Self", " " + base, base + " ", base + "-", "_" + base, "a", "0", "1", "x", "99999999999999999999999", "-1", "r#r#" + base, base + "\n", base + "()", "*", "&" + base])
        if not n or n in ks or n.lstrip("0") in {k.lstrip("0") for k in ks} or (n.startswith("r#") and n[2:] in ks) or n == "_":
            continue
        return n


def unknown_field(rng, d, der):
    hs = fmt_hosts(d, der)
    if d.kind == "enum":
        hs = [(h, u if u is not None else next((v for v in used_units(d, der) if v.fmt is None), None)) for h, u in hs]
        hs = [(h, u) for h, u in hs if u is not None]
    if not hs:
        return
    h, u = rng.choice(hs)
    n = bad_name(rng, keys(u))
    h.fmt = put(rng, h.fmt, Bad("{%s%s}" % (n, rng.choice(["", "", ":", ":>5", ":?"] if ":" not in n else [""]))))
    return True


def unknown_nested(rng, d, der):
    fs = used_fields(d, der)
    if not fs:
        return
    u, i, f = rng.choice(fs)
    h = u if u.fmt is not None else d
    if h.fmt is None:
        return
    h.fmt = put(rng, h.fmt, Bad("{%s.%s}" % (f.key(i), rng.choice(["zz", "zz.a", "7", "len", "to_string", "zz.0", "r#zz"]))))
    return True


def style(rng, d, der):
    hs = [d] + [u for u in d.units() if u is not d and not ("F" in der and u.ignore)]
    h = rng.choice(hs)
    s = rng.choice(list(STYLES))
    s = rng.choice([s.swapcase() if s.swapcase() not in STYLES else "x", s + " ", " " + s, s.replace("_", "-").replace("-", "_") + "x", s[:-1], "", "PascalCase", "SCREAMING_SNAKE_CASE", "SCREAMING-KEBAB-CASE", "camel_case", "Snake_Case", "snake case", "TitleCase", "kebab_case", "None", "default", "Lowercase"])
    if s in STYLES:
        return
    h.style = s
    return True


def empty_in_struct(rng, d, der):
    if d.kind != "struct" or d.fmt is None:
        return
    d.fmt = put(rng, d.fmt, Bad(rng.choice(["{}", "{}", "{}", "{:}", "{:5}", "{:>3}", "{:08.3}"])))
    return True


def missing_field(rng, d, der):
    """F: the format does not give the field, nothing else does"""
    fs = []
    for u in used_units(d, "F"):
        if u.fmt is None or u.default:
            continue
        ps = [p for p in u.fmt if not isinstance(p, str) and p.path]
        for i, f in enumerate(u.fields):
            mine = [p for p in ps if p.path[0] == f.key(i)]
            if not f.default and len(mine) == 1 and len(mine[0].path) == 1:
                fs.append((u, i, f, mine[0]))
    if not fs:
        return
    u, i, f, p = rng.choice(fs)
    u.fmt = [x for x in u.fmt if x is not p]
    if rng.random() < .3:
        u.fmt.append(rng.choice(["{%s}" % f.key(i), f.key(i)]))        # the text of it does not count
    return True


def missing_format(rng, d, der):
    if d.kind == "struct":
        if len(d.fields) == 1 and rng.random() < .7:
            t = rng.choice([U8, U8, Ty("std::marker::PhantomData<u8>", "p"), Ty("()", "n"), Ty("[u8; 0]", "z"), Ty("Option<u8>", "o"), Ty("String", "s")])
            # before or behind: an index must not change
            at = rng.choice([0, 1]) if d.shape == "named" else 1
            d.fields.insert(at, Field("second_" if d.shape == "named" else None, t, default="F" in der))
        elif len(d.fields) == 1:
            d.fields, d.shape = [], rng.choice(["named", "tuple", "unit"])
            d.new, d.items = None, ""
        d.fmt = None
        return True
    if d.fmt is not None:
        return
    vs = [v for v in used_units(d, der) if v.shape != "unit" and v.fmt is not None]
    if not vs:
        return
    v = rng.choice(vs)
    v.fmt = None
    if rng.random() < .25:
        v.fields, v.new = [], None
    return True


BADRE = ["(", ")", "[", "a{2,1}", "*", "+a", "?", "(?<a", "\\", "(?z)", "[z-a]", "(?P<>", "\\p{Zzz}", "(?=x)", "(?!x)", "(?<=x)", "(a)\\1", "x{99999999999}", "(?-u:\\xFF)", "\\u{110000}", "a**b(", "\\y", "(?P<a>", "[a", "(?:", "x{3", "(?<q>x)(?<q>y)", "\\x{D800}", "(?i-u:[^a])", "\\Z"]
SUSPECT = {"a**b(", "x{3"}


def bad_regex(rng, d, der):
    x = rng.choice(BADRE)
    k = rng.random()
    fs = used_fields(d, der, lambda f: f.regex is None and f.mregex is None and (f.fmt is None or any(not isinstance(p, str) and not p.path for p in f.fmt)))
    if k < .35 and fs:
        u, i, f = rng.choice(fs)
        f.regex = x
        return True
    us = used_units(d, der)
    if d.kind == "enum" and k < .5 and any(v.fmt is None for v in us):
        d.regex = Regex(x, None)
        return True
    if not us:
        return
    rng.choice(us).regex = Regex(rng.choice(["", "a", "(?:x)"]) + x if x[0] not in "*+?" else x, None)
    return True


def unknown_capture(rng, d, der):
    k = rng.random()
    P = rng.choice(["", "P"])
    fs = used_fields(d, der, lambda f: f.regex is None and f.mregex is None and f.fwith is None and f.dwith is None)
    if k < .3 and fs:
        u, i, f = rng.choice(fs)
        f.regex = "(?<%s>.*)(?%s<%s>.*)" % ("", P, rng.choice(["zz", "zz.a", "9", f.key(i) if f.ty in (U8, STRING, BOOL, CHAR, F64) and f.key(i).isascii() else "yy"]))
        return True
    us = used_units(d, der)
    if not us:
        return
    u = rng.choice(us)
    caps = "".join("(?<%s>.*)" % f.key(i) for i, f in enumerate(u.fields))
    if not caps.isascii():
        return
    n = "".join(c for c in bad_name(rng, keys(u)) if c.isascii() and (c.isalnum() or c == "_"))
    if n in keys(u) or n.lstrip("0") in {k.lstrip("0") for k in keys(u)}:
        return
    if u is d and rng.random() < .4:
        n = ""                       # the empty name is for variants
    elif not n:
        return
    u.regex = Regex(caps + "(?%s<%s>.*)" % (P, n), None)
    return True


def opt_plain(rng, d, der):
    fs = used_fields(d, der, lambda f: not f.opt and not f.default and f.mregex is None)
    if not fs:
        return
    u, i, f = rng.choice(fs)
    f.opt = True
    k = rng.random()
    f.ty = copy.copy(f.ty)
    f.ty.inner = f.ty
    if k < .3 and f.dwith is None and f.fwith is None and not f.infer and f.fmt is None and f.regex is None:
        f.ty = Ty(rng.choice(["Result<u8, u8>", "Vec<u8>", "Box<Option<u8>>", "(Option<u8>,)", "[Option<u8>; 1]", "&'static Option<u8>", "std::cell::Cell<Option<u8>>", "u8"]), "s")
        f.ty.inner = f.ty
    if u.new is not None:
        u.new = None
    return True


def with_trait(rng, d, der):
    fs = used_fields(d, der, lambda f: f.dwith is not None)
    if not fs:
        return
    u, i, f = rng.choice(fs)
    t = rng.choice(["?", "x", "X", "o", "b", "e", "E", "p", "x?", "#?", ">5?", "08x"])
    if f.fmt is not None:
        f.fmt = [Var("", t) if not isinstance(p, str) and not p.path else p for p in f.fmt]
        if not any(not isinstance(p, str) and not p.path for p in f.fmt):
            return
    else:
        h = u if u.fmt is not None else d
        if h.fmt is None:
            return
        h.fmt = [Var(p.path, t, p.rawtext) if not isinstance(p, str) and p.path == [f.key(i)] else p for p in h.fmt]
    return True


def default_enum(rng, d, der):
    if d.kind != "enum":
        return
    d.default = True
    return True


def default_variant(rng, d, der):
    vs = [u for u in used_units(d, "F")] if d.kind == "enum" else []
    if not vs:
        return
    rng.choice(vs).default = True
    return True


def default_without_default(rng, d, der):
    us = used_units(d, "F")
    us = [u for u in us if u.shape != "unit"]
    if rng.random() < .3 and d.kind == "struct" and d.new is None:
        d.default = True             # the struct has no Default
        return True
    if not us or d.fmt is not None and d.kind == "enum":
        return
    u = rng.choice(us)
    if u.fmt is None:
        return
    u.fields.append(Field("nodef" if u.shape == "named" else None, NODISP, default=True))
    u.new = None
    return True


def default_fields_unknown(rng, d, der):
    if d.kind == "enum":
        us = used_units(d, "F")
        if not us:
            return
        u = rng.choice([d] + us)
        if u is d and not any(v.shape for v in us):
            return
        ks = set.union(*[keys(v) for v in us]) if u is d else keys(u)
    else:
        u, ks = d, keys(d)
    n = rng.choice(["zz", "yy", "77", "none_"])
    if n in ks:
        return
    u.default_fields = [n]
    return True


def bad_spec(rng, d, der):
    fs = used_fields(d, der, lambda f: f.fmt is None and f.dwith is None and not f.opt)
    s = rng.choice(["y", "??", "xx?", "5x5", "-5-", "q", "#?#", " ", "x ", "?x", ".", ".x", "5.", "d", "s", "i", "X5", "99999999999999999999", ".*", "70000", "x??", "#xx", "Debug", "+-", "##", "5$x", "<<<", "é", ">5>", "0x0", "?5", ".5.5", "=5", "$", "!"])
    k = rng.random()
    ff = used_fields(d, der, lambda f: f.fmt is not None and f.dwith is None and any(not isinstance(p, str) and not p.path for p in f.fmt))
    if k < .4 and ff:
        f = rng.choice(ff)[2]
        f.fmt = [Var("", s) if not isinstance(p, str) and not p.path else p for p in f.fmt]
        return True
    if not fs:
        return
    u, i, f = rng.choice(fs)
    h = u if u.fmt is not None else d
    if h.fmt is None:
        return
    h.fmt = [Var(p.path, s, p.rawtext) if not isinstance(p, str) and p.path == [f.key(i)] else p for p in h.fmt]
    return True


def no_trait(rng, d, der):
    """the field's type lacks what the format asks of it"""
    fs = used_fields(d, der, lambda f: f.fmt is None and f.dwith is None and f.fwith is None and not f.infer and not f.opt and not f.default and f.regex is None)
    if not fs:
        return
    u, i, f = rng.choice(fs)
    u.new = None
    h = u if u.fmt is not None else d
    if der == "D" and h.fmt is not None and rng.random() < .5:
        f.ty, s = rng.choice([(STRING, "x"), (U8, "p"), (BOOL, "e"), (CHAR, "b"), (F64, "x"), (STRING, "p"), (F32, "o"), (NODISP, ">5"), (BOOL, "X")])
        h.fmt = [Var(p.path, s, p.rawtext) if not isinstance(p, str) and p.path == [f.key(i)] else p for p in h.fmt]
        return True
    f.ty = NODISP if der != "D" and der != "F" else Ty(rng.choice(["Plain", "OnlyF", "()", "(u8, u8)", "[u8; 2]", "Vec<u8>", "Option<u8>", "std::cell::Cell<u8>"] if der == "D" else ["Plain", "OnlyD", "()", "&'static str", "[u8; 2]", "Vec<u8>", "Option<u8>", "Box<u8>", "std::rc::Rc<u8>"]))
    return True


def with_type(rng, d, der):
    fs = used_fields(d, der, lambda f: not f.opt and not f.default and f.regex is None and f.mregex is None and f.fmt is None)
    if not fs:
        return
    u, i, f = rng.choice(fs)
    u.new = None
    f.infer = False
    f.dwith, f.fwith, f.ty = rng.choice([(HEX, None, STRING), (PLUS1, None, U8), (YESNO, None, U32), (FLG, None, CHAR), (With("Plain", U8, None), None, U8), (With("5", U8, None), None, U8), (With("no_such_formatter", U8, None), None, U8)])
    if der == "F" and rng.random() < .5:
        f.dwith, f.fwith = None, f.dwith
    return True


def new_wrong(rng, d, der):
    us = [u for u in used_units(d, "F")]
    if not us:
        return
    u = rng.choice(us)
    u.new = New(rng.choice(["5", "Plain", "no_such_value", "()", "\"text\"", "Some(5)", "Ok::<u8, u8>(1)", "None::<u8>", "zz_unknown_field()", "Self::no_such_fn()", "Some(Some(Plain))"]), "self", "")
    return True


def infer_without(rng, d, der):
    fs = used_fields(d, der, lambda f: not f.opt and not f.default and f.regex is None and f.mregex is None and f.fmt is None)
    if not fs:
        return
    u, i, f = rng.choice(fs)
    u.new = None
    f.ty, f.infer, f.dwith, f.fwith = WORD, True, None, None
    return True


ATTRS = {"D": ["display(foo)", "display(\"x\", \"y\")", "display(5)", "display(style = 5)", "display", "display = \"x\"", "display(format = \"x\")", "display(\"x\" \"y\")", "display(opt = 1)", "display(style)", "display(with)", "display(crate = 5)", "display('x')", "display(b\"x\")", "display(bound(5))", "display(bound = T)",
               "display(style = \"none\", style = \"none\")", "display(x, )", "display(with = )", "display(new = 1)", "display(regex = \"x\")", "display(default)"],
         "F": ["from_str(foo)", "from_str(regex = 5)", "from_str(\"x\")", "from_str(regexp = \"x\")", "from_str", "from_str = \"x\"", "from_str(regex)", "from_str(default = 5)", "from_str(ignore = true)", "from_str(new)", "from_str(with)", "from_str(default_fields(+))", "from_str(default_fields = \"a\")", "from_str(opt)", "from_str(style = \"none\")",
               "from_str(regex = \"a\", regex = \"b\")", "from_str(default, default)", "from_str(regex_infer = 1)", "from_str(bound(5))", "from_str(crate = foo)"]}


def attribute(rng, d, der):
    a = "#[%s]" % rng.choice(ATTRS["D"] + (ATTRS["F"] if "F" in der else []))
    if "F" in der and rng.random() < .5:
        a = "#[%s]" % rng.choice(ATTRS["F"])
    k = rng.random()
    fs = used_fields(d, der)
    if fs and k < .5:
        f = rng.choice(fs)[2]
        f.extra_attrs = list(f.extra_attrs) + [a]
    else:
        d.head = a
    return True


FAULTS = {
    # fault: (derives it concerns, weight)
    brace: ("D F DF", 10), unknown_field: ("D F DF", 10), unknown_nested: ("D F DF", 4), style: ("D F DF", 7), empty_in_struct: ("D F DF", 7), missing_field: ("F DF", 10), missing_format: ("D F DF", 8), bad_regex: ("F DF", 10),
    unknown_capture: ("F DF", 8), opt_plain: ("D F DF", 8), with_trait: ("D DF", 6), default_enum: ("F DF", 3), default_variant: ("F DF", 4), default_without_default: ("F DF", 5), default_fields_unknown: ("F DF", 4), bad_spec: ("D DF", 9),
    no_trait: ("D F", 7), with_type: ("D F DF", 4), new_wrong: ("F DF", 5), infer_without: ("F DF", 3), attribute: ("D F DF", 8),
}
POOL = [f for f, (_, w) in FAULTS.items() for _ in range(w)]


class Pair:
    def __init__(self, id, fault, der, bad, good, inner):
        self.id, self.fault, self.der, self.bad, self.good, self.inner = id, fault, der, bad, good, inner

    def source(self):
        return "// %s, derive %s\n%s\n\n// without the fault\n%s\n%s" % (self.fault, self.der, self.bad, self.good, self.inner)


def render(d, seed, der):
    d.display, d.from_str = "D" in der, "F" in der
    d.derives = ("Debug",)
    t = render_decl(d, random.Random(seed))
    head = getattr(d, "head", None)
    if head:
        a, b = t.split("\n", 1)
        t = a + "\n" + head + "\n" + b
    return t


def pair(i, b):
    rng = rng_for("C21", b, "p", i)
    while True:
        fault = rng.choice(POOL)
        der = rng.choice(FAULTS[fault][0].split())
        k = dict(depth=rng.choice([0, 0, 1]), derived=.2, opt=.15, fieldfmt=.3, ignore=.1, efmt=.15, style=.3, nested=.15, default=.15, new=.1, infer=.15, small=1, many=7)
        k["with"] = .5 if fault is with_trait else .2
        if fault in (no_trait, opt_plain, infer_without, with_type):
            k.update(opt=.05, default=0, fieldfmt=.1)
        if der == "D":
            k["display_only"] = 1
        g = G(rng, **k)
        d = g.decl("T")
        if not all(v for v in [d.kind == "struct" or d.variants]):
            continue
        good = copy.deepcopy(d)
        bad = copy.deepcopy(d)
        if not fault(rng, bad, der):
            continue
        seed = rng.getrandbits(60)
        inner = "\n".join(render(x, seed, "DF" if not k.get("display_only") else "D") + ("\nimpl Default for %s { fn default() -> Self { loop {} } }" % x.name if x.default else "") for x in g.inner)
        p = Pair("b%d_p%d" % (b, i), fault.__name__, der, render(bad, seed, der), render(good, seed, der), inner)
        # some derives need what the fault removed; nothing else in the module depends on the type
        if p.bad == p.good:
            continue
        return p


def fixed():
    """shapes that the generator does not make"""
    out = []

    def add(name, der, bad, good):
        for x in der.split():
            ds = ", ".join({"D": "Display", "F": "FromStr"}[c] for c in x)
            out.append(Pair("x_%s_%s" % (name, x), "fixed " + name, x, "#[derive(%s)]\n%s" % (ds, bad), "#[derive(%s)]\n%s" % (ds, good), ""))
    add("union", "D F DF", '#[display("x")] pub union T { a: u8 }', '#[display("{a}")] pub struct T { a: u8 }')
    add("union2", "D F DF", 'pub union T { a: u8, b: i8 }', 'pub struct T { a: u8 }')
    add("union3", "D F", '#[display("{a}")] #[derive(Clone, Copy)] pub union T<X: Copy> { a: X }', '#[display("{a}")] #[derive(Clone, Copy)] pub struct T<X: Copy> { a: X }')
    add("unit", "D F DF", "pub struct T;", '#[display("")] pub struct T;')
    add("brackets", "D F DF", "pub struct T {}", '#[display("")] pub struct T {}')
    add("parens", "D F DF", "pub struct T();", '#[display("")] pub struct T();')
    add("two", "D F DF", "pub struct T(u8, u8);", '#[display("{0} {1}")] pub struct T(u8, u8);')
    add("vparens", "D F DF", "pub enum T { A, B() }", 'pub enum T { A, #[display("b")] B() }')
    add("vbraces", "D F DF", "pub enum T { A, B {} }", 'pub enum T { A, #[display("b")] B {} }')
    add("vtuple", "D F DF", "pub enum T { A, B(u8) }", 'pub enum T { A, #[display("{0}")] B(u8) }')
    add("misplaced1", "F DF", '#[from_str(default)] pub enum T { A, B } impl Default for T { fn default() -> T { T::B } }', 'pub enum T { A, B } impl Default for T { fn default() -> T { T::B } }')
    add("misplaced2", "F DF", 'pub enum T { #[from_str(default)] A, B } impl Default for T { fn default() -> T { T::B } }', 'pub enum T { A, B } impl Default for T { fn default() -> T { T::B } }')
    add("misplaced3", "F DF", 'pub enum T { #[from_str(default)] #[display("a")] A { x: u8 }, B } impl Default for T { fn default() -> T { T::B } }', 'pub enum T { #[display("a")] A { #[from_str(default)] x: u8 }, B } impl Default for T { fn default() -> T { T::B } }')
    add("misplaced4", "F DF", 'pub enum T { #[from_str(default)] #[display("{x}")] A { x: u8 }, B } impl Default for T { fn default() -> T { T::B } }', 'pub enum T { #[display("{x}")] A { x: u8 }, B } impl Default for T { fn default() -> T { T::B } }')
    add("nesteddefault", "F", '#[display("{a.x}")] pub struct T { a: vrt::Inner }', '#[display("{a.a}")] pub struct T { #[from_str(default)] a: vrt::Inner }')
    add("nestednodefault", "F", '#[display("{a.a}")] pub struct T { a: vrt::Inner }', '#[display("{a.a}")] pub struct T { #[from_str(default)] a: vrt::Inner }')
    add("optmissing", "F DF", '#[display("{a}")] pub struct T { a: u8, #[display(opt)] b: Option<u8> }', '#[display("{a}{b}")] pub struct T { a: u8, #[display(opt)] b: Option<u8> }')
    add("optmissing2", "F DF", '#[from_str(regex = "(?<a>.)")] #[display("{a}{b}")] pub struct T { a: u8, #[display(opt)] b: Option<u8> }', '#[from_str(regex = "(?<a>.)(?<b>.)?")] #[display("{a}{b}")] pub struct T { a: u8, #[display(opt)] b: Option<u8> }')
    add("optmissing3", "F DF", 'pub enum T { #[display("x")] A(#[display(opt)] Option<u8>) }', 'pub enum T { #[display("x{0}")] A(#[display(opt)] Option<u8>) }')
    add("newmissing", "F", '#[display("{a}")] #[from_str(new = Some(T { a, b: 1 }))] pub struct T { a: u8, b: u8 }', '#[display("{a}")] #[from_str(new = Some(T { a, b: 1 }))] pub struct T { a: u8, #[from_str(default)] b: u8 }')
    add("regexmissing", "F DF", '#[from_str(regex = "(?<a>.)")] #[display("{a}{b}")] pub struct T { a: u8, b: u8 }', '#[from_str(regex = "(?<a>.)(?<b>.)")] #[display("{a}{b}")] pub struct T { a: u8, b: u8 }')
    add("regexescaped", "F", '#[from_str(regex = r"\\(?<a>.")] #[display("{a}")] pub struct T { a: u8 }', '#[from_str(regex = r"\\\\(?<a>.)")] #[display("{a}")] pub struct T { a: u8 }')
    add("enumregex", "F", '#[from_str(regex = "(?<>)(?<a>.)")] pub enum T { A { a: u8 }, B { b: u8 } }', '#[from_str(regex = "(?<>)(?<a>.)")] pub enum T { A { a: u8 }, B { a: i8 } }')
    add("enumformat", "D F DF", '#[display("{}{a}")] pub enum T { A { a: u8 }, B }', '#[display("{}{a}")] pub enum T { A { a: u8 }, #[display("b")] B }')
    add("fieldindex", "D F DF", '#[display("{0}")] pub struct T { a: u8 }', '#[display("{a}")] pub struct T { a: u8 }')
    add("fieldname", "D F DF", '#[display("{a}")] pub struct T(u8);', '#[display("{0}")] pub struct T(u8);')
    add("underscore", "D F DF", '#[display("{_0}")] pub struct T(u8);', '#[display("{0}")] pub struct T(u8);')
    add("vunderscore", "D F DF", 'pub enum T { #[display("{_0}")] A(u8) }', 'pub enum T { #[display("{0}")] A(u8) }')
    add("scope", "D", '#[display("{X}")] pub struct T(u8); pub const X: u8 = 1;', '#[display("{0}")] pub struct T(u8); pub const X: u8 = 1;')
    add("scopewidth", "D", '#[display("{0:X$}")] pub struct T(u8);', '#[display("{0:9}")] pub struct T(u8);')
    add("star", "D", '#[display("{a:.*}{b}")] pub struct T { a: usize, b: u8 }', '#[display("{a:.1}{b}")] pub struct T { a: usize, b: u8 }')
    add("args", "D", '#[display("{a:1$}{b}")] pub struct T { a: u8, b: usize }', '#[display("{a:1}{b}")] pub struct T { a: u8, b: usize }')
    add("generic", "F", '#[display("{a}")] pub struct T<X> { a: X, b: X }', '#[display("{a}{b}")] pub struct T<X> { a: X, b: X }')
    add("genericbound", "D F", '#[display("{a}", bound())] pub struct T<X> { a: X }', '#[display("{a}")] pub struct T<X> { a: X }')
    add("genericbound2", "F", '#[display("{a}")] #[from_str(bound(X : Copy))] pub struct T<X> { a: X }', '#[display("{a}")] #[from_str(bound(X : Copy, ..))] pub struct T<X> { a: X }')
    add("boundunknown", "D F", '#[display("{a}", bound(Q))] pub struct T<X> { a: X }', '#[display("{a}", bound(X))] pub struct T<X> { a: X }')
    add("crate", "D F DF", '#[display("{a}", crate = ::no_such_crate)] pub struct T { #[display(opt)] a: Option<u8> }', '#[display("{a}", crate = ::parse_display)] pub struct T { #[display(opt)] a: Option<u8> }')
    add("withdeep", "D", '#[display("{a}")] pub struct T { #[display("<{:?}>", with = Hex)] a: u32 }', '#[display("{a}")] pub struct T { #[display("<{:>5}>", with = Hex)] a: u32 }')
    add("withopt", "D", '#[display("{a}")] pub struct T { #[display("<{:x}>", with = Hex, opt)] a: Option<u32> }', '#[display("{a}")] pub struct T { #[display("<{}>", with = Hex, opt)] a: Option<u32> }')
    add("dupcapture", "F", '#[from_str(regex = "(?<a>.)|(?<a>..)")] #[display("{a}")] pub struct T { a: u8 }', '#[from_str(regex = "(?<a>.|..)")] #[display("{a}")] pub struct T { a: u8 }')
    add("pointer", "D", '#[display("{a:p}")] pub struct T { a: u8 }', '#[display("{a:p}")] pub struct T { a: &\'static u8 }')
    return out


class Sources:
    """one binary with many modules"""
    def __init__(self, name, pairs, which):
        self.name, self.lines, self.ranges = name, ["#![allow(warnings, bindings_with_variant_name)]"], []
        for p in pairs:
            self.lines.append("mod %s {" % p.id)
            self.lines += MODPRE21.split("\n") + p.inner.split("\n")
            a = len(self.lines) + 1
            self.lines += getattr(p, which).split("\n")
            self.ranges.append((a, len(self.lines), p))
            self.lines.append("}")
        self.lines.append("fn main() {}")

    def find(self, line):
        """the pair, and whether the line is in the declaration itself"""
        prev = None
        for a, b, p in self.ranges:
            if line < a:
                return (p, False)
            if line <= b:
                return (p, True)
        return None, False


def compile_round(res, pairs, which, rnd):
    pkg = "wc21"
    d = os.path.join(VERIF, "work", pkg)
    n = 8
    srcs = [Sources("%s_s%d" % (pkg, i), pairs[i::n], which) for i in range(n) if pairs[i::n]]
    package(pkg, d, DEPS, {s.name: "\n".join(s.lines) for s in srcs})
    b = cargo(["check", "--offline", "--message-format=json", "--keep-going"], d)
    files = {"src/bin/%s.rs" % s.name: s for s in srcs}
    hits, stray = {}, []
    for target, src, msg in b.errors:
        m = msg.get("message", "")
        if m.startswith(("aborting due to", "could not compile")):
            continue
        own = near = None
        for fn, line, _ in outer_spans(msg):
            s = files.get(fn)
            if s:
                p, inside = s.find(line)
                if p and inside:
                    own = p
                    break
                near = near or p
        kind = (msg.get("code") or {}).get("code") or ("panic" if "panicked" in m else "message")
        if own:
            hits.setdefault(own.id, []).append((kind, msg.get("rendered") or m))
        else:
            stray.append((near, msg.get("rendered") or m))
    for s in srcs:
        # keep the target directory small
        base = os.path.join(TARGET, "debug/deps")
        if os.path.isdir(base):
            for f in os.listdir(base):
                if s.name in f:
                    os.remove(os.path.join(base, f))
    return b, hits, stray


def observe(res, pairs, which):
    """{pair id: [(kind, text)]} of the errors that lie in each declaration"""
    out, left, rnd = {}, list(pairs), 0
    while left:
        b, hits, stray = compile_round(res, left, which, rnd)
        rnd += 1
        out.update(hits)
        if b.ok or (not hits and not stray):
            if not b.ok:
                raise Inconclusive("does not build:\n" + b.log[-3000:])
            break
        if not hits:
            p, text = stray[0]
            if p is None:
                raise Inconclusive("does not build:\n" + text[:3000])
            # an error outside the declaration it belongs to
            for p, text in stray:
                if p is not None and p.id not in out:
                    out[p.id] = [("stray", text)]
            left = [p for p in left if p.id not in out]
            continue
        left = [p for p in left if p.id not in out]
    res.extra["rounds " + which] = res.extra.get("rounds " + which, 0) + rnd
    return out


def main(prop, only=None):
    res = Result(prop)
    for b in range(60 if THOROUGH else 8):
        pairs = [pair(i, b) for i in range(1800)] + (fixed() if b == 0 else [])
        if only:
            pairs = [p for p in pairs if p.id == only]
            if not pairs:
                continue
        seen = set()
        controls = [p for p in pairs if not (p.good + p.inner in seen or seen.add(p.good + p.inner))]
        good = observe(res, controls, "good")
        bad = observe(res, pairs, "bad")
        for p in pairs:
            res.cases += 1
            res.evals += 2
            e = bad.get(p.id)
            if p.id in good:
                res.violation(p.id, "twin rejected", "the declaration without the fault does not compile:\n" + "\n".join(t for _, t in good[p.id])[:2500], p.source())
            if not e:
                res.violation(p.id, "accepted", "fault `%s`, derive %s: the compiler accepts\n%s" % (p.fault, p.der, p.bad), p.source())
                continue
            if e[0][0] == "stray":
                res.violation(p.id, "elsewhere", "fault `%s`, derive %s: the error is not in the declaration:\n%s" % (p.fault, p.der, e[0][1][:2000]), p.source())
                continue
            for k in {k for k, _ in e}:
                key = "error: " + k
                res.bins[key] = res.bins.get(key, 0) + 1
            key = "%s %s" % (p.fault if not p.fault.startswith("fixed") else "hand-written", p.der)
            res.bins[key] = res.bins.get(key, 0) + 1
            if len(res.samples) < 10 and random.Random(p.id).random() < .02:
                res.samples.append("%s\n=> %s" % (p.bad, e[0][1][:200]))
        res.distinct += len({(p.fault, p.bad) for p in pairs})
        if res.found or time.time() - T0 > 1200:
            break
    return finish(res, RULE, min_evals=1 if only else 2000)
