"""Families of cases shared by several properties."""
from common import *
from gen import *


def randoms(prop, batch, n, knobs, tag="r", show=True, parse=True, pick=None, **kw):
    """n random declarations; knobs: a dict or a function of (rng, i)."""
    out = []
    for i in range(n):
        rng = rng_for(prop, batch, tag, i)
        k = dict(knobs(rng, i) if callable(knobs) else knobs)
        k.setdefault("depth", 1)
        g = G(rng, **k)
        d = g.decl()
        decls = g.inner + [d]
        if k.get("display_only"):
            for x in decls:
                x.from_str = False
            if k.get("ptr"):
                behind(rng_for(prop, batch, tag, "ptr", i), decls, k["ptr"])
        elif k.get("from_str_only"):
            for x in decls:
                x.display = False
        out.append(make_case("b%d_%s%d" % (batch, tag, i), decls, rng, show=show, parse=parse, **kw))
    return out


REFS = ["&'static %s", "&'static &'static %s", "&'static mut %s", "&'static &'static mut &'static %s"]
PTRS = ["Box<%s>", "std::rc::Rc<%s>", "std::sync::Arc<%s>", "std::borrow::Cow<'static, %s>", "&'static Box<%s>", "Box<&'static %s>"]


def behind(rng, decls, p):
    """puts fields of types that only display behind references and other pointers"""
    def spec_of(parts):
        return [spec_trait(x.spec) for x in parts or [] if isinstance(x, Var)]
    for d in decls:
        if any(getattr(d, a, None) for a in ("new", "clone")):
            continue
        for u in [d] if d.kind == "struct" else d.variants:
            plain = all(t in ("", "?") for t in spec_of(u.fmt) + spec_of(d.fmt))
            for f in u.fields:
                if rng.random() >= p:
                    continue
                boxes = plain and f.dwith is None and all(t in ("", "?") for t in spec_of(f.fmt))
                w = rng.choice(REFS if not boxes or rng.random() < .6 else PTRS)
                if "Cow" in w and f.vty.decl is not None:
                    w = REFS[1]
                f.ptr = w
                t = f.vty
                n = Ty(w % t.rust, t.kind, t.infer, t.clean, t.nonempty, t.decl, False, t.inner, t.sample)
                f.ty = option(n) if f.opt else n


def owned(c):
    """holds no references, whose values the generator leaks"""
    return "&'static" not in c.body


class Raw:
    """A hand-written case: a module with `pub fn run(m: &mut Mon)`."""
    def __init__(self, id, text, modpre=None):
        self.id, self.text, self.modpre = id, text, modpre

    def source(self):
        return self.text


def checks(id, decls, pairs, pre=""):
    """pairs of Rust expressions (observed String, expected String)."""
    o = [decls, "pub fn run(m: &mut Mon) {", "    let case = %s;" % rlit(id), pre]
    for i, (a, b) in enumerate(pairs):
        o.append("    { let want: String = (%s).to_string(); match guard(|| -> String { (%s).to_string() }) {" % (b, a))
        o.append("        Ok(got) => m.check(case, &got, got == want, || format!(%s, got, want))," % rlit("%s\n  gives    {:?}\n  expected {:?}" % a.replace("{", "{{").replace("}", "}}")))
        o.append("        Err(p) => m.violation(case, \"panic\", p) } }")
    o.append("}")
    return Raw(id, "\n".join(o))


def mixed(batch, **parts):
    """Cases of other properties' corpora (another batch of them): mixed(b, c08=300, c02=(200, pred))."""
    import importlib
    out = []
    for name, n in parts.items():
        pred = None
        if isinstance(n, tuple):
            n, pred = n
        cs = [c for c in importlib.import_module("props." + name).corpus(batch + 50) if not isinstance(c, Raw) and c.tail.count("drive(m, &CASE)")]
        if pred:
            cs = [c for c in cs if pred(c)]
        rng = rng_for(name, batch, "mixed")
        for c in rng.sample(cs, min(n, len(cs))):
            new = "%s_%s" % (name, c.id)
            c.tail = c.tail.replace("id: " + rlit(c.id), "id: " + rlit(new))
            c.id = new
            out.append(c)
    return out
