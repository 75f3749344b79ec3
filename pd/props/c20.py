from corpora import *

RULE = ("A case is a random Display declaration (formats, parameters, styles, field formats, opt, with, nested paths, pointers), or a FromStr declaration whose formats are constant, in a no_std crate "
        "without std or alloc in its extern prelude, with the library built without default features. Every value is displayed into a String and, with an allocator that counts, into a fixed "
        "buffer; texts are compared with the model, which is the one used with std, and allocations must be none. Samples of the declarations are also built for a target where neither std nor "
        "alloc exists. Non-trivial: distinct (case, text or string).")

DEPS20 = 'vrt = { path = "%s/rt", default-features = false, features = ["pdcore"] }\nparse-display = { path = "%s/parse-display", default-features = false }\nregex = "1"\n' % (VERIF, REPO)
USE = "use zstd::prelude::rust_2024::*; use zstd as std; use zstd::{format, vec, println, eprintln, thread_local};"
PRE20 = PRE.replace("use vrt::*;", "#![no_std]\nextern crate std as zstd;\n" + USE + "\nuse vrt::*;\n#[global_allocator] static COUNTING: vrt::Counting = vrt::Counting;")
MODPRE20 = "    #[allow(unused_imports)] %s #[allow(unused_imports)] use vrt::*; #[allow(unused_imports)] use parse_display::{Display, FromStr};\n" % USE


def constant(rng, i, b):
    """FromStr that needs no pattern"""
    kind = rng.choice(["enum", "enum", "enum", "struct"])
    g = G(rng)
    texts = []

    def text():
        t = rng.choice(LITS) + rng.choice(["", "", rng.choice(LITS)])
        return t

    def fields():
        shape = rng.choice(["unit", "unit", "unit", "named", "tuple"])
        n = rng.choice([1, 2, 3]) if shape != "unit" else 0
        names = uniq(rng, FNAMES, n) if shape == "named" else [None] * n
        return shape, [Field(nm, rng.choice([U8, I32, BOOL, U64, CHAR, WORD]), default=True) for nm in names]
    if kind == "struct":
        shape, fs = fields()
        d = Decl("T", "struct", fields=fs, shape=shape, fmt=[t for t in [text()] if t])
    else:
        vs = []
        for nm in uniq(rng, VNAMES, rng.choice([1, 2, 3, 5, 9, 30]), rand=.4):
            shape, fs = fields()
            v = Variant(nm, fs, shape)
            if rng.random() < .4 or fs:
                v.fmt = [x for x in ([text(), Var()] if rng.random() < .3 else [text()]) if x != ""]
            vs.append(v)
        d = Decl("T", "enum", variants=vs, style=rng.choice(list(STYLES)))
        if rng.random() < .3:
            d.fmt = [x for x in [text(), Var(), text()] if x != ""]
            for v in d.variants:
                v.fmt = None if not v.fields else v.fmt
    d.display = rng.random() < .8
    return make_case("b%d_k%d" % (b, i), [d], rng, values=12, strings=80)


def corpus(b):
    out = []

    def knobs(rng, i):
        k = dict(display_only=1, depth=rng.choice([0, 0, 1]), derived=.2, opt=.3, fieldfmt=.3, ignore=.05, efmt=.15, style=.3, nested=.2, small=rng.random() < .5, many=10)
        k["with"] = .3
        return k
    out += randoms("C20", b, 500, knobs, values=16)
    out += [constant(rng_for("C20", b, "k", i), i, b) for i in range(250)]
    plain = lambda c: "FromStr" not in c.source() and "LazyLock" not in c.source()
    out += mixed(b, c01=(250, plain), c02=(450, plain), c03=(200, plain))
    return out


CORE = [U8, I32, U64, I64, BOOL, CHAR, F32, F64]


def bare(res):
    """the declarations where there is nothing but core"""
    decls = []
    for i in range(220):
        rng = rng_for("C20", 0, "bare", i)
        g = G(rng, display_only=1, leaves=CORE, opt=.3, fieldfmt=.3, efmt=.15, style=.3, small=rng.random() < .5, many=6)
        d = g.decl("T")
        decls.append("pub mod d%d { use ::parse_display::Display;\n%s }" % (i, re.sub(r"^#\[derive\(.*?\)\]", "#[derive(Display)]", render_decl(d, rng))))
    decls.append("""pub mod s { use ::parse_display::{Display, FromStr, DisplayFormat}; pub struct W;
impl DisplayFormat<u8> for W { fn write(&self, f: &mut core::fmt::Formatter, v: &u8) -> core::fmt::Result { f.write_str("w")?; core::fmt::Display::fmt(v, f) } }
#[derive(Display)] #[display("{a:>5}{b:?}{c:p}{d}{e}")] pub struct A<'a, T, const N: usize> { pub a: T, pub b: Option<T>, pub c: &'a T, #[display("<{:x}>", opt)] pub d: Option<u8>, #[display(with = W)] pub e: u8 }
#[derive(Display)] #[display("{}")] pub enum E<'a> { #[display("{0}{1}")] A(&'a str, #[display(with = W, opt)] Option<u8>), B }
#[derive(FromStr, Display)] #[display(style = "kebab-case")] pub enum F { AbcDef, #[display("x")] X { #[from_str(default)] a: u8 }, #[display("y")] #[from_str(new = F::mk())] Y }
impl F { fn mk() -> Option<F> { None } }
#[derive(FromStr, Display)] #[display("k")] #[from_str(default)] pub struct G { pub a: u8 } impl Default for G { fn default() -> G { G { a: 1 } } }
pub fn use_all(s: &str, w: &mut dyn core::fmt::Write) { let _ = s.parse::<F>().map(|x| write!(w, "{x}")); if let Err(e) = s.parse::<G>() { let _ = write!(w, "{e}{e:?}{}", (&e as &dyn core::error::Error)); } }
}""")
    d = os.path.join(VERIF, "work", "wc20bare")
    target = "x86_64-unknown-none"
    package("wc20bare", d, 'parse-display = { path = "%s/parse-display", default-features = false }\n' % REPO, {}, lib="#![no_std]\n#![allow(warnings)]\n" + "\n".join(decls))
    tdir = os.path.join(TARGET, "bare")
    b = cargo(["build", "--offline", "--message-format=json", "--keep-going", "-Zbuild-std=core", "--target", target], d, target=tdir, extra_env=dict(RUSTUP_TOOLCHAIN="nightly"))
    n = len(decls)
    if b.ok:
        res.extra["built for %s with core only" % target] = n
        return
    texts = [(m.get("rendered") or m.get("message", "")) for t, s, m in b.errors]
    hit = [t for t in texts if "parse-display" in t or "src/lib.rs" in t or "wc20bare" in t]
    if hit and sane(tdir, target):
        res.violation("bare", "compile error", "without std and alloc these do not build:\n" + "\n".join(hit)[:3000], "\n".join(decls)[:20000])
    else:
        res.extra["bare"] = "not available: " + b.log[-300:]


def sane(tdir, target):
    """does anything build there?"""
    d = os.path.join(VERIF, "work", "wc20sane")
    package("wc20sane", d, "", {}, lib="#![no_std]\npub fn f(w: &mut dyn core::fmt::Write) { let _ = w.write_str(\"a\"); }\n", lock=False)
    return cargo(["build", "--offline", "--message-format=json", "-Zbuild-std=core", "--target", target], d, target=tdir, extra_env=dict(RUSTUP_TOOLCHAIN="nightly")).ok


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=10000, deps=DEPS20, pre=PRE20, modpre=MODPRE20, after=bare)
