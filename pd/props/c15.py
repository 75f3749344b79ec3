from corpora import *

RULE = ("A case is a random generic struct or enum (type, const and lifetime parameters; field types that mention a parameter directly, in "
        "wrappers, tuples, arrays, slices, pointers, fn and dyn types and projections; fields used through several traits, unused, formatted by "
        "a formatter, reached into, opt, defaulted; bound(...) at type, variant and field level with types, predicates, strings and ..). For each "
        "of some 20 instantiations with marker types that lack exactly one trait, or have exactly one, probes report at run time whether "
        "Display and FromStr are implemented; the oracle is the conjunction of the same probes over the types and traits the declaration "
        "requires. Non-trivial: distinct (case, trait, instantiation).")

MODPRE15 = "    #[allow(unused_imports)] use vrt::*; use vrt::bnd::*; use parse_display::{Display, FromStr};\n"
MARKS = "Zall Znone Zd Zg Zx Zf Zm Zdf Znd Zng Znx Znf Zn0 Zn1".split()
MORE = "Znux Znoc Znbi Znle Znue".split()
SPEC = {"": "DISPLAY", "?": "DEBUG", "x": "LHEX", ">9": "DISPLAY", "#?": "DEBUG", "08x": "LHEX", "x?": "DEBUG", "X?": "DEBUG", "#X?": "DEBUG", "X": "UHEX", "o": "OCT", "#010b": "BIN", "e": "LEXP", ".2E": "UEXP"}
TRAIT = {"DISPLAY": "std::fmt::Display", "DEBUG": "core::fmt::Debug", "LHEX": "::std::fmt::LowerHex", "UHEX": "std::fmt::UpperHex", "OCT": "core::fmt::Octal", "BIN": "std::fmt::Binary", "LEXP": "std::fmt::LowerExp", "UEXP": "::core::fmt::UpperExp", "FROMSTR": "std::str::FromStr", "M0": "vrt::bnd::M0", "M1": "M1"}


class F15:
    pass


def ty_expr(rng, ps, consts, fromstr, life):
    """a field type; (text, mentions a parameter)"""
    def one(d):
        x = rng.random()
        p = rng.choice(ps) if ps else None
        if p is None or x < .06:
            if consts and rng.random() < .7:
                return "Arr<%s>" % consts[0]
            return rng.choice(["Zall", "Wrap<Zall>", "u8", "Always<u8>"])
        if x < .38:
            return p
        if d <= 0:
            return p
        if x < .55:
            return "Wrap<%s>" % one(d - 1)
        if x < .6:
            return "Odd<%s>" % one(d - 1)
        if x < .67:
            return "Always<%s>" % one(d - 1)
        if x < .75:
            return "Both<%s, %s>" % (one(d - 1), one(d - 1))
        if x < .82:
            return rng.choice(["<%s as As>::Out", "%s::Out", "Wrap<<%s as vrt::bnd::As>::Out>"]) % p
        if x < .9:
            return "Via<%s>" % (rng.choice(["fn(%s) -> u8", "(u8, %s)", "[%s; 3]", "&'static [%s]", "*const %s", "dyn Tr<%s>", "dyn Fn(%s) -> u8"]) % p)
        if life and not fromstr:
            return "&'a %s" % one(d - 1)
        return p
    return one(2)


def has_param(t, ps, consts):
    return any(re.search(r"\b%s\b" % p, t) for p in ps + consts)


def gen_fields(rng, ps, consts, shape, disp, fs, life):
    out = []
    n = rng.choice([1, 1, 2, 2, 3, 4])
    for nm in uniq(rng, FNAMES, n) if shape == "named" else [None] * n:
        f = F15()
        f.name = nm
        x = rng.random()
        f.specs, f.attrs, f.bound = [], [], None
        f.dneed, f.fneed = [], []          # [(type, trait)]
        if x < .1:
            f.mode, f.ty = "unused", rng.choice(["Hold<%s>", "std::marker::PhantomData<%s>", "Always<%s>"]) % rng.choice(ps or ["u8"])
            if fs:
                f.attrs.append("#[from_str(default)]")
        elif x < .2:
            f.mode, f.ty = "with", rng.choice(["Hold<%s>", "Wrap<%s>", "Odd<%s>"]) % rng.choice(ps or ["u8"])
            f.attrs.append("#[display(with = AnyW)]")
        elif x < .28:
            f.mode, f.ty = "nested", "Hold<%s>" % rng.choice(ps or ["u8"])
            if fs:
                f.attrs.append("#[from_str(default)]")
        elif x < .42:
            f.mode, f.inner = "opt", ty_expr(rng, ps, consts, True, life)
            f.ty = rng.choice(["Option<%s>", "Option<%s>", "std::option::Option<%s>"]) % f.inner
            sp = ""
            if rng.random() < .4:
                sp = "" if fs and False else rng.choice(["", "?", "x"])
                f.attrs.append('#[display(opt, "<{%s}>")]' % (":" + sp if sp else "") if False else '#[display("<{%s}>", opt)]' % (":" + sp if sp else ""))
            else:
                f.attrs.append("#[display(opt)]")
            f.vty = f.inner
            f.dneed = [(f.inner, SPEC[sp])]
            f.fneed = [(f.inner, "FROMSTR")]
        else:
            f.mode, f.ty = "used", ty_expr(rng, ps, consts, fs, life)
            f.vty = f.ty
            f.fneed = [(f.ty, "FROMSTR")]
            if rng.random() < .25:
                sps = [rng.choice(list(SPEC))] if fs else [rng.choice(list(SPEC)) for _ in range(rng.choice([1, 2]))]
                f.attrs.append("#[display(%s)]" % rlit("/".join("{%s}" % (":" + s if s else "") for s in sps)))
                f.own = True
                f.dneed = [(f.ty, SPEC[s]) for s in sps]
            else:
                f.specs = [rng.choice(list(SPEC))] if fs or rng.random() < .7 else [rng.choice(list(SPEC)) for _ in range(2)]
                f.dneed = [(f.ty, SPEC[s]) for s in f.specs]
        # a default is no reason not to parse a field that is in the format
        if fs and f.mode in ("used", "opt", "with") and rng.random() < .15:
            f.attrs.append("#[from_str(default)]")
        out.append(f)
    return out


def fmt_of(rng, fields):
    o = ["L"]
    idx = list(range(len(fields)))
    rng.shuffle(idx)
    for i in idx:
        f = fields[i]
        k = raw(f.name) if f.name is not None else str(i)
        if f.mode == "unused":
            continue
        if f.mode == "nested":
            o.append("{%s.x}," % k)
        else:
            for s in f.specs or [""]:
                o.append("{%s%s}," % (k, ":" + s if s else ""))
    return "".join(o)


def bound_items(rng, need_d, need_f, own, ps, both):
    """bound arguments that imply the need; (items, dpreds, fpreds); own: which derives read this attribute"""
    items, dp, fp = [], [], []
    dots = rng.random() < .45
    if not dots:
        for ty, tr in (need_d if "d" in own else []):
            if tr == "DISPLAY" and rng.random() < .7:
                items.append(ty)
                dp.append((ty, "DISPLAY"))
                fp.append((ty, "FROMSTR"))
            else:
                items.append("%s : %s" % (ty, TRAIT[tr]))
                dp.append((ty, tr))
                fp.append((ty, tr))
        for ty, tr in (need_f if "f" in own else []):
            if ((ty, "FROMSTR") in fp):
                continue
            if rng.random() < .7:
                items.append(ty)
                dp.append((ty, "DISPLAY"))
                fp.append((ty, "FROMSTR"))
            else:
                items.append("%s : %s" % (ty, TRAIT[tr]))
                dp.append((ty, tr))
                fp.append((ty, tr))
    for _ in range(rng.choice([0, 1, 1, 2]) if dots or items else rng.choice([0, 0, 1])):
        if not ps:
            break
        p = rng.choice(ps)
        x = rng.random()
        if x < .5:
            tr = rng.choice(["M0", "M1", "M0", "M1", "DEBUG", "LHEX", "DISPLAY", "FROMSTR"])
            items.append("%s : %s" % (p, TRAIT[tr]))
            dp.append((p, tr))
            fp.append((p, tr))
        elif x < .65:
            items.append("%s : M0 + M1" % p)
            for q in (dp, fp):
                q += [(p, "M0"), (p, "M1")]
        elif x < .75:
            items.append("Wrap<%s> : M1" % p)
            dp.append((p, "M1"))
            fp.append((p, "M1"))
        else:
            t = rng.choice(["%s", "Wrap<%s>", "Odd<%s>"]) % p
            items.append(t)
            dp.append((t, "DISPLAY"))
            fp.append((t, "FROMSTR"))
    if dots:
        items.insert(rng.randrange(len(items) + 1), "..")
    return items, dp, fp, dots


class Bnd:
    """the bound arguments of one scope"""
    def __init__(self, rng, need_d, need_f, disp, fs, ps):
        self.attrs = []
        self.d = self.f = None          # (predicates, extends) or None
        mode = rng.choice(["d", "d", "f", "df"]) if disp and fs else "d" if disp or rng.random() < .5 else "f"
        if "d" in mode:
            reads = ("d" if disp else "") + ("f" if fs and "f" not in mode else "")
            items, dp, fp, dots = bound_items(rng, need_d, need_f, reads, ps, True)
            if disp:
                self.d = (dp, dots)
            if fs and "f" not in mode:
                self.f = (fp, dots)
            self.emit(rng, "display", items)
        if "f" in mode and fs:
            items, dp, fp, dots = bound_items(rng, [], need_f, "f", ps, False)
            self.f = (fp, dots)
            self.emit(rng, "from_str", items)

    def emit(self, rng, name, items):
        def args(xs):
            x = rng.random()
            if x < .25 and xs and ".." not in xs:
                return '"%s"' % ", ".join(xs)
            if x < .4 and xs:
                return ", ".join('"%s"' % i if i != ".." and rng.random() < .5 else i for i in xs)
            return ", ".join(xs)
        if len(items) > 1 and rng.random() < .2:
            k = rng.randrange(1, len(items))
            self.attrs.append("#[%s(bound(%s))]" % (name, args(items[:k])))
            self.attrs.append("#[%s(bound(%s))]" % (name, args(items[k:])))
        else:
            self.attrs.append("#[%s(bound(%s))]" % (name, args(items)))


def make(rng, id):
    ps = ["A", "B", "C"][:rng.choice([1, 1, 2, 2, 3])]
    if rng.random() < .1:
        ps = [rng.choice(["Tt", "Display", "FromStr", "Self_", "r#type", "String", "F", "Debug_"])]
    consts = ["N"] if rng.random() < .2 else []
    which = rng.choice(["d", "f", "df", "df"])
    disp, fs = "d" in which, "f" in which
    life = not fs and rng.random() < .2
    kind = rng.choice(["struct", "struct", "enum"])
    units = []
    if kind == "struct":
        sh = rng.choice(["named", "tuple"])
        units = [("", sh, gen_fields(rng, ps, consts, sh, disp, fs, life), False)]
    else:
        for nm in uniq(rng, ["Aa", "Bb", "Cc", "Dd"], rng.choice([1, 2, 3]), rand=0):
            sh = rng.choice(["named", "tuple"])
            units.append((nm, sh, gen_fields(rng, ps, consts, sh, disp, fs, life), fs and rng.random() < .12))
    newtype = kind == "struct" and len(units[0][2]) == 1 and units[0][2][0].mode in ("used", "opt") and units[0][2][0].specs in ([], [""]) and rng.random() < .5

    def hp(need):
        return [(t, tr) for t, tr in need if has_param(t, ps, consts)]
    dpreds, fpreds = [], []
    alld = [x for u in units for f in u[2] for x in hp(f.dneed)]
    allf = [x for u in units if not u[3] for f in u[2] for x in hp(f.fneed)]
    tb = Bnd(rng, alld, allf, disp, fs, ps) if rng.random() < .4 else None
    dext, fext = True, True
    if tb:
        if tb.d:
            dpreds += tb.d[0]
            dext = tb.d[1]
        if tb.f:
            fpreds += tb.f[0]
            fext = tb.f[1]
    body = []
    for nm, sh, fields, ignore in units:
        ud = [x for f in fields for x in hp(f.dneed)]
        uf = [x for f in fields for x in hp(f.fneed)]
        ub = Bnd(rng, ud, [] if ignore else uf, disp, fs, ps) if kind == "enum" and rng.random() < .3 else None
        d2, f2 = dext, fext and not ignore
        if ub:
            if ub.d and dext:
                dpreds += ub.d[0]
                d2 = ub.d[1]
            if ub.f and fext and not ignore:
                fpreds += ub.f[0]
                f2 = ub.f[1]
        fl = []
        for f in fields:
            fb = Bnd(rng, hp(f.dneed), [] if ignore else hp(f.fneed), disp, fs, ps) if f.mode in ("used", "opt", "with") and rng.random() < .25 else None
            if d2 and f.mode in ("used", "opt", "with"):
                if fb and fb.d:
                    dpreds += fb.d[0]
                    if fb.d[1]:
                        dpreds += hp(f.dneed)
                else:
                    dpreds += hp(f.dneed)
            if f2:
                if fb and fb.f:
                    fpreds += fb.f[0]
                    if fb.f[1]:
                        fpreds += hp(f.fneed)
                else:
                    fpreds += hp(f.fneed)
            at = f.attrs + (fb.attrs if fb else [])
            rng.shuffle(at)
            fl.append("    %s %s%s%s," % (" ".join(at), "pub " if kind == "struct" else "", raw(f.name) + ": " if sh == "named" else "", f.ty))
        fmt = "#[display(%s)]" % rlit(fmt_of(rng, fields)) if not newtype else ""
        at = [a for a in [fmt] + (ub.attrs if ub else []) + (["#[from_str(ignore)]"] if ignore else []) if a]
        rng.shuffle(at)
        o, c = ("{", "}") if sh == "named" else ("(", ")")
        if kind == "struct":
            at += tb.attrs if tb else []
            rng.shuffle(at)
        body.append((at, nm, o + "\n" + "\n".join(fl) + "\n" + c, sh))
    # parameters the fields do not mention need a place
    text = " ".join(f.ty for u in units for f in u[2])
    # the declaration's own bounds: in the list of parameters or behind it
    own = rng.choice([[], [], ps, [p for p in ps if rng.random() < .5]])
    gens = (["'a"] if life else []) + [p if p in own else "%s: %s" % (p, rng.choice(["As", "As", "As + Sized"])) for p in ps] + ["const %s: usize" % c for c in consts]
    missing = [p for p in ps if not re.search(r"\b%s\b" % re.escape(p.replace("r#", "")), text)] + (["&'a ()"] if life and "'a" not in text else [])
    phantom = "std::marker::PhantomData<fn(%s)>" % ", ".join(missing)
    where = " where %s: 'static" % ps[0] if not life and rng.random() < .1 else ""
    if "&'static [" in text:
        where = " where " + ", ".join("%s: 'static" % p for p in ps)
    if where and rng.random() < .5:
        where += ", Wrap<%s>: Sized," % ps[-1]
    if own:
        preds = ["%s: As" % p for p in own]
        rng.shuffle(preds)
        where = (where.rstrip(",") + ", " if where else " where ") + ", ".join(preds) + rng.choice(["", ","])
    ders = ", ".join((["Display"] if disp else []) + (["FromStr"] if fs else []))
    g = ", ".join(gens)
    if kind == "struct":
        at, nm, b, sh = body[0]
        selfdef = fs and rng.random() < .12
        dflds = [rlit(f.name) if f.name else '"%d"' % i for i, f in enumerate(units[0][2]) if f.mode in ("used", "opt")]
        if selfdef:
            at.append("#[from_str(default)]")
        elif fs and dflds and rng.random() < .12:
            at.append("#[from_str(default_fields(%s))]" % ", ".join(rng.sample(dflds, rng.randint(1, len(dflds)))))
        rng.shuffle(at)
        if missing:
            if newtype:
                # a second field would end it
                gens2 = None
            add = "%s pub %s%s," % ("#[from_str(default)]" if fs else "", "zz_ph: " if sh == "named" else "", phantom)
            if newtype:
                return None
            b = b[:-1] + add + "\n" + b[-1]
        decl = "%s\npub struct T<%s>%s %s%s" % ("\n".join(at), g, where if sh == "named" else "", b, (where if sh == "tuple" else "") + (";" if sh == "tuple" else ""))
        if selfdef:
            decl += "\nimpl<%s> Default for T<%s>%s { fn default() -> Self { loop {} } }" % (g, ", ".join((["'a"] if life else []) + ps + consts), where)
    else:
        vs = ["    %s %s%s," % (" ".join(at), raw(nm), b) for at, nm, b, sh in body]
        if missing:
            vs.append('    #[display("zz")] %s Zz(%s %s),' % ("#[from_str(ignore)]" if fs and rng.random() < .3 else "", "#[from_str(default)]" if fs else "", phantom))
        decl = "%s\npub enum T<%s>%s {\n%s\n}" % ("\n".join(tb.attrs) if tb else "", g, where, "\n".join(vs))
    src = ["#[derive(%s)]" % ders, decl]
    # instantiations
    insts = []
    for p in range(len(ps)):
        for mk in MARKS + MORE:
            if rng.random() < (1 if len(ps) == 1 and mk in MARKS else .75 if mk in MARKS else .6):
                a = ["Zall"] * len(ps)
                a[p] = mk
                insts.append(a)
    for _ in range(6 if len(ps) > 1 else 2):
        insts.append([rng.choice(MARKS) for _ in ps])
    seen = set()
    run = ["pub fn run(m: &mut Mon) { let case = %s;" % rlit(id)]
    for a in insts:
        for n in ([1, 2, 3] if consts else [0]):
            if (tuple(a), n) in seen:
                continue
            seen.add((tuple(a), n))
            al = " ".join("type %s = %s;" % (p, x) for p, x in zip(ps, a)) + (" const N: usize = %d;" % n if consts else "")
            args = (["'static"] if life else []) + ps + consts
            tt = "T<%s>" % ", ".join(args)
            def cond(preds):
                out = []
                for t, tr in dict.fromkeys(preds):
                    t = re.sub(r"\b(%s)::Out" % "|".join(map(re.escape, ps)), r"<\1 as As>::Out", t.replace("'a", "'static"))
                    out.append("P::<%s>::%s" % (t, tr))
                return " && ".join(out) or "true"
            key = ",".join(a) + ("/%d" % n if consts else "")
            run.append("    { %s" % al)
            for on, tr, preds in ((disp, "DISPLAY", dpreds), (fs, "FROMSTR", fpreds), (fs, "REGEX", fpreds)):
                if on:
                    run.append("      ck(m, case, %s, P::<%s>::%s, %s);" % (rlit(tr + " " + key), tt, tr, cond(preds)))
            run.append("    }")
    run.append("}")
    src.append(CK + "\n".join(run))
    return Raw(id, "\n".join(src), MODPRE15)


CK = '''fn ck(m: &mut Mon, case: &str, key: &str, got: bool, want: bool) {
    m.bin(if got { "implemented" } else { "not implemented" });
    m.check(case, key, got == want, || format!("{key}: implemented {got}, declared {want}"));
}
'''


def special(b):
    P = "b%d_x_" % b
    body = '''
use std::fmt::Write as _;
%s
pub fn run(m: &mut Mon) { let case = %s;
%s
}'''
    c = lambda e, want, key=None: "    ck(m, case, %s, %s, %s);" % (rlit(key or e), e, "true" if want else "false")
    out = []
    decl = '''
// recursive types terminate with explicit bounds
#[derive(Display, FromStr)] #[display("{v};{next}", bound(T))] pub struct List<T> { pub v: T, #[display(opt)] pub next: Option<Box2<List<T>>> }
#[derive(Display, FromStr)] #[display("{v};{next}")] pub struct List2<T> { pub v: T, #[display(opt, bound(T))] pub next: Option<Box2<List2<T>>> }
#[derive(Display, FromStr)] pub enum Tr3<T> { #[display("l{0}")] L(T), #[display("({0})", bound(T))] N(Box2<Tr3<T>>), #[display("[{0}]")] M(#[display(bound())] Box2<Tr3<T>>) }
pub struct Box2<T>(pub Box<T>);
impl<T: std::fmt::Debug> std::fmt::Debug for Box2<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<T: std::fmt::Display> std::fmt::Display for Box2<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl<T: std::str::FromStr> std::str::FromStr for Box2<T> { type Err = T::Err; fn from_str(s: &str) -> Result<Self, T::Err> { s.parse().map(|x| Box2(Box::new(x))) } }
// a type without parameters has no bound, so it may contain itself; so may parts without them in a type with some
#[derive(Display, FromStr, Debug)] #[display("{v}{next}")] pub struct Node { pub v: char, #[display(".{}", opt)] pub next: Option<Box2<Node>> }
#[derive(Display, FromStr, Debug)] pub enum Tree { #[display("n{0}")] Num(u8), #[display("({0})")] Wrap(Box2<Tree>), #[display("-{x}")] Neg { x: Box2<Tree> } }
#[derive(Debug)] struct Priv(u8); impl std::fmt::Display for Priv { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
impl std::str::FromStr for Priv { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { s.parse().map(Priv).map_err(|_| ()) } }
#[derive(Display, FromStr, Debug)] #[display("{t}/{p}/{n}")] pub struct Mix<T> { pub t: T, p: Priv, pub n: Node }
// bounds on the declaration itself stay
#[derive(Display, FromStr)] pub struct Inl<T: M0>(pub T) where T: M1;
#[derive(Display, FromStr)] #[display("{0}{1}")] pub struct Whr<A, B, C>(pub Wrap<A>, pub Wrap<B>, #[from_str(default)] pub std::marker::PhantomData<C>) where A: M0, B: M1, Wrap<B>: Sized, C: 'static + M0;
#[derive(Display, FromStr)] pub enum WhrE<A, B> where A: M0, B: M1, { #[display("{0}")] X(A), #[display("-{0}")] Y(B) }
#[derive(Display)] pub struct Un<T: ?Sized>(pub T);
#[derive(Display)] pub struct UnRef<'a, T: ?Sized>(pub &'a T);
#[derive(Display)] #[display("{x}{y}")] pub struct Dflt<A = u8, B = Wrap<A>> { pub x: A, pub y: B }
// nothing used, nothing required
#[derive(Display, FromStr)] #[display("k")] pub struct Konst<T>(#[from_str(default)] pub std::marker::PhantomData<T>);
#[derive(Display)] #[display("{x:p}")] pub struct Ptr<'a, T> { pub x: &'a T }
#[derive(Display)] #[display("{x:p}")] pub struct Ptr2<T> { pub x: T }
#[derive(Display, FromStr)] pub enum En<T, U> { #[display("a{0}")] A(T), #[from_str(ignore)] #[display("b{0}")] B(U), C }
#[derive(FromStr)] #[from_str(regex = "(?<a>x)|(?<h.x>[0-9])")] pub struct Rx<T, U> { pub a: T, #[from_str(default)] pub h: Hold<U> }
#[derive(FromStr)] #[display("{a}")] #[from_str(new = Self::mk(a, b))] pub struct Nw<T, U: Default> { pub a: T, #[from_str(default)] pub b: Wrap<U> }
impl<T, U: Default> Nw<T, U> { fn mk(a: T, b: Wrap<U>) -> Self { Nw { a, b } } }
// a module with the name of a parameter is not the parameter
#[allow(non_snake_case)] pub mod T { pub struct X; impl std::fmt::Display for X { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x") } } }
#[derive(Display)] #[display("{0}{1}")] pub struct Modu<U>(pub self::T::X, pub U);
#[derive(Display)] #[display("{0}")] pub struct Both2<T, U>(pub Both<T, U>);
#[derive(Display)] #[display("{0}", bound())] pub struct NoB<T>(pub Always<T>);
#[derive(Display)] #[display("{0}", bound(Wrap<T>))] pub struct WrB<T>(pub Wrap<T>);
#[derive(Display)] #[display("{a.x}{b}", bound(U : Copy, ..))] pub struct Cp<T, U> { pub a: Hold<T>, pub b: U }
#[derive(Display)] #[display("{a}{b}")] pub struct FldB<T, U> { #[display(bound())] pub a: Always<T>, #[display(bound(U : Default, ..))] pub b: U }
'''
    ks = []
    for t, n, w in [("List<Zall>", "DISPLAY", 1), ("List<Znd>", "DISPLAY", 0), ("List<Zall>", "FROMSTR", 1), ("List<Znf>", "FROMSTR", 0), ("List<Znd>", "FROMSTR", 1),
                    ("List2<Zall>", "DISPLAY", 1), ("List2<Znd>", "DISPLAY", 0), ("List2<Zall>", "FROMSTR", 1), ("List2<Znf>", "FROMSTR", 0), ("List2<Znd>", "FROMSTR", 1),
                    ("Tr3<Zall>", "DISPLAY", 1), ("Tr3<Znd>", "DISPLAY", 0), ("Tr3<Zall>", "FROMSTR", 1), ("Tr3<Znf>", "FROMSTR", 0), ("Tr3<Znd>", "FROMSTR", 1),
                    ("Inl<Zall>", "DISPLAY", 1), ("Inl<Zall>", "FROMSTR", 1), ("Whr<Zall, Zall, Zall>", "DISPLAY", 1), ("Whr<Zall, Zall, Zall>", "FROMSTR", 1), ("WhrE<Zall, Zall>", "DISPLAY", 1), ("WhrE<Zall, Zall>", "FROMSTR", 1), ("Un<str>", "DISPLAY", 1), ("Un<[u8]>", "DISPLAY", 0), ("UnRef<'static, str>", "DISPLAY", 1), ("UnRef<'static, [u8]>", "DISPLAY", 0),
                    ("Dflt", "DISPLAY", 1), ("Dflt<Znd, Zall>", "DISPLAY", 0), ("Dflt<Zall, Znd>", "DISPLAY", 0), ("Dflt<Zd, Zd>", "DISPLAY", 1),
                    ("Konst<Znone>", "DISPLAY", 1), ("Konst<Znone>", "FROMSTR", 1), ("Ptr<'static, Znone>", "DISPLAY", 1), ("Ptr2<Zall>", "DISPLAY", 0), ("Ptr2<&'static Znone>", "DISPLAY", 1),
                    ("En<Zd, Zd>", "DISPLAY", 1), ("En<Znd, Zd>", "DISPLAY", 0), ("En<Zd, Znd>", "DISPLAY", 0), ("En<Zf, Znone>", "FROMSTR", 1), ("En<Znf, Zall>", "FROMSTR", 0), ("En<Zf, Znone>", "REGEX", 1),
                    ("Rx<Zf, Znone>", "FROMSTR", 1), ("Rx<Znf, Zall>", "FROMSTR", 0), ("Nw<Zf, Znone>", "FROMSTR", 1), ("Nw<Znf, Zall>", "FROMSTR", 0),
                    ("Modu<Zd>", "DISPLAY", 1), ("Modu<Znd>", "DISPLAY", 0), ("Both2<Zd, Znd>", "DISPLAY", 0), ("Both2<Zd, Zd>", "DISPLAY", 1), ("NoB<Znone>", "DISPLAY", 1), ("WrB<Zd>", "DISPLAY", 1), ("WrB<Znd>", "DISPLAY", 0),
                    ("Cp<Znone, Zd>", "DISPLAY", 1), ("Cp<Znone, Znd>", "DISPLAY", 0), ("Cp<Znone, String>", "DISPLAY", 0), ("Cp<Znone, u8>", "DISPLAY", 1), ("FldB<Znone, Zd>", "DISPLAY", 1), ("FldB<Znone, Znd>", "DISPLAY", 0), ("FldB<Znone, &'static Zd>", "DISPLAY", 0), ("FldB<Znone, &'static str>", "DISPLAY", 1)]:
        ks.append(c("P::<%s>::%s" % (t, n), w))
    ks.append('    let l = List { v: 1, next: Some(Box2(Box::new(List { v: 2, next: None }))) }; let s = l.to_string(); m.check(case, &s, s == "1;2;", || format!("list displays {s:?}"));')
    for t, texts in [("Node", ["a", "a.b", "a.b.c.d", "x.", "é.日", ""]), ("Tree", ["n1", "(n1)", "-(-n255)", "(n256)", "((n1)", "-", "n"]), ("Mix<u8>", ["1/2/a.b", "1/2/", "1/300/a", "x/2/a"]), ("Mix<Word>", ["ab/2/a.b", "A/2/a"])]:
        for x in texts:
            ok = not (x in ("x.", "", "(n256)", "((n1)", "-", "n", "1/2/", "1/300/a", "x/2/a", "A/2/a"))
            ks.append('    { let r = %s.parse::<%s>().map(|x| x.to_string()).ok(); let w: Option<String> = %s; m.check(case, %s, r == w, || format!("%s parsed and displayed gives {r:?}")); }' % (
                rlit(x), t, "Some(%s.into())" % rlit(x) if ok else "None", rlit(t + x), x))
    out.append(Raw(P + "decl", body % (CK + decl, rlit(P + "decl"), "\n".join(ks)), MODPRE15))
    return out


def corpus(b):
    out = []
    for i in range(1600):
        c = make(rng_for("C15", b, i), "b%d_g%d" % (b, i))
        if c:
            out.append(c)
    if b == 0:
        out += special(b)
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=4, min_evals=10000)
