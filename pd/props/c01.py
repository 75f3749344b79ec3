from corpora import *

RULE = ("A case is a declaration rendered from a random structural description (shape, names, literals, placeholders by name, "
        "raw name, index or nested path, field formats, opt, with, styles, enum formats); an evaluation compares to_string() of one "
        "value with a writer made of push_str and write!(\"{}\") built from the same description. Non-trivial: distinct (case, text).")


def shapes(batch):
    out = []
    rng = rng_for("C01", batch, "shapes")

    def add(name, d, **kw):
        d.from_str = False
        out.append(make_case("b%d_s_%s" % (batch, name), [d], rng, **dict(dict(values=16), **kw)))
    for i, (shape, fmt) in enumerate([("unit", ["u{"]), ("named", ["}n"]), ("tuple", ["{t}"]), ("unit", []), ("named", []), ("tuple", [])]):
        add("empty%d" % i, Decl("T", "struct", shape=shape, fmt=fmt))
    # every number of fields in both shapes
    for n in [1, 2, 3, 7, 9, 10, 11, 12, 13, 20, 33, 64, 101]:
        for shape in ("named", "tuple"):
            names = uniq(rng, FNAMES, n) if shape == "named" else [None] * n
            fs = [Field(nm, rng.choice(LEAVES)) for nm in names]
            d = Decl("T", "struct", fields=fs, shape=shape)
            order = list(range(n))
            rng.shuffle(order)
            d.fmt = []
            for j in order + [rng.choice(order)]:
                d.fmt += [Var([fs[j].key(j)], rawtext=None if rng.random() < .5 or not fs[j].name else raw(fs[j].name)), rng.choice(["", ",", "{", "}", "{{}}"])]
            d.fmt = [x for x in d.fmt if x != ""]
            add("n%d%s" % (n, shape), d)
            v = Variant("V", [Field(f.name, f.ty) for f in fs], shape, fmt=list(d.fmt) + [Var()])
            add("v%d%s" % (n, shape), Decl("T", "enum", variants=[Variant("A"), v, Variant("B")]))
    # many variants
    for n in [2, 17, 60, 130]:
        vs = [Variant(nm) for nm in uniq(rng, VNAMES, n, rand=.6)]
        add("vs%d" % n, Decl("T", "enum", variants=vs, style=rng.choice(list(STYLES))), values=200)
    # every literal text alone, doubled, around a field and inside a field format
    for i, t in enumerate(LITS):
        if t:
            add("l%d" % i, Decl("T", "enum", variants=[
                Variant("A", fmt=[t]), Variant("B", fmt=[t + t]), Variant("C", [Field(None, U32)], "tuple", fmt=[t, Var("0"), t]),
                Variant("D", [Field(None, STRING, fmt=[t, Var(), t])], "tuple", fmt=[Var("0")]),
                Variant("E", [Field("x", STRING, fmt=[Var(), t, Var()])], "named", fmt=[Var(), t, Var("x"), t])]), values=40)
    # nested paths of every kind, in struct, variant and field formats
    for t in (INNER, TUP, DEEP, INNERL):
        for p, _ in NESTED[t.rust]:
            tag = "%s_%s" % (t.rust, "_".join(p))
            for shape in ("named", "tuple"):
                nm = "type" if shape == "named" else None
                k = "type" if shape == "named" else "0"
                txt = lambda ps: ".".join(raw(x) if rng.random() < .5 else x for x in ps)
                add("p%s%s" % (tag, shape), Decl("T", "struct", [Field(nm, t)], shape, fmt=["<", Var([k] + p, rawtext=txt([k] + p)), ">"]))
                add("q%s%s" % (tag, shape), Decl("T", "struct", [Field(nm, t, fmt=["[", Var(p, rawtext=txt(p)), "]"])], shape))
                add("w%s%s" % (tag, shape), Decl("T", "enum", variants=[Variant("A", [Field(nm, t)], shape, fmt=[Var(), Var([k] + p)]),
                    Variant("B", [Field(nm, option(t), opt=True, fmt=["[", Var(p, rawtext=txt(p)), "]"])], shape, fmt=["(", Var(k), ")"])]))
    return out


def raws(batch):
    P = "b%d_x_" % batch
    out = []
    out.append(checks(P + "generic", '''
#[derive(Display)] #[display("{a}-{b}")] pub struct G<T, U> { pub a: T, pub b: U }
#[derive(Display)] #[display("<{0}>")] pub struct L<'a, T: ?Sized>(pub &'a T);
#[derive(Display)] #[display("{0}/{1}")] pub struct C<const N: usize>(pub u8, pub [u8; N] ) where [u8; N]: ;
''' .replace('{0}/{1}', '{0}'), [
        ('G { a: 1u8, b: "x" }', '"1-x"'), ('G { a: G { a: 1, b: 2 }, b: "y".to_string() }', '"1-2-y"'),
        ('L("str")', '"<str>"'), ('L(&L(&5))', '"<<5>>"'), ('L::<dyn std::fmt::Display>(&3.5)', '"<3.5>"'), ('C([0u8;0].len() as u8, [1u8,2])', '"0"')]))
    out.append(checks(P + "boxes", '''
#[derive(Display)] #[display("({0},{1},{2},{3},{4})")]
pub struct B<'a>(pub Box<u8>, pub &'a &'a str, pub std::rc::Rc<String>, pub &'a mut i32, pub std::borrow::Cow<'a, str>);
#[derive(Display)] pub enum N<'a> { #[display("{}:{0}")] A(&'a str), #[display("{x}{x}{}{}")] B { x: Box<N<'a>> }, #[display(style = "snake_case")] LeafNode }
''', [
        ('B(Box::new(1), &"z", std::rc::Rc::new("q".into()), &mut 7, "cow".into())', '"(1,z,q,7,cow)"'),
        ('N::B { x: Box::new(N::B { x: Box::new(N::A("é")) }) }', '"A:éA:éBBA:éA:éBBBB"'), ('N::LeafNode', '"leaf_node"')]))
    out.append(checks(P + "unsized_tail", '''
#[derive(Display)] #[display("[{a}|{b}]")] pub struct U<T: ?Sized> { pub a: u8, pub b: T }
fn f(u: &U<dyn std::fmt::Display>) -> String { u.to_string() }
fn g(u: &U<dyn std::fmt::Display + Send>) -> String { format!("{u}") }
''', [('f(&U { a: 1, b: "tail" })', '"[1|tail]"'), ('g(&U { a: 2, b: 9u64 })', '"[2|9]"')]))
    out.append(checks(P + "raw_struct", r'''
#[allow(non_camel_case_types)]
#[derive(Display)] #[display("{r#fn}{type}{0x}")] pub struct r#type { pub r#fn: u8, pub r#type: u8, pub _0x: u8 }
'''.replace("{0x}", "{_0x}"), [('r#type { r#fn: 1, r#type: 2, _0x: 3 }', '"123"')]))
    out.append(checks(P + "empty_enum", '''
#[derive(Display, Debug)] pub enum Never {}
#[derive(Display)] #[display("{}")] pub enum Never2 {}
fn need<T: std::fmt::Display>() -> &'static str { "ok" }
#[derive(Display)] #[display("r={0:?}")] pub struct R(pub Result<u8, Never>);
''', [('need::<Never>()', '"ok"'), ('need::<Never2>()', '"ok"'), ('R(Ok(3))', '"r=Ok(3)"')]))
    out.append(checks(P + "recursive", '''
#[derive(Display)] pub enum List { #[display("nil")] Nil, #[display("{0}::{1}")] Cons(u32, Box<List>) }
fn build(n: u32) -> List { (0..n).fold(List::Nil, |l, i| List::Cons(i, Box::new(l))) }
fn want(n: u32) -> String { (0..n).rev().map(|i| format!("{i}::")).collect::<String>() + "nil" }
''', [('build(%d)' % n, 'want(%d)' % n) for n in (0, 1, 2, 50, 300)]))
    out.append(checks(P + "long", '''
#[derive(Display)] #[display("{0}%s{0}")] pub struct T(pub String);
''' % ("ab{{}}é\\n" * 3000), [('T("q".repeat(5000))', 'format!("{0}{1}{0}", "q".repeat(5000), "ab{}é\\n".repeat(3000))')]))
    # hundreds of fields, of placeholders and of variants
    n = 300
    order = [(i * 7 + 3) % n for i in range(n)] + [0, 299, 1, 10, 100, 256, 255]
    out.append(checks(P + "wide", '''
#[derive(Display)] #[display("%s")] pub struct T(%s);
#[derive(Display)] #[display("%s")] pub struct N { %s }
#[derive(Display)] pub enum E { %s }
const ORDER: &[usize] = &%s;
fn want(sep: &str) -> String { ORDER.iter().map(|i| format!("{}{sep}", i * 5)).collect() }
''' % ("".join("{%d}," % i for i in order), ", ".join(["pub u16"] * n), "".join("{f%d};" % i for i in order), ", ".join("pub f%d: u16" % i for i in range(n)),
       ", ".join(("V%d" % i) if i % 2 else '#[display("{}={0}")] V%d(u16)' % i for i in range(n)), order),
        [("T(%s)" % ", ".join(str(i * 5) for i in range(n)), 'want(",")'), ("N { %s }" % ", ".join("f%d: %d" % (i, i * 5) for i in range(n)), 'want(";")')]
        + [("E::V%d" % i if i % 2 else "E::V%d(%d)" % (i, i), '"V%d%s"' % (i, "" if i % 2 else "=%d" % i)) for i in range(n)]))
    # several attributes on one item, and the last unmentioned field untouched
    out.append(checks(P + "noshow", '''
pub struct NoShow;
#[derive(Display)] #[display("{b}")] pub struct T { pub a: NoShow, pub b: u8, pub c: NoShow }
#[derive(Display)] #[display("{1}")] pub struct U(pub NoShow, pub u8, pub NoShow);
#[derive(Display)] pub enum E { #[display("{}")] A(NoShow), #[display("x{y}")] B { x: NoShow, y: u8 } }
''', [('T { a: NoShow, b: 4, c: NoShow }', '"4"'), ('U(NoShow, 5, NoShow)', '"5"'), ('E::A(NoShow)', '"A"'), ('E::B { x: NoShow, y: 6 }', '"x6"')]))
    return out


def corpus(b):
    def knobs(rng, i):
        k = dict(display_only=1, ptr=i % 2 * .4, many=35, nested=0.15, opt=0.15, efmt=.2, depth=rng.choice([0, 1, 2]))
        k["with"] = .08
        if i % 4 == 0:
            k.update(nested=0.5, fieldfmt=0.5)
        if i % 4 == 1:
            k.update(enum=1, efmt=.6, style=.7, vstyle=.4)
        return k
    out = randoms("C01", b, 3000, knobs, values=24)
    # the same when the type also derives FromStr and carries its attributes
    out += randoms("C01", b, 600, dict(nested=.1, opt=.15, infer=.15, new=.15, default=.15, ignore=.1, infer_all=.1, regexattr=.1), tag="f", parse=False, values=16)
    out += mixed(b, c02=500, c11=200, c12=200)
    if b == 0:
        out += shapes(b) + raws(b)
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=10000)
