from corpora import *
from props import c08

RULE = ("A case is a random declaration (structs, enums of constants and patterns, custom regexes at every level, formatters, opt, regex_infer "
        "through up to eight levels of derived types); strings sampled from the declared formats, from the published pattern itself and "
        "mutations of both are classified by the published pattern (compiled by the regex crate, whole match), by the model's language and by "
        "FromStr. Non-trivial: distinct (case, string).")


def corpus(b):
    out = []
    def knobs(rng, i):
        k = dict(infer=.7, derived=rng.choice([.2, .5, .7]), depth=rng.choice([1, 2, 2, 3]), opt=.15, regexattr=.15, fieldfmt=.25, many=10, efmt=.15,
                 default=.05, ignore=.08, style=.3, nested=.05)
        k["with"] = .15
        if i % 3 == 0:
            k.update(infer_all=.6, leaves=[t for t in LEAVES if t is not WORD])
        if i % 4 == 0:
            k.update(lits=["", "", "a", "-", "|", "(", ".", "\n", "é"], longlit=0)
        return k
    out += randoms("C14", b, 1000, knobs, values=6, strings=110, regex=True)
    for i in range(350):
        out.append(c08.type_case(rng_for("C14", b, "t", i), "b%d_t%d" % (b, i), True))
    for i in range(200):
        out.append(c08.field_case(rng_for("C14", b, "f", i), "b%d_f%d" % (b, i), True))
    for i in range(250):
        out.append(wrapped(rng_for("C14", b, "w", i), "b%d_w%d" % (b, i)))
    if b == 0:
        out += special(b)
    return out


def wrapped(rng, id):
    """types with custom regexes or flags, inferred inside other types, several levels deep"""
    decls = []
    t = None
    for lvl in range(rng.choice([2, 2, 3, 4] if id[-1] != "7" else [6, 8])):
        name = "L%d" % lvl
        if t is None:
            x = rng.random()
            if x < .35:
                fs = c08.fields(rng, rng.choice([1, 2]), "tuple", nested=0)
                d = Decl(name, "struct", fs, "tuple")
                import rx
                d.regex = rx.build(rng, c08.caps_of(rng, fs, keep=1))
            elif x < .6:
                d = Decl(name, "enum", variants=[Variant(n, style=rng.choice([None, "snake_case", "kebab-case"])) for n in uniq(rng, VNAMES, rng.choice([1, 2, 5]), up=.5)])
            else:
                g = G(rng, infer=.5, depth=0, opt=.2, regexattr=.3, fieldfmt=.3, **{"with": .3})
                d = g.decl(name)
            d.display = False
        else:
            fs, fmt = [], [rng.choice(LITS)]
            n = rng.choice([1, 1, 2, 3])
            at = rng.randrange(n)
            for i in range(n):
                f = Field(None, t) if i == at or rng.random() < .3 else Field(None, rng.choice([U8, BOOL, CHAR, STRING, F32]))
                f.infer = rng.random() < .85
                if rng.random() < .25:
                    f.ty, f.opt = option(f.ty), True
                if rng.random() < .3:
                    f.fmt = [p for p in [rng.choice(LITS), Var(), rng.choice(LITS)] if p != ""]
                fs.append(f)
                fmt += [Var([str(i)]), rng.choice(LITS)]
            fmt = [p for p in fmt if p != ""]
            if rng.random() < .5:
                d = Decl(name, "struct", fs, "tuple", fmt=None if n == 1 and rng.random() < .5 else fmt)
            else:
                d = Decl(name, "enum", variants=[Variant("Aa"), Variant("Bb", fs, "tuple", fmt=fmt), Variant("Cc", fmt=["c", Var()])])
                if rng.random() < .3:
                    d.variants[0].ignore = True
            d.display = False
        decls.append(d)
        t = d.as_ty()
    return make_case(id, decls, rng, values=0, strings=120, regex=True)


def special(b):
    P = "b%d_x_" % b
    out = []
    src = '''
use parse_display::FromStrRegex;
#[derive(FromStr, Debug)] pub enum None0 {}
#[derive(FromStr, Debug)] pub enum AllIgn { #[from_str(ignore)] A, #[from_str(ignore)] B(u8) }
#[derive(FromStr, Debug)] #[display("<{0}>")] pub struct HoldsNone(#[from_str(regex_infer)] pub AllIgn);
#[derive(FromStr, Debug)] #[display("<{0}>")] pub struct OptNone(#[display(opt)] #[from_str(regex_infer)] pub Option<AllIgn>);
#[derive(FromStr, Debug)] pub enum Alt { A, Ab, #[display("a|b")] Bar, #[display("")] Empty }
#[derive(FromStr, Debug)] #[display("x{0}y{1}")] #[from_str(regex_infer)] pub struct Two(pub Alt, pub Alt);
#[derive(FromStr, Debug)] #[display("{0}")] #[from_str(regex_infer)] pub struct G<T: FromStrRegex>(pub T) where T::Err: std::fmt::Debug;
#[derive(FromStr, Debug)] #[display("lit")] pub struct Lit;
#[derive(FromStr, Debug)] #[display("a.b*c\\n(")] pub struct Meta;
#[derive(FromStr, Debug)] #[display("{0}{1}")] #[from_str(regex_infer)] pub struct LM(pub Lit, pub Meta);
#[derive(FromStr, Debug)] #[from_str(regex = "(?i)ab(?<0>c+)")] pub struct Ci(pub String);
#[derive(FromStr, Debug)] #[display("{0}ab{1}")] #[from_str(regex_infer)] pub struct CiIn(pub Ci, pub Ci);
#[derive(FromStr, Debug)] #[from_str(regex = "(?s)a.(?<0>.)")] pub struct Dot(pub String);
#[derive(FromStr, Debug)] pub enum DotE { #[display("{0}")] D(#[from_str(regex_infer)] Dot), #[from_str(regex = "z.z")] Z }
fn w(p: String) -> regex::Regex { regex::Regex::new(&format!("\\\\A(?:{p})\\\\z")).unwrap() }
fn hits<T: FromStrRegex>(xs: &[&str]) -> String { let r = w(T::from_str_regex()); let r2 = w(T::from_str_regex()); assert!(xs.iter().all(|x| r.is_match(x) == r2.is_match(x))); xs.iter().map(|x| if r.is_match(x) { '1' } else { '0' }).collect() }
fn ok<T: std::str::FromStr>(xs: &[&str]) -> String { xs.iter().map(|x| if x.parse::<T>().is_ok() { '1' } else { '0' }).collect() }
'''
    T = lambda t, xs, pat, acc: [("hits::<%s>(&[%s])" % (t, ", ".join(rlit(x) for x in xs)), rlit(pat)), ("ok::<%s>(&[%s])" % (t, ", ".join(rlit(x) for x in xs)), rlit(acc))]
    pairs = []
    pairs += T("None0", ["", "a", "\n", "A"], "0000", "0000")
    pairs += T("AllIgn", ["", "A", "B"], "000", "000")
    pairs += T("HoldsNone", ["", "<>", "<A>"], "000", "000")
    pairs += T("OptNone", ["", "<>", "<A>"], "010", "010")
    pairs += T("Alt", ["A", "Ab", "a|b", "", "a", "b", "AAb", "|"], "11110000", "11110000")
    pairs += T("Two", ["xy", "xAyAb", "xAbya|b", "xayA", "x", "xAy ", "yA"], "1110000", "1110000")
    pairs += T("G<u8>", ["1", "999", "x", "-1", ""], "11000", "")[:1]
    pairs += T("G<bool>", ["true", "false", "1", ""], "1100", "")[:1]
    pairs += T("G<String>", ["true", "\n", ""], "111", "")[:1]
    pairs += T("G<Alt>", ["A", "B", ""], "101", "")[:1]
    pairs += T("G<G<Two>>", ["xy", "xAyAb", "x"], "110", "")[:1]
    pairs += T("LM", ["lita.b*c\n(", "lit", "litaxb*c\n(", "lita.bbc\n("], "1000", "1000")
    pairs += T("CiIn", ["abcababc", "ABcabaBC", "abcABabc", "abcccababccc"], "1101", "1101")
    pairs += T("DotE", ["a\nb", "a\n\n", "z\nz", "z.z", "zzz"], "11011", "11011")
    # the helper's own panics would be violations
    out.append(checks(P + "pat", src, pairs))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=3, min_evals=20000)
