from corpora import *
import copy

RULE = ("A case is a random declaration of any kind (all attributes) in a crate whose dependencies know the library only as `pdx`, so that any other path is a compile error. "
        "#[display(crate = path)] names it directly, by a re-export deep in the own crate, by a module of the own crate that re-exports everything, by a local import, by a re-export of another "
        "crate, or by $crate in another crate's macro. Displayed texts, parse results and patterns are compared with the model. Non-trivial: distinct (case, value or string).")

DEPS19 = 'vrt = { path = "%s/rt" }\npdx = { package = "parse-display", path = "%s/parse-display" }\nregex = "1"\n' % (VERIF, REPO)
PRE19 = PRE + """
pub mod deep { pub mod er { pub mod r#type { pub use pdx as lib; } } }
pub mod all { pub use pdx::*; }
pub mod only { pub use pdx::{helpers, Display, FromStr, DisplayFormat, FromStrFormat, FromStrRegex, IntoResult, ParseError}; }
// what a relative path would find
pub mod parse_display {}
"""
MODPRE19 = "    #[allow(unused_imports)] use vrt::*; #[allow(unused_imports)] use pdx as near;\n    #[allow(unused)] pub mod parse_display {}\n"
PATHS = ["pdx", "::pdx", "crate::deep::er::r#type::lib", "crate::all", "super::deep::er::r#type::lib", "self::near", "near", "::vrt::pd", "vrt::pd", "crate::only", "$crate"]


def redirect(text, rng, name):
    """the derived declaration with its own path to the library"""
    path = rng.choice(PATHS)
    m = re.match(r"#\[derive\((.*?)\)\]\n", text)
    text = text[m.end():]
    ds = m.group(1).split(", ")
    own = [d for d in ds if d in ("Display", "FromStr")]
    rest = [d for d in ds if d not in own]
    head = "#[derive(%s)]\n" % ", ".join(rest) if rest else ""
    if path == "$crate":
        return "::vrt::with_pd! { %s;\n%s%s}" % (", ".join(own), head, text)
    attr = "#[display(crate = %s)]\n" % path
    if rng.random() < .5:
        # among the other attributes
        lines = text.split("\n")
        k = next(i for i, l in enumerate(lines) if l.startswith("pub "))
        ok = all(l.startswith("#[") and l.endswith("]") for l in lines[:k])
        lines.insert(rng.randint(0, k) if ok else 0, attr.rstrip())
        text = "\n".join(lines)
    elif rng.random() < .4 and re.search(r"^#\[display\(.*\)\]$", text, re.M):
        text = re.sub(r"^#\[display\((.*)\)\]$", lambda m: "#[display(%s, crate = %s)]" % (m.group(1), path), text, count=1, flags=re.M)
    else:
        text = attr + text
    return "#[derive(%s)]\n%s%s" % (", ".join(path + "::" + d for d in own), head, text)


def case(rng, id, decls):
    body = []
    for x in decls:
        y = copy.copy(x)
        y.items = ""
        body.append(redirect(render_decl(y, rng), rng, x.name))
        body.append(x.items)
        body.append(render_arb(x))
        if x.display:
            body.append(Shower(x).render())
        if x.from_str:
            body.append(render_model(x))
    tmp = make_case(id, decls, rng, values=6, strings=60, regex=decls[-1].from_str and rng.random() < .6)
    fix = lambda t: re.sub(r"(?<![\w:])parse_display::", "::vrt::pd::", t)
    return CaseSrc(id, fix("\n".join(body)), fix(tmp.tail))


def corpus(b):
    out = []
    for i in range(1300):
        rng = rng_for("C19", b, i)
        k = dict(depth=rng.choice([0, 0, 1]), derived=.2, nested=.15, opt=.3, fieldfmt=.3, infer=.3, regexattr=.15, new=.3, default=.2, decl_default=.2,
                 ignore=.1, efmt=.1, style=.2, small=rng.random() < .5, many=8, infer_all=.25, ptr=.2)
        k["with"] = .35
        g = G(rng, **k)
        d = g.decl("T")
        out.append(case(rng, "b%d_%d" % (b, i), g.inner + [d]))
    if b == 0:
        out += special()
    return out


def special():
    out = []

    def both(ty, *texts):
        return [("match %s.parse::<%s>() { Ok(x) => format!(\"{}\", x), Err(e) => format!(\"{e}\") }" % (rlit(t), ty), rlit(t)) for t in texts]
    out.append(checks("x_fragments", """
vrt::with_pd_expr!(A, u8, "{a}|{b}", vrt::Brk);
const MINE: vrt::Brk = vrt::Brk;
vrt::with_pd_expr!(B, i32, "{b};{a}", MINE);
""", both("A", "<7>|<<>>".replace("<<>>", "<<a>>"), "<255>|") + both("B", "<<x>>;<-7>", ";<0>")))
    out.append(checks("x_generic", """
#[derive(pdx::Display, pdx::FromStr)] #[display(crate = pdx)] #[display("{a:?}/{b:>5}/{c}")] pub struct A<T: PartialEq, U> { a: T, b: U, #[display("{:p}", opt)] #[display(bound())] #[from_str(regex = "[a-z]*")] c: Option<String> }
""".replace('#[display("{:p}", opt)] #[display(bound())] ', '#[display("<{}>", opt)] ').replace("{a:?}/{b:>5}", "{a}/{b}") + """
#[derive(pdx::Display)] #[display("{0:p}{1:#?}{2:x}", crate = pdx)] pub struct P<'a, T, U>(&'a T, U, T);
#[derive(pdx::Display)] #[display(crate = crate::all)] #[display(style = "kebab-case")] pub enum S<'a, T: ?Sized> { AbcDef, #[display("{}={0:p}")] GhiJkl(&'a T) }
#[derive(pdx::FromStr, Debug)] #[display(crate = crate::only)] #[from_str(regex = "(?<a>[0-9]+)-(?<b>.)")] pub struct R { a: u16, b: char }
#[derive(pdx::FromStr, Debug, Default)] #[display(crate = crate::only)] #[from_str(regex = "(?<a>[0-9]+)", default_fields("b"))] pub struct F { a: u16, b: char }
#[derive(pdx::FromStr, Debug)] #[display(crate = crate::only)] #[from_str(default)] #[display("{a.x}")] pub struct N { a: M, b: char }
#[derive(Debug)] pub struct M { x: u8 }
impl Default for N { fn default() -> Self { N { a: M { x: 1 }, b: 'q' } } }
""".replace('"(?<a>[0-9]+)", default_fields("b")', '"(?<a>[0-9]+)", default_fields(b)'),
                      both("A<u8, i64>", "1/-2/<abc>", "1/2/") + [
        ('{ let x = 1u8; format!("{}", P(&x, "q", 10u8)) == format!("{:p}{:#?}{:x}", &x, "q", 10) }', '"true"'),
        ('{ let x = "z"; format!("{} {}", S::<str>::AbcDef, S::GhiJkl(x)) == format!("abc-def ghi-jkl={:p}", x) }', '"true"'),
        ('format!("{:?}", "12-x".parse::<R>())', '"Ok(R { a: 12, b: \'x\' })"'),
        ('format!("{:?}", "12-".parse::<R>().is_err())', '"true"'),
        ('format!("{:?}", "12".parse::<F>())', '"Ok(F { a: 12, b: \'\\\\0\' })"'),
        ('format!("{:?}", "12".parse::<N>())', '"Ok(N { a: M { x: 12 }, b: \'q\' })"'),
    ]))
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, quick=4, min_evals=20000, deps=DEPS19, pre=PRE19, modpre=MODPRE19)
