from corpora import *

RULE = ("A case is a declaration (random structural description, or hand-written generic one) with dump added in one of its positions. The first "
        "build records the compile error of every derive; which derives must fail follows from the attribute. The code in the errors then "
        "replaces the derives, and the resulting type is compared with the model: texts of values, results of parsing. Non-trivial: distinct "
        "(case, value or string) and (case, derive).")

KEEP = '''
extern crate proc_macro;
/// only makes the helper attributes known
#[proc_macro_derive(Keep, attributes(display, from_str))]
pub fn keep(_: proc_macro::TokenStream) -> proc_macro::TokenStream { proc_macro::TokenStream::new() }
'''


def keep_crate():
    d = os.path.join(VERIF, "work/wc25keep")
    write_if_changed(os.path.join(d, "Cargo.toml"), '[package]\nname = "vrt-keep"\nversion = "0.0.0"\nedition = "2024"\n[lib]\nproc-macro = true\npath = "lib.rs"\n[workspace]\n')
    write_if_changed(os.path.join(d, "lib.rs"), KEEP)
    return d


class Dumped:
    """before/after: the text around the derive line of the type under test"""
    def __init__(self, id, before, ders, after, tail, rng):
        self.id, self.before, self.ders, self.after, self.tail = id, before, ders, after, tail
        both = [x for x in ders if x in ("Display", "FromStr")]
        how = rng.choice(["display", "from_str"]) if "FromStr" in both else "display"
        self.attr = "#[%s(dump)]" % how
        self.expect = set(both) if how == "display" else {"FromStr"}
        self.code = {}

    def dump_source(self):
        return "%s\n#[derive(%s)]\n%s\n%s" % (self.before, ", ".join(self.ders), self.attr, self.after)

    def source(self):
        rest = [x for x in self.ders if x not in self.expect]
        return "%s\n#[derive(%s)]\n%s\n%s\n%s" % (self.before, ", ".join(rest + ["::vrt_keep::Keep"]), self.after, "\n".join(self.code[k] for k in sorted(self.code)), self.tail)


def split_last(body, name):
    """the derive line of the declaration called name"""
    lines = body.split("\n")
    at = max(i for i, l in enumerate(lines) if re.match(r"pub (struct|enum) (r#)?%s\b" % re.escape(name), l))
    k = max(i for i in range(at) if lines[i].startswith("#[derive("))
    ders = [x.strip() for x in lines[k][len("#[derive("):-2].split(",")]
    return "\n".join(lines[:k]), ders, "\n".join(lines[k + 1:])


HAND = [
    ('', 'Display, FromStr, Debug, PartialEq', '#[display("{a}-{b:>3}")] pub struct G<T, U> where T: Clone { pub a: T, #[display("<{}>")] pub b: U }',
     [('G { a: 1u8, b: "x" }.to_string()', '"1-<x>".to_string()'.replace("<x>", "<x>")), ('format!("{:?}", "7-<q>".parse::<G<u8, String>>())', 'format!("{:?}", Ok::<_, ()>(G { a: 7u8, b: "q".to_string() }))')]),
    ('', 'Display', '#[display("{x:p}|{y}")] pub struct G<\'a, T: ?Sized, const N: usize> { pub x: &\'a T, pub y: usize }',
     [('{ let v = 5u8; let g = G::<u8, 3> { x: &v, y: 3 }; g.to_string() == format!("{:p}|3", &v) }', 'true')]),
    ('', 'Display, FromStr, Debug, PartialEq', '#[display(style = "kebab-case")] pub enum G<T> { OneTwo, #[display("{}={0}")] SetTo(T), #[from_str(ignore)] #[display("hid")] Hidden }',
     [('format!("{}{}{}", G::OneTwo::<u8>, G::SetTo(5u8), G::Hidden::<u8>)', '"one-twoset-to=5hid"'), ('format!("{:?}", ["one-two", "set-to=9", "hid", "OneTwo"].map(|s| s.parse::<G<u8>>().ok()))', '"[Some(OneTwo), Some(SetTo(9)), None, None]"')]),
    ('pub fn mk(a: u8, b: u8) -> Option<G> { if a < b { Some(G { a, b }) } else { None } }', 'FromStr, Debug, PartialEq', '#[display("{a}..{b}")] #[from_str(new = mk(a, b))] pub struct G { pub a: u8, pub b: u8 }',
     [('format!("{:?}", ["1..2", "2..1", "1..", "256..257"].map(|s| s.parse::<G>().ok().map(|g| g.b)))', '"[Some(2), None, None, None]"')]),
    ('', 'FromStr, Debug, PartialEq, Default', '#[from_str(regex = "(?<a>[0-9]+)(?<r>[a-z]*)")] #[from_str(default)] pub struct G { pub a: u32, pub r: String, pub z: u8 }',
     [('format!("{:?}", ["12ab", "ab"].map(|s| s.parse::<G>().ok().map(|g| (g.a, g.r, g.z))))', '"[Some((12, \\"ab\\", 0)), None]"')]),
    ('', 'Display, FromStr, Debug, PartialEq', '#[display("{0}{1}")] #[display(crate = ::parse_display)] pub struct G(#[from_str(regex_infer)] pub u8, #[display(opt, with = ::parse_display::helpers::fmt_display_ok)] pub Option<u8>);', None),
]


def corpus(b):
    out = []
    for i in range(700):
        rng = rng_for("C25", b, i)
        k = dict(newfn=1, depth=rng.choice([0, 0, 1]), nested=.15, opt=.2, fieldfmt=.2, infer=.15, regexattr=.1, new=.15, default=.15, decl_default=.1,
                 ignore=.1, efmt=.15, style=.3, small=rng.random() < .5)
        k["with"] = .2
        g = G(rng, **k)
        d = g.decl()
        if not (d.display or d.from_str):
            continue
        c = make_case("b%d_g%d" % (b, i), g.inner + [d], rng, values=8, strings=40, regex=d.from_str and rng.random() < .3)
        before, ders, after = split_last(c.body, d.name)
        out.append(Dumped(c.id, before, ders, after, c.tail, rng))
    if b == 0:
        rng = rng_for("C25", b, "hand")
        for i, (pre, ders, decl, pairs) in enumerate(HAND):
            for how in range(3):
                if pairs:
                    c = checks("b0_h%d_%d" % (i, how), "", pairs)
                    out.append(Dumped(c.id, pre, [x.strip() for x in ders.split(",")], decl, c.text, rng))
    return out


def record(res, cases):
    """fills in the code that the errors show; cases that were observed as they must be"""
    d = os.path.join(VERIF, "work/wc25a")
    n = 8
    parts = [cases[i::n] for i in range(n)]
    texts, where = {}, {}
    for k, cs in enumerate(parts):
        lines = PRE.rstrip("\n").split("\n")
        rs = []
        for c in cs:
            start = len(lines) + 1
            lines.append("mod %s {" % c.id)
            lines += MODPRE.rstrip("\n").split("\n")
            lines += c.dump_source().split("\n")
            lines.append("}")
            rs.append((start, len(lines), c))
        lines.append("fn main() {}")
        texts["wc25a_s%d" % k] = "\n".join(lines) + "\n"
        where["src/bin/wc25a_s%d.rs" % k] = rs
    package("wc25a", d, DEPS, texts)
    b = cargo(["check", "--offline", "--message-format=json", "--keep-going"], d)
    seen = {c.id: [] for c in cases}
    for _, _, msg in b.errors:
        if msg.get("message", "").startswith(("aborting due to", "could not compile")):
            continue
        for fn, line, _ in outer_spans(msg):
            c = next((c for a, z, c in where.get(fn, []) if a <= line <= z), None)
            if c:
                seen[c.id].append(msg)
                break
        else:
            raise Inconclusive("does not build:\n" + (msg.get("rendered") or b.log)[-3000:])
    if not b.errors:
        if not b.ok:
            raise Inconclusive("does not build:\n" + b.log[-3000:])
    good = []
    for c in cases:
        ok = True
        for msg in seen[c.id]:
            sp = next((s for s in msg["spans"] if s["is_primary"]), msg["spans"][0])
            tx = sp["text"][0] if sp["text"] else dict(text="", highlight_start=1, highlight_end=1)
            word = tx["text"][tx["highlight_start"] - 1:tx["highlight_end"] - 1]
            full = "\n".join([msg["message"]] + [x["message"] for x in msg["children"]])
            code = full.split("macro output:\n", 1)[1] if "macro output:\n" in full else None
            which = word if word in ("Display", "FromStr") else None
            if code is not None and which is None:
                which = "Display" if re.search(r"Display\s+for\b", code) else "FromStr"
            if code is None or which not in c.expect or which in c.code:
                ok = False
                res.violation(c.id, "other error", "%s: an error that does not show the code of %s:\n%s" % (c.attr, sorted(c.expect), (msg.get("rendered") or full)[:2500]), c.dump_source())
                break
            c.code[which] = code
            res.evals += 1
            res.distinct += 1
            key = "code of %s shown by %s" % (which, c.attr[2:-1])
            res.bins[key] = res.bins.get(key, 0) + 1
        if ok and set(c.code) != c.expect:
            ok = False
            res.violation(c.id, "no error", "%s: the derive of %s does not fail" % (c.attr, ", ".join(sorted(c.expect - set(c.code)))), c.dump_source())
        if ok:
            good.append(c)
    return good


def main(prop, only=None):
    res = Result(prop)
    keep = keep_crate()
    for b in range(6 if THOROUGH else 1):
        cases = [c for c in corpus(b) if not only or c.id == only]
        if not cases:
            continue
        good = record(res, cases)
        if good:
            run_corpus(res, good, prop, deps=DEPS + 'vrt-keep = { path = "%s" }\n' % keep, only=only)
        if res.found or time.time() - T0 > 1200:
            break
    return finish(res, RULE, min_evals=1 if only else 10000)
