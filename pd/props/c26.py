from corpora import *
from props.c25 import keep_crate
from props.c09 import tweak

RULE = ("A case is a random or hand-written declaration, many of them with the deprecated default_fields on types, variants and ignored variants. "
        "It is compiled twice: with the derives, and with an empty derive in their place. The compiler's warnings are recorded: those of the "
        "first build that are not in the second come from generated code. They must be deprecations, one or more at every default_fields "
        "and none anywhere else. Non-trivial: distinct declarations.")

HAND = [
    '#[derive(Display, FromStr)] #[display("{a}{b}")] pub struct T<A, B>\nwhere A: Clone { #[display("<{}>")] pub a: A, #[display(opt)] pub b: Option<B> }',
    '#[derive(Display, FromStr)] pub enum T { #[display("a")]\nA,\nB,\n#[from_str(ignore)]\n#[display("a")]\nC }',
    '#[derive(FromStr)] pub enum T {}',
    '#[derive(Display)] pub enum T {}',
    '#[derive(Display)] pub enum T { #[display("x")] A(u8), #[display("{}")] B { x: u8 } }',
    '#[derive(FromStr)] pub enum T { #[from_str(ignore)] A(u8), #[from_str(ignore)] B }',
    '#[derive(FromStr)] #[display("x")]\n#[from_str(new = Self { })] pub struct T {}',
    '#[derive(FromStr)] #[display("{a}")] #[from_str(new = T { a: (a) })] pub struct T { pub a: u8 }',
    '#[derive(FromStr)] #[display("{a}")] #[from_str(new = mk(a))] pub struct T { pub a: u8 } fn mk(a: u8) -> T { T { a } }',
    '#[derive(Display, FromStr)] #[allow(non_camel_case_types)] pub enum T { fooBar, #[display("{r#type}")] r#fn { r#type: u8 } }',
    '#[derive(Display, FromStr)] #[display("{0:p}")] pub struct D(pub u8); pub mod m { use super::*; #[derive(Display)] #[display("{0:p}{1:?}")] pub struct T<\'a>(pub &\'a u8, pub u8); }'.replace('#[derive(Display, FromStr)] #[display("{0:p}")] pub struct D(pub u8); ', ''),
    '#[derive(FromStr)]\n#[from_str(regex = "(?<a>[0-9]+)(?<b>.)")]\n#[from_str(default)] #[derive(Default)] pub struct T { pub a: u8, pub b: char, pub c: u8 }',
    '#[derive(FromStr, Default)] #[display("{a.x}")] pub struct T { #[from_str(default)] pub a: In } #[derive(Default)] pub struct In { pub x: u8, pub y: u8 }',
    '#[derive(FromStr)]\n#[display("{a}")]\n#[from_str(default_fields("b", "c"))]\npub struct T { pub a: u8, pub b: u8, pub c: String }',
    '#[derive(FromStr)]\n#[display("{0}")]\n#[from_str(default_fields(1))]\n#[from_str(default_fields(2))]\npub struct T(pub u8, pub u8, pub String);',
    '#[derive(FromStr)]\n#[from_str(default_fields(b))]\npub enum T {\n#[display("{a}")]\n#[from_str(default_fields("c"))]\nA { a: u8, b: u8, c: u8 },\n#[display("q")]\nB { b: u8 } }',
    '#[derive(FromStr)]\npub enum T {\n#[display("{a}")]\n#[from_str(ignore)]\n#[from_str(default_fields("c"))]\nA { a: u8, c: u8 },\nB }',
    '#[derive(FromStr)]\n#[from_str(regex = "(?<a>.)", default_fields(b))]\npub struct T { pub a: u8, pub b: u8 }',
    '#[derive(FromStr)]\n#[from_str(regex_infer, regex = "(?<a>.)", default_fields("b"), bound(), default_fields_ = 1)]\npub struct T { pub a: u8, pub b: u8 }'.replace(", default_fields_ = 1", ""),
    '#[derive(FromStr)]\npub enum T {\n#[display("{a}")]\n#[from_str(new = mk(a, b), default_fields(b), bound(u8 : Copy))]\nA { a: u8, b: u8 } } pub fn mk(a: u8, b: u8) -> T { T::A { a, b } }',
    '#[derive(FromStr)]\n#[display("{a}")]\n#[from_str(default_fields(b, c))]\n#[from_str(default_fields("d"))]\n#[from_str(bound(u8), default_fields(e, f))]\npub struct T { pub a: u8, pub b: u8, pub c: u8, pub d: u8, pub e: u8, pub f: u8 }',
    '#[derive(Display)]\n#[display("{a}")]\npub struct T { pub a: u8, pub b: u8 }',
    '#[derive(FromStr)]\npub enum T {\n#[display("{a}")]\n#[from_str(default_fields(b, c))]\n#[from_str(default_fields("d"))]\n#[from_str(bound(u8), default_fields(e, f))]\nA { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8 },\n#[display("{0}")]\n#[from_str(default_fields(2))]\n#[from_str(default_fields("1"))]\nB(u8, u8, u8) }',
    '#[derive(FromStr)]\n#[from_str(default_fields(b))]\n#[from_str(default_fields("c"))]\npub enum T {\n#[display("{a}")]\n#[from_str(default_fields(d))]\nA { a: u8, b: u8, c: u8, d: u8 },\n#[display("q")]\n#[from_str(ignore)]\n#[from_str(default_fields(b))]\n#[from_str(default_fields(c))]\nB { b: u8, c: u8 } }',
    '#[allow(deprecated)] #[derive(FromStr)] #[display("{a}")] pub struct T { #[from_str(with = W)] pub a: u8 } pub struct W; impl parse_display::FromStrFormat<u8> for W { type Err = (); fn parse(&self, _: &str) -> Result<u8, ()> { Err(()) } fn regex(&self) -> Option<String> { None } }',
    '#[derive(Display, FromStr)] #[display("{a}")] #[non_exhaustive] #[must_use] pub struct T { #[deprecated] pub a: u8 }'.replace('#[deprecated] ', ''),
    '#[derive(Display, FromStr)] #[repr(u8)] pub enum T { A = 1, B = 7 }',
    '#[derive(Display, FromStr)] #[display("{a}")] pub(crate) struct T { a: Priv } #[derive(Display, FromStr)] #[display("{0}")] struct Priv(u8);',
]

# every lint that is off by default, but for those about a whole crate
LINTS = ("unused, rust_2018_idioms, absolute_paths_not_starting_with_crate, ambiguous_negative_literals, closure_returning_async_block, dead_code_pub_in_binary, "
         "deprecated_in_future, deprecated_llvm_intrinsic, deprecated_safe_2024, deref_into_dyn_supertrait, edition_2024_expr_fragment_specifier, "
         "elided_lifetimes_in_paths, explicit_outlives_requirements, ffi_unwind_calls, if_let_rescope, implicit_provenance_casts, impl_trait_overcaptures, "
         "impl_trait_redundant_captures, keyword_idents_2018, keyword_idents_2024, let_underscore_drop, macro_use_extern_crate, meta_variable_misuse, "
         "missing_copy_implementations, missing_debug_implementations, missing_docs, missing_unsafe_on_extern, multiple_supertrait_upcastable, must_not_suspend, "
         "non_ascii_idents, non_exhaustive_omitted_patterns, raw_borrows_via_references, redundant_imports, redundant_lifetimes, "
         "resolving_to_items_shadowing_supertrait_items, rust_2021_incompatible_closure_captures, rust_2021_incompatible_or_patterns, "
         "rust_2021_prefixes_incompatible_syntax, rust_2021_prelude_collisions, rust_2024_guarded_string_incompatible_syntax, rust_2024_incompatible_pat, "
         "rust_2024_prelude_collisions, shadowing_supertrait_items, single_use_lifetimes, tail_expr_drop_order, trivial_casts, trivial_numeric_casts, "
         "unit_bindings, unnameable_types, unqualified_local_imports, unreachable_pub, unsafe_attr_outside_unsafe, unsafe_code, unsafe_op_in_unsafe_fn, "
         "unused_extern_crates, unused_import_braces, unused_lifetimes, unused_macro_rules, unused_qualifications, unused_results, variant_size_differences,")


class Decl26:
    def __init__(self, id, text):
        self.id, self.text = id, text

    def plain(self):
        def one(m):
            rest = [x.strip() for x in m.group(1).split(",") if x.strip() not in ("Display", "FromStr", "")]
            return "#[derive(%s)]" % ", ".join(rest + ["::vrt_keep::Keep"])
        return re.sub(r"#\[derive\(([^)]*)\)\]", one, self.text)

    def source(self):
        return self.text


def deprecate(text, rng):
    """Marks some of the types, variants and fields."""
    out, prev = [], ""
    for l in text.split("\n"):
        if re.match(r"#\[derive\(", l) and rng.random() < .4 or re.match(r"\s+#\[(display|from_str)\(", l) and prev.rstrip().endswith(("{", "(", ",")) and rng.random() < .4:
            l = "#[deprecated] " + l
        out.append(l)
        prev = l
    return "\n".join(out)


def corpus(b):
    out = []
    for i in range(1500):
        rng = rng_for("C26", b, i)
        k = dict(default=.35, decl_default=.15, newfn=1, depth=rng.choice([0, 0, 1]), nested=.2, opt=.2, fieldfmt=.25, infer=.2, infer_all=.1, regexattr=.15, new=.2,
                 ignore=.15, efmt=.15, style=.3, many=16, small=rng.random() < .4)
        k["with"] = .2
        if i % 3 == 1:
            k.update(enum=1)
        g = G(rng, **k)
        d = g.decl()
        for x in g.inner + [d]:
            tweak(x, rng)
            # in front of or behind the other arguments
            for u in [x] + (x.units() if x.kind == "enum" else []):
                u.shuffle_attrs = rng.random() < .5
        o = []
        for x in g.inner + [d]:
            o.append(render_decl(x, rng))
            o.append(render_arb(x))
        t = "\n".join(o)
        if i % 4 == 2:
            t = deprecate(t, rng)
        out.append(Decl26("b%d_g%d" % (b, i), t))
    if b == 0:
        out += [Decl26("b0_h%d" % i, t) for i, t in enumerate(HAND)]
    return out


def build(res, cases, which):
    """{case id: [(code, message, line within the case, text)]}"""
    d = os.path.join(VERIF, "work/wc26" + which)
    n = 8
    texts, where, name = {}, {}, "wc26" + which
    for k in range(n):
        lines = ["#![allow(non_snake_case, non_camel_case_types, non_upper_case_globals, mixed_script_confusables, uncommon_codepoints, confusable_idents, dead_code, unused_imports)]", "#![allow(unknown_lints)]", "#![warn(%s)]" % LINTS, "#![allow(dead_code, unused_imports)]"]
        rs = []
        for c in cases[k::n]:
            lines.append("pub mod %s {" % c.id)
            lines.append("use vrt::*; use parse_display::{Display, FromStr};")
            start = len(lines) + 1
            lines += (c.text if which == "d" else c.plain()).split("\n")
            rs.append((start, len(lines), c))
            lines.append("}")
        lines.append("fn main() {}")
        texts["%s_s%d" % (name, k)] = "\n".join(lines) + "\n"
        where["src/bin/%s_s%d.rs" % (name, k)] = rs
    package(name, d, DEPS + 'vrt-keep = { path = "%s" }\n' % keep_crate(), texts)
    b = cargo(["check", "--offline", "--message-format=json", "--keep-going"], d)

    def find(msg):
        for fn, line, _ in outer_spans(msg):
            for a, z, c in where.get(fn, []):
                if a <= line <= z:
                    return c, line - a
        return None, 0
    out = {c.id: [] for c in cases}
    for _, _, msg in b.errors:
        if msg.get("message", "").startswith(("aborting due to", "could not compile")):
            continue
        c, _ = find(msg)
        if c is None:
            raise Inconclusive("does not build:\n" + (msg.get("rendered") or b.log)[-3000:])
        if which == "k":
            raise Inconclusive("harness: a bare declaration does not compile:\n" + (msg.get("rendered") or "")[:2500] + c.plain())
        res.violation(c.id, "compile error", "a declaration that must be accepted does not compile:\n" + (msg.get("rendered") or "")[:2500], c.source())
    if not b.ok and not res.found:
        raise Inconclusive("does not build:\n" + b.log[-3000:])
    for msg in b.warnings:
        if re.match(r"\d+ warnings? emitted|.* generated \d+ warning", msg["message"]):
            continue
        c, line = find(msg)
        if c is None:
            if not msg.get("spans"):
                continue
            # between the declarations: not theirs
            continue
        prim = [x for x in outer_primary(msg)]
        out[c.id].append(((msg.get("code") or {}).get("code", ""), msg["message"], line, prim, (msg.get("rendered") or "")[:1500]))
    return out, where


def outer_primary(msg):
    """(file, line) of the primary spans, in the source that was written"""
    for sp in msg.get("spans", []):
        if sp.get("is_primary"):
            while sp.get("expansion") and not sp["file_name"].startswith("src/bin/"):
                sp = sp["expansion"]["span"]
            yield sp["file_name"], sp["line_start"], sp["column_start"], sp["column_end"], (sp.get("text") or [{}])[0].get("text", "")


def main(prop, only=None):
    res = Result(prop)
    for b in range(8 if THOROUGH else 1):
        cases = [c for c in corpus(b) if not only or c.id == only]
        if not cases:
            continue
        keep, _ = build(res, cases, "k")
        got, where = build(res, cases, "d")
        for c in cases:
            base = [(code, m, line) for code, m, line, _, _ in keep[c.id]]
            new = [w for w in got[c.id] if (w[0], w[1], w[2]) not in base]
            lines = c.text.split("\n")
            spots = {i for i, l in enumerate(lines) if re.search(r"\bfrom_str\s*[([{].*\bdefault_fields\(", l) and not l.lstrip().startswith("//")}
            # a derive of Display alone has nothing to say about them
            fs = any("FromStr" in m for m in re.findall(r"#\[derive\(([^)]*)\)\]", c.text))
            hit = set()
            for code, m, line, prim, text in new:
                ok = code == "deprecated" and line in spots and prim and "default_fields" in prim[0][4][prim[0][2] - 1:prim[0][3] - 1]
                if ok:
                    hit.add(line)
                else:
                    res.violation(c.id, "warning", "the derives cause a warning that is none of the deprecations:\n" + text, c.source())
                key = "warning %s" % code
                res.bins[key] = res.bins.get(key, 0) + 1
            if fs and not res.found and hit != spots:
                res.violation(c.id, "no warning", "default_fields in line(s) %s causes no deprecation warning" % sorted(x + 1 for x in spots - hit), c.source())
            res.cases += 1
            res.evals += 1
            key = "declarations with %s default_fields" % (len(spots) if len(spots) < 3 else "3+")
            res.bins[key] = res.bins.get(key, 0) + 1
        res.bins["warnings of the bare declarations"] = res.bins.get("warnings of the bare declarations", 0) + sum(map(len, keep.values()))
        res.distinct += len({c.text for c in cases})
        res.samples += [c.text[:300] for c in cases[:3]]
        if res.found or time.time() - T0 > 1200:
            break
    return finish(res, RULE, min_evals=1 if only else 1000)
