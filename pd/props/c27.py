from corpora import *

RULE = ("A case is a random declaration whose derives are built without debug assertions. It is first driven next to the model like anywhere else; then the same values are formatted, the same "
        "strings parsed and the pattern published again for five rounds, under an allocator that counts: no byte may be kept by every round, and a repeated parse may not allocate more than four "
        "times what the model does (which matches with a regex it has built before) plus 32 times, far below what building a pattern takes. Counted cases: 8 threads race on the first use of a type whose "
        "formatters and field types count how often their pattern is asked for while parsing: what building it once takes (at most twice), however often and by whomever it is parsed. A new long string may not be kept either. Non-trivial: distinct (case, text).")
PRE27 = PRE.replace("use vrt::*;", "use vrt::*;\n#[global_allocator] static COUNTING: vrt::Counting = vrt::Counting;")
# only the generated code is built without debug assertions
PROFILE27 = PROFILE.replace('panic = "unwind"', 'panic = "unwind"\ndebug-assertions = false').replace('[profile.dev.package."*"]', '[profile.dev.package."*"]\ndebug-assertions = true')


PATS = ["[a-z]+", "[0-9]{1,3}", "x|yy", "(a|b)*", "(?s:.*)", "(?i)q+", "é?", "[^,;]*", "a{2,3}", ""]


def counted(rng, id):
    """formatters and inferred types that count how often their pattern is asked for"""
    o = ["use std::sync::{Arc, Barrier}; use std::thread;",
         "pub struct Cnt(pub usize, pub &'static str);",
         "impl<T: std::fmt::Display> parse_display::DisplayFormat<T> for Cnt { fn write(&self, f: &mut std::fmt::Formatter, v: &T) -> std::fmt::Result { write!(f, \"{v}\") } }",
         "impl<T: std::str::FromStr> parse_display::FromStrFormat<T> for Cnt { type Err = T::Err; fn parse(&self, s: &str) -> Result<T, T::Err> { s.parse() } fn regex_pattern(&self) -> String { once(BASE + self.0); self.1.to_string() } }",
         "#[derive(Debug, Clone, PartialEq)] pub struct Inf<const K: usize>(pub String);",
         "impl<const K: usize> std::fmt::Display for Inf<K> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }",
         "impl<const K: usize> std::str::FromStr for Inf<K> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Ok(Inf(s.to_string())) } }",
         "impl<const K: usize> parse_display::FromStrRegex for Inf<K> { fn from_str_regex() -> String { once(BASE + K); \"[a-z0-9]*\".to_string() } }"]
    k = [0]

    def field(name, vis):
        x, i = rng.random(), k[0]
        n = "" if name is None else name + ": "
        if x < .5:
            k[0] += 1
            at = rng.choice(["#[display(with = %s)]", "#[display(with = %s)]", "#[from_str(with = %s)]"]) % ("Cnt(%d, %s)" % (i, rlit(rng.choice(PATS))))
            if rng.random() < .2:
                return "%s %s%sOption<String>" % (at.replace("with", "opt, with").replace("from_str(opt, ", "from_str("), vis, n) if at.startswith("#[display") else "%s %s%sString" % (at, vis, n)
            return "%s %s%sString" % (at, vis, n)
        if x < .8:
            k[0] += 1
            return "#[from_str(regex_infer)] %s%sInf<%d>" % (vis, n, i)
        return "%s%s%s" % (vis, n, rng.choice(["String", "u8", "bool"]))

    def fields(pub):
        named = rng.random() < .5
        n = rng.choice([1, 1, 2, 3, 5])
        names = ["f%d" % i for i in range(n)] if named else [None] * n
        keys = names if named else [str(i) for i in range(n)]
        body = ", ".join(field(x, "pub " if pub else "") for x in names)
        fmt = rng.choice(["", "<", "V"]) + rng.choice([",", ";", " "]).join("{%s}" % x for x in keys) + rng.choice(["", ">", "!"])
        return named, body, fmt
    kind = rng.choice(["struct", "struct", "enum", "generic"])
    D = "#[derive(Display, FromStr, Debug)]"
    if kind == "enum":
        vs, texts = [], []
        for i in range(rng.choice([2, 3, 4])):
            if rng.random() < .25:
                vs.append("C%d" % i)
                texts.append("C%d" % i)
                continue
            named, body, fmt = fields(False)
            fmt = "v%d:" % i + fmt
            texts.append(fmt)
            vs.append("#[display(%s)] V%d %s" % (rlit(fmt), i, "{ %s }" % body if named else "(%s)" % body))
        o.append("%s pub enum T { %s }" % (D, ", ".join(vs)))
        uses = ["T"]
    else:
        named, body, fmt = fields(True)
        texts = [fmt]
        if kind == "generic":
            body += ", pub %sA" % ("g: " if named else "")
            fmt += " " + ("{g}" if named else "{%d}" % (body.count("pub ") - 1))
            texts = [fmt]
            o.append("%s #[display(%s)] pub struct T<A> %s" % (D, rlit(fmt), "{ %s }" % body if named else "(%s);" % body))
            uses = ["T<u8>", "T<String>", "T<bool>"]
        else:
            o.append("%s #[display(%s)] pub struct T %s" % (D, rlit(fmt), "{ %s }" % body if named else "(%s);" % body))
            uses = ["T"]
    strings = []
    for t in texts * 3:
        strings.append(re.sub(r"\{.*?\}", lambda m: rng.choice(["a", "1", "x", "true", "", "ab", "12", "aa"]), t))
    strings += ["", "zz", "v0:", texts[0]]
    o.insert(0, "const BASE: usize = @BASE@;")
    o.append("static USES: &[fn(&str) -> Got] = &[%s];" % ", ".join("|s| parsed::<%s>(s)" % u for u in uses))
    o.append("static STRINGS: &[&str] = &[%s];" % ", ".join(rlit(s) for s in strings))
    o.append("""pub fn run(m: &mut Mon) {
    let case = %s; let n = %d;
    let threads = 8; let gate = Arc::new(Barrier::new(threads)); let seed = m.seed;
    let hs: Vec<_> = (0..threads).map(|t| { let gate = gate.clone(); thread::spawn(move || {
        let mut r = Rng::for_case(seed ^ t as u64, case);
        gate.wait();
        let mut out = Vec::new();
        for i in 0..40 { let s = STRINGS[if i == 0 { t %% 2 * r.below(STRINGS.len()) } else { r.below(STRINGS.len()) }]; let u = r.below(USES.len()); out.push((u, s, USES[u](s))); }
        out
    }) }).collect();
    let all: Vec<_> = hs.into_iter().flat_map(|h| h.join().expect("harness: thread")).collect();
    let mut seen: std::collections::HashMap<(usize, &str), String> = Default::default();
    for (u, s, got) in all {
        let d = format!("{got:?}");
        m.bin(match &got { Ok(Ok(_)) => "raced: parsed", Ok(Err(_)) => "raced: rejected", Err(_) => "raced: panicked" });
        let old = seen.entry((u, s)).or_insert_with(|| d.clone()).clone();
        m.check(case, &format!("{u} {s}"), old == d && got.is_ok(), || format!("input {s:?}\n  once  {old}\n  again {d}"));
    }
    let mut used = 0;
    for i in 0..n {
        let k = onces(BASE + i);
        used += (k > 0) as u64;
        m.check(case, &format!("pattern {i}"), k <= 2, || format!("the pattern of formatter or type number {i} was asked for {k} times by parsing alone"));
    }
    m.bin_n("patterns built once", used);
}""" % (rlit(id), k[0]))
    return Raw(id, "\n".join(o)), k[0]


def corpus(b):
    def knobs(rng, i):
        k = dict(depth=rng.choice([0, 1, 2]), derived=.25, nested=.12, opt=.25, fieldfmt=.3, infer=.2, infer_all=.15, regexattr=.2, new=.15,
                 default=.15, decl_default=.15, ignore=.1, efmt=.2, style=.4, vstyle=.2, many=12)
        k["with"] = .35
        return k
    out = randoms("C27", b, 600, knobs, values=8, strings=40, regex=True)
    out += mixed(b, c07=(100, owned), c08=(150, owned), c11=(100, owned), c12=(150, owned), c14=(50, owned))
    for c in out:
        c.tail = c.tail.replace("drive(m, &CASE)", "steady(m, &CASE)")
    base = 0
    for i in range(300):
        c, n = counted(rng_for("C27", b, "n", i), "b%d_n%d" % (b, i))
        c.text = c.text.replace("@BASE@", str(base))
        base += n
        out.append(c)
    return out


def main(prop, only=None):
    return standard(prop, only, corpus, RULE, min_evals=20000, pre=PRE27, profile=PROFILE27)
