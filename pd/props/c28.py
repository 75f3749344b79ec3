"""Damaged attributes: the derives must answer, never panic."""
from corpora import *
from props import c08, c26

RULE = ("A case is a random declaration whose helper attributes (and sometimes field types, generics and shape) are damaged by one to four edits of their tokens and of the text in their string literals: removed, repeated, "
        "exchanged, moved to another attribute, replaced with others from a pool, formats and regexes cut and spliced. The compiler's messages are recorded: a panic of a derive (other than the answer to dump), a crash of the "
        "compiler or an error that lies in none of the declarations is a violation. Non-trivial: distinct damaged declarations.")

TOK = re.compile(r'r(#*)".*?"\1|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|r#\w+|\'?[A-Za-z_]\w*|\d\w*|::|\.\.=?|=>|->|&&|[-+*/=<>!&|.,:;?@#$%^~]|[()\[\]{}]|\s+', re.S)
POOL = ["display", "from_str", "style", "opt", "with", "default", "ignore", "new", "regex", "regex_infer", "bound", "crate", "default_fields", "dump", "=", ",", "..", "T", "u8", ":", "::", "+", "a", "0", "self", "Self", "r#type",
        '"snake_case"', '"none"', '"{}"', '"{0}"', '"{a}"', '"{a.b.c}"', '""', '"(?<a>.)"', '"(?<>x)"', '"(?<0>.)(?<0>.)"', '"{a}{a}"', '"{:>5}"', '"{a:?}"', '"{"', '"(?P<a.b>x)"', '"(?<a>"', '"[[:alpha:]"', "()", "(..)", "(T)", "(a, b)", '("a")', "[]", "{}",
        "1.5", "0.0.0", "'x'", "b\"x\"", "true", "|x| x", "f()", "!", "-1", "r\"\\d\"", "r#\"{}\"#", "99999999999999999999999999", '"{99999999999999999999999}"', '"{0:99999999999999999999999}"', '"\\u{0}"', '"{é}"', '"(?<é>x)"', '"(?x) # {a}"', '"{r#a}"', '"{_}"', '"{__}"', '"{a.}"', '"{.a}"', '"{.}"',
        '"{:é^+#010.3x?}"', '"{:$}"', '"{a:1$}"', '"{a:.*}"', "where", "for<'a>", "dyn", "impl", "\"(?:)\"", '"\\\\b{start}"', '"(?u)\\\\xff"', '"(?-u)\\\\xff"', '"\\\\pL"', '"a{1000000}"', '"(?<a>x){0}"', '"(?i-s:(?<a>.))"', '"(?<a__b>x)"', '"(?<_0>x)"', '"(?<a.0>x)"', '"(?<0.a>x)"', '"(?<a[0]>x)"', "crate = parse_display", "crate = ", "dump,", '"\\\\p{foo}"']
FTYPES = ["Option<>", "Option", "Option<'static>", "Option<u8, u8>", "Option<{ 1 }>", "Option<Option<u8>>", "()", "(u8, u8)", "[u8; 3]", "&'static str", "fn(u8) -> u8", "!", "_", "dyn Fn()", "Box<dyn std::fmt::Debug>", "impl Sized", "mac!()", "Option<T::X>", "std::option::Option<u8>", "my::std::option::Option<u8>", "a::b::c::d::Option<u8>", "::core::option::Option<u8>", "crate::core::option::Option<u8>", "<u8 as Tr>::X", "*const u8"]
GEN = ["<T>", "<'a>", "<const N: usize>", "<T: Clone, U = u8>", "<'a, 'b: 'a, T: 'a + ?Sized>", "<>", "<T> where T: Clone,", "<r#type>", "<T,>", "<const N: u8 = 3>"]
CHARS = "{}[]()<>?*+|.^$\\:#0123456789abx_ -P=!&é\n\"'~,;@"


def cut(rng, lit):
    """another text in a string literal"""
    m = re.match(r'(r#*)?"(.*)"#*$', lit, re.S)
    if not m:
        return lit
    t = list(m.group(2))
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        i = rng.randint(0, len(t))
        if x < .4:
            t.insert(i, rng.choice(CHARS))
        elif x < .6 and t:
            del t[min(i, len(t) - 1)]
        elif x < .75 and t:
            j = rng.randint(0, len(t))
            t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
        elif x < .85:
            t[i:i] = rng.choice(["{}", "{0}", "{a}", "(?<a>", "(?<>", ")", "{a:", "(?:", "(?i)", "{{", "}}", "[^", "]", "a{2,3}", "{x.y}", "(?P<x>.)", "\\\\d", "(?<0>.*)"])
        else:
            t = t[:i]
    s = "".join(t)
    return rlit(s.encode("utf8", "ignore").decode("utf8")) if m.group(1) else balance(s)


def balance(s):
    """a literal that rustc reads: no stray quotes or escapes"""
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\":
            e = re.match(r'\\(?:[nrt\\0\'"]|x[0-7][0-9a-fA-F]|u\{[0-9a-fA-F]{1,4}\})', s[i:])
            if e and not re.match(r"\\u\{[dD][89a-fA-F]", e.group(0)):
                out += e.group(0)
                i += len(e.group(0))
                continue
            out += "\\\\"
        elif s[i] == '"':
            out += '\\"'
        else:
            out += s[i]
        i += 1
    return '"' + out + '"'


def balanced(toks):
    st = []
    for t in toks:
        if t in ("(", "[", "{"):
            st.append({"(": ")", "[": "]", "{": "}"}[t])
        elif t in (")", "]", "}"):
            if not st or st.pop() != t:
                return False
    return not st


def attrs_of(text):
    """(start, end) of the token lists of the helper attributes"""
    out = []
    for m in re.finditer(r"#\[(display|from_str)\(", text):
        depth, i = 1, m.end()
        while depth:
            t = TOK.match(text, i)
            if t is None:
                return out
            if t.group(0) in ("(", "[", "{"):
                depth += 1
            elif t.group(0) in (")", "]", "}"):
                depth -= 1
            i = t.end()
        out.append((m.end(), i - 1))
    return out


def damage(rng, text, attrs_only=False):
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
        x = 1 if attrs_only else rng.random()
        at = attrs_of(text)
        if x < .06:
            # another type for some field
            ms = list(re.finditer(r"(?<=[ (])(?:pub )?(?:(?:r#)?\w+: )?(u8|i32|u64|String|Word|bool|char|Option<\w+>)(?=[,)\s}])", text))
            ms = [m for m in ms if not any(a <= m.end() <= z for a, z in at)]
            if ms:
                m = rng.choice(ms)
                text = text[:m.start(1)] + rng.choice(FTYPES) + text[m.end(1):]
            continue
        if x < .1:
            m = re.search(r"pub (?:struct|enum) (?:r#)?\w+", text)
            if m:
                text = text[:m.end()] + rng.choice(GEN) + " " + text[m.end():]
            continue
        if x < .12:
            text = re.sub(r"pub enum", "pub struct", text, count=1) if rng.random() < .5 else re.sub(r"pub struct (\w+) \{", r"pub union \1 {", text, count=1)
            continue
        if x < .2 or not at:
            # an attribute more
            ms = list(re.finditer(r"(?<=[{(,]) ?(?=(?:pub )?(?:r#)?\w+)|^(?=pub )", text, re.M))
            ms = [m for m in ms if not any(a <= m.end() <= z for a, z in at)]
            if ms:
                m = rng.choice(ms)
                extra = "#[%s%s] " % (rng.choice(["display", "from_str"]), rng.choice(["", "()", "(%s)" % rng.choice(POOL), "(%s = %s)" % (rng.choice(POOL), rng.choice(POOL)), " = \"x\"", "[]", "{}", "(%s, %s)" % (rng.choice(POOL), rng.choice(POOL))]))
                if balanced([t.group(0) for t in TOK.finditer(extra)]):
                    text = text[:m.end()] + extra + text[m.end():]
            continue
        a, z = rng.choice(at)
        toks = [t.group(0) for t in TOK.finditer(text[a:z])]
        if "".join(toks) != text[a:z]:
            continue
        new = list(toks)
        i = rng.randrange(len(new)) if new else 0
        y = rng.random()
        strs = [k for k, t in enumerate(new) if t.endswith(('"', '"#'))]
        if y < .45 and strs:
            k = rng.choice(strs)
            new[k] = cut(rng, new[k])
        elif y < .55 and new:
            del new[i]
        elif y < .7:
            new.insert(i, " " + rng.choice(POOL) + " ")
        elif y < .8 and new:
            new[i] = " " + rng.choice(POOL) + " "
        elif y < .87 and new:
            j = rng.randrange(len(new))
            new[i], new[j] = new[j], new[i]
        elif y < .93:
            b, c = rng.choice(at)
            new[i:i] = [", ", text[b:c], ", "] if rng.random() < .5 else [text[b:c]]
        else:
            new = new[:i] if rng.random() < .5 else new + [","] + new
        s = " ".join(new)
        ts = [t.group(0) for t in TOK.finditer(s)]
        if "".join(ts) == s and balanced(ts) and len(s) < 4000:
            text = text[:a] + s + text[z:]
    return text


class Bent:
    def __init__(self, id, pre, text):
        self.id, self.pre, self.text = id, pre, text

    def source(self):
        return self.pre + self.text


def corpus(b, n):
    out = []
    for i in range(n // 6):
        rng = rng_for("C28", b, i)
        k = dict(default=.25, decl_default=.15, newfn=1, depth=0, nested=.2, opt=.3, fieldfmt=.3, infer=.25, infer_all=.1, regexattr=.3, new=.2,
                 ignore=.15, efmt=.25, style=.4, vstyle=.3, small=rng.random() < .8)
        k["with"] = .3
        g = G(rng, **k)
        d = g.decl()
        src = [render_decl(x, rng) for x in g.inner]
        last = render_decl(d, rng)
        at = last.index("#[derive(")
        rest = last[last.index("\n", at) + 1:]
        for j in range(6):
            out.append(Bent("b%d_%d_%d" % (b, i, j), "\n".join(src) + "\n" + last[:at] + "\n", ("#[derive(Display, FromStr)]" if rng.random() < .6 else rng.choice(["#[derive(Display)]", "#[derive(FromStr)]"])) + "\n" + damage(rng, rest)))
    if b == 0:
        for i, t in enumerate(HAND):
            for der in ("Display, FromStr", "Display", "FromStr"):
                out.append(Bent("b0_h%d_%s" % (i, der[0] + der[-1]), "", "#[derive(%s)]\n%s" % (der, t)))
    return out


HAND = [
    '#[display("{a}{a}")] pub struct T { pub a: u8 }', '#[display("{a}{a}")] pub enum T { A { a: u8 } }', '#[display("{0}{0}{0}")] pub struct T(u8);', '#[display("{a.b}{a.b}")] pub struct T { pub a: In } pub struct In { pub b: u8 }',
    '#[display("{a}{a.b}")] pub struct T { pub a: In } pub struct In { pub b: u8 }', '#[display("{a.b}{a}")] pub struct T { pub a: In } pub struct In { pub b: u8 }',
    '#[from_str(regex = "(?<a>.)(?<a>.)")] pub struct T { pub a: u8 }', '#[from_str(regex = "(?<a>.)|(?<a>..)")] pub struct T { pub a: u8 }', '#[from_str(regex = "(?<a>.)(?<a.b>.)")] pub struct T { pub a: u8 }',
    '#[display("{a}")] pub struct T { #[display(opt)] pub a: Option<> }', '#[display("{a}")] pub struct T { #[display(opt)] pub a: Option }', '#[display("{a}")] pub struct T { #[display(opt)] pub a: my::std::option::Option<u8> }', '#[display("{a}")] pub struct T { #[display(opt)] pub a: ::a::std::option::Option<u8> }', '#[display("{a}")] pub struct T { #[display(opt)] pub a: () }', '#[display("{a}")] pub struct T { #[display(opt)] pub a: Option<\'static> }',
    '#[display("{a}")] pub union T { a: u8 }', 'pub struct T;', 'pub struct T {}', 'pub struct T();', 'pub enum T {}', '#[display("")] pub struct T;', '#[display("{}")] pub struct T;', '#[display("{}")] pub struct T(u8);', '#[display("{}")] pub enum T {}', '#[display("{}{}")] pub enum T { A(u8) }', '#[display("{}{}{}")] pub enum T { A }',
    'pub struct T(u8, u8);', 'pub enum T { A(u8) }', 'pub enum T { A { a: u8 } }', 'pub struct T { pub a: u8, pub b: u8 }',
    '#[display("{0.0.0}")] pub struct T(((u8,),));', '#[display("{0.0}{0.0}")] pub struct T((u8,));', '#[display("{00}")] pub struct T(u8);', '#[display("{18446744073709551616}")] pub struct T(u8);', '#[display("{0.18446744073709551616}")] pub struct T((u8,));', '#[display("{4294967296}")] pub struct T(u8);',
    '#[from_str(regex = "(?<18446744073709551616>.)")] pub struct T(u8);', '#[from_str(regex = "(?<>.)")] pub struct T(u8);', '#[from_str(regex = "(?<>.)")] pub enum T { A }', '#[from_str(regex = "(?P<>.)")] pub enum T { A }', '#[from_str(regex = "(?<")] pub enum T { A }', '#[from_str(regex = "(")] pub struct T(u8);', '#[from_str(regex = "\\\\")] pub struct T(u8);',
    '#[from_str(regex = "[")] pub struct T(u8);', '#[from_str(regex = "a**")] pub struct T(u8);', '#[from_str(regex = "(?<0>.){1000}{1000}{1000}")] pub struct T(u8);', '#[from_str(regex = "(?-u:\\\\xff)(?<0>.)")] pub struct T(String);', '#[from_str(regex = "(?<0>(?-u:[^a]))")] pub struct T(String);', '#[from_str(regex = "\\\\pN{3,2}")] pub struct T(String);',
    'pub struct T(#[from_str(regex = "(")] u8);', 'pub struct T(#[from_str(regex = "(?-u:\\\\xff)")] String);', 'pub struct T(#[from_str(regex = "(?<x>.)")] u8);', 'pub struct T(#[display("{0}")] u8);', 'pub struct T(#[display("{")] u8);', 'pub struct T(#[display("{x}")] u8);', 'pub struct T(#[display("{}{}")] u8);', 'pub struct T(#[display("{len}")] String);', 'pub struct T(#[display("")] u8);',
    '#[display("{a:}")] pub struct T { pub a: u8 }', '#[display("{a:>}")] pub struct T { pub a: u8 }', '#[display("{a:.}")] pub struct T { pub a: u8 }', '#[display("{a:99999999999}")] pub struct T { pub a: u8 }', '#[display("{a:.99999999999999999999999}")] pub struct T { pub a: u8 }', '#[display("{a:?x}")] pub struct T { pub a: u8 }', '#[display("{a:\\n}")] pub struct T { pub a: u8 }', '#[display("{a:{}}")] pub struct T { pub a: u8 }',
    '#[display(style = "snake_case")] pub enum T { _A, __, _0, A_, Ⅷ, ß, ǆ }', '#[display(style = "camelCase")] pub enum T { __, _1, é }', '#[display(style = "Title Case")] pub enum T { r#Self_, r#async, r#_x }',
    '#[from_str(default_fields())] #[display("")] pub struct T {}', '#[from_str(default_fields(0, "0", a, "a.b", "", "1x"))] #[display("")] pub struct T(u8);', '#[from_str(default_fields(4294967296))] #[display("")] pub struct T(u8);', '#[from_str(default_fields("4294967296"))] #[display("")] pub struct T(u8);',
    '#[from_str(bound(..))] #[display("{0}")] pub struct T<X>(X);', '#[from_str(bound(.., ..))] #[display("{0}")] pub struct T<X>(X);', '#[display(bound())] #[display("{0}")] pub struct T<X>(X);', '#[display(bound(,))] #[display("{0}")] pub struct T<X>(X);', '#[display(bound)] #[display("{0}")] pub struct T<X>(X);', '#[display(bound = 1)] #[display("{0}")] pub struct T<X>(X);',
    '#[display] pub struct T(u8);', '#[display = "x"] pub struct T(u8);', '#[display()] pub struct T(u8);', '#[display(,)] pub struct T(u8);', '#[display(1)] pub struct T(u8);', '#[display("a", "b")] pub struct T(u8);', '#[display("a" "b")] pub struct T(u8);', '#[display(b"a")] pub struct T(u8);', '#[display(\'a\')] pub struct T(u8);', '#[display("a"suffix)] pub struct T(u8);', '#[display(style = "x"y)] pub enum T { A }',
    '#[from_str] pub struct T(u8);', '#[from_str = "x"] pub struct T(u8);', '#[from_str("x")] pub struct T(u8);', '#[from_str(new)] pub struct T(u8);', '#[from_str(new = )] pub struct T(u8);', '#[from_str(regex = )] pub struct T(u8);', '#[from_str(regex = x)] pub struct T(u8);', '#[from_str(with = )] pub struct T(u8);', '#[from_str(default, default)] #[display("")] pub struct T(u8);', '#[from_str(ignore)] pub struct T(u8);', 'pub enum T { #[from_str(ignore, ignore)] A }', '#[display(crate)] pub struct T(u8);', '#[display(crate = 1)] pub struct T(u8);', '#[display(crate = r#crate)] pub struct T(u8);', '#[display(crate = "x")] pub struct T(u8);',
    'pub enum T { #[display("a")] A = 1, #[display("b")] B = { 2 } }', 'pub enum T { #[display("{}")] A, #[display("{}")] r#A2 }', 'pub enum T { A, #[display("A")] B, #[from_str(regex = "A")] C }',
    '#[display("{a}")] pub struct T<const N: usize> where [u8; N]: Sized { pub a: [u8; N] }', "#[display(\"{a}\")] pub struct T<'a, X: 'a + ?Sized> { pub a: &'a X }", '#[display("{a}")] pub struct T { pub a: fn(u8) -> u8 }', '#[display("{a}")] pub struct T { pub a: dyn Fn() }', '#[display("{a}")] pub struct T { pub a: <u8 as Tr>::X }', '#[display("{a}")] pub struct T { pub a: mac!() }', '#[display("{a}")] pub struct T { pub a: _ }',
    '#[display("{a}")] pub struct T { #[display(with = |x| x)] pub a: u8 }', '#[display("{a}")] pub struct T { #[display(with = { 1 })] pub a: u8 }', '#[display("{a}")] pub struct T { #[display(with = a!())] pub a: u8 }', '#[display("{a}")] pub struct T { #[display(with = async {})] pub a: u8 }', '#[display("{a}")] #[from_str(new = if a { b } else { c })] pub struct T { pub a: u8 }',
]


def main(prop, only=None):
    res = Result(prop)
    seen = set()
    for b in range(40 if THOROUGH else 2):
        cases = [c for c in corpus(b, 5400) if c.source() not in seen and not seen.add(c.source())]
        if only:
            cases = [c for c in cases if c.id == only]
        if cases:
            left, rnd = cases, 0
            res.cases += len(cases)
            res.evals += len(cases)
            # an error hides what comes after it in the compiler: again without the declarations that had one
            while left and rnd < 12:
                ok, hit, log = observe(res, left)
                rnd += 1
                left = [c for c in left if c.id not in hit]
                if ok or not hit:
                    break
            res.bins["declarations with an error"] = res.bins.get("declarations with an error", 0) + len(cases) - len(left)
            res.bins["declarations without"] = res.bins.get("declarations without", 0) + len(left)
            if not only and not res.found and len(left) > len(cases) // 2:
                raise Inconclusive("the compiler said too little about damaged declarations:\n" + log[-3000:])
            res.extra["rounds"] = res.extra.get("rounds", 0) + rnd
        if res.found or time.time() - T0 > 1200:
            break
    res.distinct = len(seen) if not only else 1
    return finish(res, RULE, min_evals=1 if only else 4000)


def observe(res, cases):
    d = os.path.join(VERIF, "work/wc28")
    n = 8
    texts, where = {}, {}
    for k in range(n):
        lines = PRE.rstrip("\n").split("\n")
        rs = []
        for c in cases[k::n]:
            start = len(lines) + 1
            lines += ("mod %s {\n%s%s\n}" % (c.id, MODPRE, c.source())).split("\n")
            rs.append((start, len(lines), c))
        lines.append("fn main() {}")
        texts["wc28_s%d" % k] = "\n".join(lines) + "\n"
        where["src/bin/wc28_s%d.rs" % k] = rs
    package("wc28", d, DEPS, texts)
    b = cargo(["check", "--offline", "--message-format=json", "--keep-going"], d)
    import bisect
    hit = set()
    for _, src, msg in b.errors:
        text = msg.get("message", "")
        if text.startswith(("aborting due to", "could not compile")):
            continue
        c = None
        for fn, line, _ in outer_spans(msg):
            rs = where.get(fn)
            if rs:
                i = bisect.bisect_right(rs, line, key=lambda x: x[0]) - 1
                if i >= 0 and rs[i][0] <= line <= rs[i][1]:
                    c = rs[i][2]
                    break
        full = "\n".join([text] + [x["message"] for x in msg["children"]])
        kind = (msg.get("code") or {}).get("code") or ("panic" if "panicked" in text else "message")
        if c is None and not msg["spans"]:
            continue
        if c is None:
            res.violation("?", "error elsewhere", "an error that lies in no declaration:\n" + (msg.get("rendered") or full)[:2500])
            continue
        hit.add(c.id)
        res.bins["errors: " + kind] = res.bins.get("errors: " + kind, 0) + 1
        if "panicked" in text and "macro output:" not in full and not re.search("supports only enum or struct|is required except", full):
            res.violation(c.id, "panic", "a derive panics on\n%s\n%s" % (c.text, full[:1500]), c.source())
    for w in ("internal compiler error", "thread 'rustc' panicked", "SIGSEGV", "SIGABRT"):
        if w in b.log:
            res.violation("?", "crash", b.log[-3000:])
    return b.ok, hit, b.log
