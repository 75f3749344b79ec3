//! Drives one case: runs the code under test next to the reference model.
use crate::{Arb, Mon, Rng, guard, inputs};
use regex::{Captures, Regex};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::{self, Debug, Display};
use std::str::FromStr;

/// Why the model rejects a string.
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    NoMatch,
    /// Matched, but these fields do not parse.
    Fields(Vec<&'static str>),
    /// Matched and parsed, but the new expression rejected.
    Rejected,
}
pub type MR<T> = Result<T, Bad>;

thread_local! {
    static CACHE: RefCell<HashMap<(usize, usize), &'static Regex>> = RefCell::new(HashMap::new());
}
pub fn re(pat: &'static str) -> &'static Regex {
    let key = (pat.as_ptr() as usize, pat.len());
    CACHE.with(|c| {
        *c.borrow_mut().entry(key).or_insert_with(|| {
            Box::leak(Box::new(Regex::new(pat).unwrap_or_else(|e| {
                panic!("harness: model regex {pat:?}: {e}")
            })))
        })
    })
}
pub fn caps<'h>(pat: &'static str, s: &'h str) -> MR<Captures<'h>> {
    re(pat).captures(s).ok_or(Bad::NoMatch)
}
type Errs = Vec<&'static str>;
pub fn leaf<T: FromStr>(c: &Captures, g: &str, field: &'static str, e: &mut Errs) -> Option<T> {
    leaf_by(c, g, field, e, |s| s.parse().ok())
}
pub fn leaf_by<T>(
    c: &Captures,
    g: &str,
    field: &'static str,
    e: &mut Errs,
    p: impl Fn(&str) -> Option<T>,
) -> Option<T> {
    let r = p(c.name(g).map_or("", |m| m.as_str()));
    if r.is_none() {
        e.push(field);
    }
    r
}
pub fn leaf_opt<T: FromStr>(
    c: &Captures,
    g: &str,
    field: &'static str,
    e: &mut Errs,
) -> Option<Option<T>> {
    leaf_opt_by(c, g, field, e, |s| s.parse().ok())
}
pub fn leaf_opt_by<T>(
    c: &Captures,
    g: &str,
    field: &'static str,
    e: &mut Errs,
    p: impl Fn(&str) -> Option<T>,
) -> Option<Option<T>> {
    match c.name(g) {
        None => Some(None),
        Some(m) => {
            let r = p(m.as_str());
            if r.is_none() {
                e.push(field);
            }
            r.map(Some)
        }
    }
}
pub fn done(e: Errs) -> MR<()> {
    if e.is_empty() { Ok(()) } else { Err(Bad::Fields(e)) }
}

pub struct Shown {
    pub dbg: String,
    pub got: Result<String, String>,
    pub want: String,
    /// how often probes were formatted for the text, and how often declared
    pub calls: (u64, u64),
    /// where allocations are counted: those while formatting, and whether the text was the same without memory
    pub allocs: Option<(u64, bool)>,
}
pub fn shown<T: Display + Debug>(r: &mut Rng, arb: fn(&mut Rng) -> T, show: fn(&T) -> String) -> Shown {
    let v = arb(r);
    let mut dbg = format!("{v:?}");
    let c0 = crate::probe_calls();
    let mut got = guard(|| v.to_string());
    let c1 = crate::probe_calls();
    let want = show(&v);
    let c2 = crate::probe_calls();
    let counted = crate::allocs() > 0;
    let allocs = (counted && got.is_ok()).then(|| {
        let mut f = crate::Fixed::default();
        let a = crate::allocs();
        let ok = fmt::write(&mut f, format_args!("{v}")).is_ok();
        (crate::allocs() - a, ok && f.same(&want))
    });
    // the parameters with which the value itself is formatted are none of its format's
    if let Ok(text) = &got {
        let (with, other) = match r.below(6) {
            0 => ("{:>40}", guard(|| format!("{v:>40}"))),
            1 => ("{:<+#012.2}", guard(|| format!("{v:<+#012.2}"))),
            2 => ("{:.1}", guard(|| format!("{v:.1}"))),
            3 => ("{:é^#9}", guard(|| format!("{v:é^#9}"))),
            4 => ("{:+}", guard(|| format!("{v:+}"))),
            _ => ("{:015}", guard(|| format!("{v:015}"))),
        };
        if other.as_ref() != Ok(text) {
            dbg += &format!(" (formatted with {with})");
            got = other;
        }
    }
    Shown { dbg, got, want, calls: (c1 - c0, c2 - c1), allocs }
}
/// Result of the code under test: value's Debug text, or the error message.
pub type Got = Result<Result<String, String>, String>;
pub fn parsed<T: FromStr + Debug>(s: &str) -> Got
where
    T::Err: Display,
{
    guard(|| match s.parse::<T>() {
        Ok(v) => Ok(format!("{v:?}")),
        Err(e) => Err(e.to_string()),
    })
}
pub fn modelled<T: Debug>(s: &str, model: fn(&str) -> MR<T>) -> Result<String, Bad> {
    model(s).map(|v| format!("{v:?}"))
}

pub struct Case {
    pub id: &'static str,
    /// derived Display next to the model's text
    pub show: Option<fn(&mut Rng) -> Shown>,
    /// derived FromStr
    pub parse: Option<fn(&str) -> Got>,
    pub model: Option<fn(&str) -> Result<String, Bad>>,
    pub is_enum: bool,
    /// regexes (of the model) to sample inputs from
    pub res: &'static [&'static str],
    pub extra: &'static [&'static str],
    /// parse(show(v)) == v must hold
    pub roundtrip: bool,
    pub values: usize,
    pub strings: usize,
    /// published pattern, to be compared with the model's language
    pub regex: Option<fn() -> String>,
    /// also try long and repeated inputs of about this many bytes
    pub hostile: usize,
}
impl Case {
    pub const BASE: Case = Case {
        id: "",
        show: None,
        parse: None,
        model: None,
        is_enum: false,
        res: &[],
        extra: &[],
        roundtrip: false,
        values: 12,
        strings: 48,
        regex: None,
        hostile: 0,
    };
}

pub fn message(bad: &Bad, is_enum: bool) -> Vec<String> {
    match bad {
        Bad::Fields(fs) if !is_enum => {
            fs.iter().map(|f| format!("field `{f}` parse failed.")).collect()
        }
        _ => vec!["parse failed.".to_string()],
    }
}

pub fn drive(m: &mut Mon, c: &Case) {
    if !m.wants(c.id) {
        return;
    }
    m.bin("cases");
    let mut r = Rng::for_case(m.seed, c.id);
    let mut texts = Vec::new();
    if let Some(show) = c.show {
        for _ in 0..c.values * m.scale {
            let s = show(&mut r);
            let got = match &s.got {
                Ok(t) => t,
                Err(p) => {
                    m.violation(c.id, "panic in Display", format!("value {}: {p}", s.dbg));
                    continue;
                }
            };
            m.eval(c.id, got, true);
            m.bin("displayed");
            if *got != s.want {
                m.violation(
                    c.id,
                    "displayed text",
                    format!("value {}\n  displayed {got:?}\n  declared  {:?}", s.dbg, s.want),
                );
            }
            if let Some((n, same)) = s.allocs {
                m.bin("formatted without memory");
                if n > 0 && !m.may_allocate {
                    m.violation(c.id, "allocates", format!("value {}: {n} allocations while formatting", s.dbg));
                }
                if !same {
                    m.violation(c.id, "text without memory", format!("value {}: another text in a fixed buffer than {:?}", s.dbg, s.want));
                }
            }
            m.bin_n("formatter calls recorded", s.calls.1);
            if s.calls.0 != s.calls.1 {
                m.violation(
                    c.id,
                    "formatted not once",
                    format!("value {}: {} formatter calls, declared {}", s.dbg, s.calls.0, s.calls.1),
                );
            }
            if c.roundtrip {
                if let Some(parse) = c.parse {
                    m.bin("roundtrips");
                    m.eval(c.id, &s.dbg, true);
                    match parse(got) {
                        Ok(Ok(d)) if d == s.dbg => {}
                        other => m.violation(
                            c.id,
                            "round trip",
                            format!("value {}\n  text {got:?}\n  parsed {other:?}", s.dbg),
                        ),
                    }
                }
            }
            if texts.len() < 12 {
                texts.push(s.want);
            }
        }
    }
    if let (Some(parse), Some(model)) = (c.parse, c.model) {
        let n = c.strings * m.scale;
        let mut all = inputs(c.res, &texts, c.extra, &mut r, n);
        if c.hostile > 0 {
            let h = hostile(&all, &mut r, c.hostile);
            m.bin_n("hostile inputs", h.len() as u64);
            m.bin_n("hostile bytes", h.iter().map(|s| s.len() as u64).sum());
            all.extend(h);
        }
        let start = std::time::Instant::now();
        for (i, s) in all.into_iter().enumerate() {
            if i % 16 == 15 && start.elapsed().as_millis() > 4000 * m.scale as u128 {
                m.bin("cases cut short by the time limit");
                break;
            }
            let want = model(&s);
            let got = match parse(&s) {
                Ok(g) => g,
                Err(p) => {
                    m.violation(c.id, "panic in FromStr", format!("input {s:?}: {p}"));
                    continue;
                }
            };
            let (bin, ok) = match (&got, &want) {
                (Ok(a), Ok(b)) => ("parsed", a == b),
                (Err(e), Err(b)) => (
                    match b {
                        Bad::NoMatch => "rejected: no match",
                        Bad::Fields(_) => "rejected: field",
                        Bad::Rejected => "rejected: new",
                    },
                    !m.check_messages || message(b, c.is_enum).contains(e),
                ),
                (Ok(_), Err(_)) => ("wrongly accepted", false),
                (Err(_), Ok(_)) => ("wrongly rejected", false),
            };
            m.bin(bin);
            m.eval(c.id, &s, want.is_ok() || !matches!(want, Err(Bad::NoMatch)) || s.len() > 1);
            if !ok {
                m.violation(
                    c.id,
                    "parse result",
                    format!("input {s:?}\n  from_str: {got:?}\n  declared: {want:?}"),
                );
            }
        }
    }
    if let (Some(regex), Some(model)) = (c.regex, c.model) {
        drive_regex(m, c, regex, model, &texts, &mut r);
    }
}

/// Long inputs: repeated texts, long fields, noise.
pub fn hostile(base: &[String], r: &mut Rng, size: usize) -> Vec<String> {
    let mut out = Vec::new();
    let pick = |r: &mut Rng| base[r.below(base.len())].clone();
    let fit = |unit: &str| {
        let unit = if unit.is_empty() { "x" } else { unit };
        unit.repeat(size / unit.len() + 1)
    };
    for _ in 0..3 {
        let a = pick(r);
        out.push(fit(&a));
        // one long run inside an otherwise ordinary text
        let chars: Vec<char> = a.chars().collect();
        let at = r.below(chars.len() + 1);
        let mut s: String = chars[..at].iter().collect();
        s.push_str(&fit(["0", "9", "a", "\n", " ", "é", "-", "{", "("][r.below(9)]));
        s.extend(&chars[at..]);
        out.push(s);
        let b = pick(r);
        out.push(fit(&format!("{a}{b}")));
    }
    let mut s = String::new();
    while s.len() < size {
        s.push(char::arb(r));
    }
    out.push(s);
    out.push("\0".repeat(size));
    out
}

/// The published pattern matches what is accepted and nothing outside the declared language.
fn drive_regex(
    m: &mut Mon,
    c: &Case,
    regex: fn() -> String,
    model: fn(&str) -> Result<String, Bad>,
    texts: &[String],
    r: &mut Rng,
) {
    let pat = match guard(regex) {
        Ok(p) => p,
        Err(p) => return m.violation(c.id, "panic in from_str_regex", p),
    };
    let full = match Regex::new(&format!(r"\A(?:{pat})\z")) {
        Ok(x) => x,
        Err(e) => return m.violation(c.id, "published pattern", format!("{pat:?}: {e}")),
    };
    if full.capture_names().flatten().next().is_some() {
        m.violation(c.id, "published pattern", format!("named group in {pat:?}"));
    }
    let mut strings = inputs(c.res, texts, c.extra, r, c.strings * m.scale);
    // strings sampled from the published pattern itself show what it accepts too much
    let own = crate::Sampler::new(&[&pat]);
    for _ in 0..c.strings * m.scale / 2 {
        strings.push(own.sample(r, false));
    }
    for s in strings {
        let want = !matches!(model(&s), Err(Bad::NoMatch));
        let got = full.is_match(&s);
        m.bin(if got { "pattern: match" } else { "pattern: no match" });
        m.eval(c.id, &s, true);
        if want != got {
            m.violation(
                c.id,
                "published pattern",
                format!("string {s:?}\n  pattern matches: {got}, declared language: {want}\n  pattern {pat:?}"),
            );
        }
    }
}

/// A writer that fails at one place and would accept everything afterwards.
#[derive(Default)]
pub struct Faulty {
    /// bytes it takes (None: any number)
    pub left: Option<usize>,
    /// the number of the call that fails (0: none)
    pub at: usize,
    /// takes what fits of the piece that does not
    pub partial: bool,
    pub out: String,
    pub calls: usize,
    pub failed: bool,
    /// calls after the failure, or after a field reported one
    pub after: usize,
}
impl fmt::Write for Faulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.failed || crate::tripped() {
            self.after += 1;
            self.out.push_str(s);
            return Ok(());
        }
        if self.calls == self.at {
            self.failed = true;
            return Err(fmt::Error);
        }
        if let Some(left) = &mut self.left {
            if s.len() > *left {
                self.failed = true;
                if self.partial {
                    let mut k = *left;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.out.push_str(&s[..k]);
                }
                return Err(fmt::Error);
            }
            *left -= s.len();
        }
        self.out.push_str(s);
        Ok(())
    }
}
/// Formats random values into writers that fail at every place, and with fields that fail.
pub fn fault<T: Display + Debug>(m: &mut Mon, id: &str, arb: fn(&mut Rng) -> T, show: fn(&T) -> String, values: usize) {
    use fmt::Write;
    let mut r = Rng::for_case(m.seed, id);
    for _ in 0..values * m.scale {
        let v = arb(&mut r);
        let dbg = format!("{v:?}");
        let want = show(&v);
        crate::arm(0);
        let mut w = Faulty::default();
        let res = guard(|| write!(w, "{v}"));
        let (fields, _) = crate::disarm();
        m.eval(id, &dbg, true);
        if res != Ok(Ok(())) || w.out != want {
            m.violation(id, "writer that never fails", format!("value {dbg}: result {res:?}\n  wrote    {:?}\n  declared {want:?}", w.out));
            continue;
        }
        let calls = w.calls;
        let mut runs: Vec<(Faulty, u64, &'static str)> = Vec::new();
        let step = want.len() / 160 + 1;
        for k in (0..want.len()).step_by(step) {
            runs.push((Faulty { left: Some(k), partial: k % 2 == 1, ..Faulty::default() }, 0, "byte"));
        }
        for k in (1..=calls).step_by(calls / 80 + 1) {
            runs.push((Faulty { at: k, ..Faulty::default() }, 0, "call"));
        }
        for k in (1..=fields).step_by(fields as usize / 40 + 1) {
            runs.push((Faulty::default(), k, "field"));
        }
        for (mut w, trip, what) in runs {
            crate::arm(trip);
            let place = (w.left, w.at, trip);
            let res = guard(|| write!(w, "{v}"));
            let (_, tripped) = crate::disarm();
            m.eval(id, &format!("{place:?} {dbg}"), true);
            m.bin(match what {
                "byte" => "failures after a number of bytes",
                "call" => "failures of a write call",
                _ => "failures of a field's formatter",
            });
            let failed = w.failed || tripped;
            if !failed || res != Ok(Err(fmt::Error)) || w.after != 0 || !want.starts_with(&w.out) {
                m.violation(
                    id,
                    "failure",
                    format!(
                        "value {dbg}, failing {what} {place:?} (reached: {failed})\n  result {res:?}, {} writes after it\n  wrote {:?}\n  full  {want:?}",
                        w.after, w.out
                    ),
                );
                break;
            }
        }
    }
}
pub fn arb_of<T: Arb>(r: &mut Rng) -> T {
    T::arb(r)
}

/// Used by generated `new` expressions (the attribute only takes simple expressions).
pub fn some_of<T: Debug>(v: T) -> Option<T> {
    if crate::rng::hash_str(&format!("{v:?}")) % 4 == 0 { None } else { Some(v) }
}
pub trait Bump {
    fn bump(self) -> Self;
}
pub fn bump<T: Bump>(v: T) -> T {
    v.bump()
}
macro_rules! bump_int {
    ($($t:ty),*) => {$( impl Bump for $t { fn bump(self) -> Self { self.wrapping_add(1) } } )*};
}
bump_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Bump for bool {
    fn bump(self) -> Self {
        !self
    }
}
impl Bump for String {
    fn bump(self) -> Self {
        self + "~"
    }
}
#[macro_export]
macro_rules! either {
    ($c:expr, $a:expr, $b:expr) => {
        if $c { $a } else { $b }
    };
}
