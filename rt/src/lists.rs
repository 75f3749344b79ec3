//! Reference formats for parse-display-with and the driver that compares them.
use crate::{Arb, CHARS, Faulty, Mon, Rng, TEXTS, Ws, guard};
use parse_display::{DisplayFormat, FromStrFormat};
use std::collections::LinkedList;
use std::fmt::{self, Debug, Display, Formatter, Write as _};
use std::marker::PhantomData;
use std::str::FromStr;

/// Display and FromStr.
pub struct MFmt;
impl<T: Display + ?Sized> DisplayFormat<T> for MFmt {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        let mut s = String::new();
        match ITEM_OPTIONS.with(|o| o.get()) {
            0 => write!(s, "{v}"),
            1 => write!(s, "{v:>7}"),
            2 => write!(s, "{v:*^+12.2}"),
            _ => write!(s, "{v:#09}"),
        }?;
        f.write_str(&s)
    }
}
thread_local! {
    /// Options of the placeholder that the items are written with (0: none).
    static ITEM_OPTIONS: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
impl<T: FromStr> FromStrFormat<T> for MFmt {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        T::from_str(s)
    }
}
/// Text in brackets, as a closure format would write it.
pub struct MBrk;
impl<T: Display + ?Sized> DisplayFormat<T> for MBrk {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        let mut s = String::new();
        write!(s, "<{v}>")?;
        f.write_str(&s)
    }
}
impl<T: FromStr> FromStrFormat<T> for MBrk {
    type Err = String;
    fn parse(&self, s: &str) -> Result<T, String> {
        brk_parse(s)
    }
}
pub fn brk_write<T: Display + ?Sized>(f: &mut Formatter, v: &T) -> fmt::Result {
    f.write_str("<")?;
    let mut s = String::new();
    write!(s, "{v}")?;
    f.write_str(&s)?;
    crate::end(f.write_str(">"))
}
pub fn brk_parse<T: FromStr>(s: &str) -> Result<T, String> {
    s.strip_prefix('<')
        .and_then(|s| s.strip_suffix('>'))
        .ok_or_else(|| format!("no brackets in {s:?}"))?
        .parse()
        .map_err(|_| format!("not an item: {s:?}"))
}
/// All texts, then the list put together; pieces cut by hand.
pub struct MJoin<I: ?Sized, M>(pub M, pub String, PhantomData<I>);
pub fn mjoin<I: ?Sized, M>(m: M, d: &str) -> MJoin<I, M> {
    MJoin(m, d.to_string(), PhantomData)
}
impl<T: ?Sized, I: ?Sized, M> DisplayFormat<T> for MJoin<I, M>
where
    for<'a> &'a T: IntoIterator<Item = &'a I>,
    M: DisplayFormat<I>,
{
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        let mut texts: Vec<String> = Vec::new();
        for x in v {
            let mut s = String::new();
            write!(s, "{}", Ws(x, &self.0))?;
            texts.push(s);
        }
        let mut o = String::new();
        for i in 0..texts.len() {
            o += &texts[i];
            if i + 1 != texts.len() {
                o += &self.1;
            }
        }
        f.write_str(&o)
    }
}
pub fn cut<'a>(s: &'a str, d: &str) -> Vec<&'a str> {
    let (b, d) = (s.as_bytes(), d.as_bytes());
    let (mut o, mut from, mut i) = (Vec::new(), 0, 0);
    while i + d.len() <= b.len() {
        if &b[i..i + d.len()] == d {
            o.push(&s[from..i]);
            i += d.len();
            from = i;
        } else {
            i += 1;
        }
    }
    o.push(&s[from..]);
    o
}
impl<T: FromIterator<I>, I, M: FromStrFormat<I>> FromStrFormat<T> for MJoin<I, M> {
    type Err = M::Err;
    fn parse(&self, s: &str) -> Result<T, M::Err> {
        let mut xs = Vec::new();
        for p in cut(s, &self.1) {
            xs.push(self.0.parse(p)?);
        }
        Ok(xs.into_iter().collect())
    }
}

impl<T: Arb> Arb for LinkedList<T> {
    fn arb(r: &mut Rng) -> Self {
        Vec::arb(r).into_iter().collect()
    }
}

/// A string made of delimiters, parts of them, item texts and other text.
pub fn list_text(r: &mut Rng, ds: &[&str], items: &[String]) -> String {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 60,
        _ => r.below(9) + 1,
    };
    let mut o = String::new();
    for i in 0..n {
        let d = ds[r.below(ds.len())];
        match r.below(16) {
            0..=6 => o += if items.is_empty() { "" } else { &items[r.below(items.len())] },
            7 => o += TEXTS[r.below(TEXTS.len())],
            8 => o.push(CHARS[r.below(CHARS.len())]),
            9 => {
                // part of a delimiter
                let cs: Vec<char> = d.chars().collect();
                let k = r.below(cs.len() + 1);
                o.extend(&cs[..k]);
            }
            10 => {
                o += d;
                o += d;
            }
            _ => {}
        }
        if i + 1 != n && r.chance(9, 10) {
            o += d;
        }
    }
    o
}
/// One format against its model: writing, writing into writers that fail, parsing.
#[allow(clippy::too_many_arguments)]
pub fn lists<T, L, M, E>(m: &mut Mon, id: &str, lib: L, model: M, ds: &[&str], items: fn(&mut Rng) -> String, values: usize, strings: usize)
where
    T: Arb + Debug + PartialEq,
    L: DisplayFormat<T> + FromStrFormat<T, Err = E>,
    M: DisplayFormat<T> + FromStrFormat<T, Err = E>,
    E: Debug,
{
    let mut r = Rng::for_case(m.seed, id);
    writes(m, id, &lib, &model, &mut r, values);
    let pool: Vec<String> = (0..12).map(|_| items(&mut r)).collect();
    let parse_one = |m: &mut Mon, s: &str, v: Option<&T>| {
        let want = model.parse(s);
        let got = guard(|| lib.parse(s));
        m.eval(id, s, s.len() > 1);
        m.bin(match &want {
            Ok(_) => "texts accepted",
            Err(_) => "texts with a piece that fails",
        });
        let same = matches!((&got, &want), (Ok(Ok(a)), Ok(b)) if a == b || format!("{a:?}") == format!("{b:?}"))
            || matches!((&got, &want), (Ok(Err(a)), Err(b)) if format!("{a:?}") == format!("{b:?}"));
        if !same {
            m.violation(id, "parse", format!("text {s:?}\n  parses to {got:?}\n  expected  {want:?}"));
        }
        if let (Some(v), Ok(w)) = (v, &want) {
            m.bin(if v == w { "lists that come back equal" } else { "lists the text does not tell apart" });
        }
    };
    for _ in 0..values * m.scale {
        let v = T::arb(&mut r);
        let s = Ws(&v, &model).to_string();
        parse_one(m, &s, Some(&v));
    }
    for _ in 0..strings * m.scale {
        let s = list_text(&mut r, ds, &pool);
        parse_one(m, &s, None);
    }
}
pub fn writes<T, L, M>(m: &mut Mon, id: &str, lib: &L, model: &M, r: &mut Rng, values: usize)
where
    T: Arb + Debug,
    L: DisplayFormat<T>,
    M: DisplayFormat<T>,
{
    use fmt::Write;
    for i in 0..values * m.scale {
        let v = T::arb(r);
        let want = Ws(&v, model).to_string();
        let got = guard(|| Ws(&v, lib).to_string());
        let key = format!("{v:?}");
        m.eval(id, &key, want.len() > 1);
        m.bin("lists written");
        if got.as_ref() != Ok(&want) {
            m.violation(id, "write", format!("list {v:?}\n  written  {got:?}\n  expected {want:?}"));
            continue;
        }
        // options of a placeholder may reach the items, never the delimiters
        let kind = 1 + i as u8 % 3;
        let with = guard(|| match kind {
            1 => format!("{:>7}", Ws(&v, lib)),
            2 => format!("{:*^+12.2}", Ws(&v, lib)),
            _ => format!("{:#09}", Ws(&v, lib)),
        });
        ITEM_OPTIONS.with(|o| o.set(kind));
        let want2 = Ws(&v, model).to_string();
        ITEM_OPTIONS.with(|o| o.set(0));
        m.eval(id, &format!("{kind} {key}"), want.len() > 1);
        m.bin("lists written with options");
        if with.as_ref() != Ok(&want) && with.as_ref() != Ok(&want2) {
            m.violation(id, "options", format!("list {v:?} with options {kind}\n  written  {with:?}\n  expected {want:?} or {want2:?}"));
            continue;
        }
        if i % 4 != 0 {
            continue;
        }
        for k in (0..want.len()).step_by(want.len() / 24 + 1) {
            let mut w = Faulty { left: Some(k), partial: k % 2 == 0, ..Faulty::default() };
            let res = guard(|| write!(w, "{}", Ws(&v, lib)));
            m.eval(id, &format!("{k} {key}"), true);
            m.bin("writers that failed");
            if !w.failed || res != Ok(Err(fmt::Error)) || w.after != 0 || !want.starts_with(&w.out) {
                m.violation(id, "failure", format!("list {v:?}, writer failing after {k} bytes\n  result {res:?}, {} writes after it\n  wrote {:?}\n  full  {want:?}", w.after, w.out));
                break;
            }
        }
    }
}
impl<T: Arb> Arb for Box<[T]> {
    fn arb(r: &mut Rng) -> Self {
        Vec::arb(r).into()
    }
}
