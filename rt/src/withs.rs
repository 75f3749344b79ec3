//! Custom formats used by `with = ...` in the corpora. Patterns are known to the generator.
use crate::{Arb, Rng, Word};
use parse_display::{ANY_REGEX, DisplayFormat, FromStrFormat, ParseError};
use std::cell::RefCell;
use std::fmt::{self, Display, Formatter};
use std::str::FromStr;

/// Independent equivalent of the library's wrapper.
pub struct Ws<'a, T: ?Sized, F>(pub &'a T, pub &'a F);
impl<T: ?Sized, F: DisplayFormat<T>> Display for Ws<'_, T, F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.1.write(f, self.0)
    }
}
pub fn wparse<T, F: FromStrFormat<T>>(w: F) -> impl Fn(&str) -> Option<T> {
    move |s| w.parse(s).ok()
}

pub struct Hex;
impl DisplayFormat<u32> for Hex {
    fn write(&self, f: &mut Formatter, v: &u32) -> fmt::Result {
        crate::end(write!(f, "{v:x}"))
    }
}
impl FromStrFormat<u32> for Hex {
    type Err = ParseError;
    fn parse(&self, s: &str) -> Result<u32, ParseError> {
        u32::from_str_radix(s, 16).map_err(|_| ParseError::new())
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        "[0-9a-f]+".into()
    }
}
pub struct Plus1;
impl DisplayFormat<i32> for Plus1 {
    fn write(&self, f: &mut Formatter, v: &i32) -> fmt::Result {
        crate::end(write!(f, "{}", v.wrapping_add(1)))
    }
}
impl FromStrFormat<i32> for Plus1 {
    type Err = <i32 as FromStr>::Err;
    fn parse(&self, s: &str) -> Result<i32, Self::Err> {
        Ok(s.parse::<i32>()?.wrapping_sub(1))
    }
}
/// Angle brackets around anything.
pub struct Brk;
impl<T: Display + ?Sized> DisplayFormat<T> for Brk {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        crate::end(write!(f, "<{v}>"))
    }
}
impl<T: FromStr> FromStrFormat<T> for Brk {
    type Err = ParseError;
    fn parse(&self, s: &str) -> Result<T, ParseError> {
        s.strip_prefix('<')
            .and_then(|s| s.strip_suffix('>'))
            .and_then(|s| s.parse().ok())
            .ok_or_else(ParseError::new)
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        "<[^<>]*>".into()
    }
}
/// A bare alternation.
pub struct YesNo;
impl DisplayFormat<bool> for YesNo {
    fn write(&self, f: &mut Formatter, v: &bool) -> fmt::Result {
        crate::end(f.write_str(if *v { "yes" } else { "no" }))
    }
}
impl FromStrFormat<bool> for YesNo {
    type Err = ParseError;
    fn parse(&self, s: &str) -> Result<bool, ParseError> {
        match s {
            "yes" => Ok(true),
            "no" => Ok(false),
            _ => Err(ParseError::new()),
        }
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        "yes|no".into()
    }
}
/// Numbered groups in the pattern, also nested and empty.
pub struct Grp;
impl DisplayFormat<u16> for Grp {
    fn write(&self, f: &mut Formatter, v: &u16) -> fmt::Result {
        crate::end(if v % 2 == 0 { write!(f, "{v}k") } else { write!(f, "{v}m") })
    }
}
impl FromStrFormat<u16> for Grp {
    type Err = ParseError;
    fn parse(&self, s: &str) -> Result<u16, ParseError> {
        s.strip_suffix(['k', 'm'])
            .and_then(|s| s.parse().ok())
            .ok_or_else(ParseError::new)
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        r"((\d)+)()((k)|m)".into()
    }
}
/// A pattern with inline flags.
pub struct Flg;
impl DisplayFormat<Word> for Flg {
    fn write(&self, f: &mut Formatter, v: &Word) -> fmt::Result {
        for c in v.0.chars().flat_map(char::to_uppercase) {
            write!(f, "{c}")?;
        }
        crate::end(Ok(()))
    }
}
impl FromStrFormat<Word> for Flg {
    type Err = ();
    fn parse(&self, s: &str) -> Result<Word, ()> {
        s.to_lowercase().parse()
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        "(?i)[A-Z]*".into()
    }
}
/// The deprecated way to give a pattern.
pub struct OldRegex;
impl DisplayFormat<Word> for OldRegex {
    fn write(&self, f: &mut Formatter, v: &Word) -> fmt::Result {
        crate::end(write!(f, "{v}!"))
    }
}
impl FromStrFormat<Word> for OldRegex {
    type Err = ();
    fn parse(&self, s: &str) -> Result<Word, ()> {
        s.strip_suffix('!').ok_or(())?.parse()
    }
    #[cfg(feature = "pd")]
    #[allow(deprecated)]
    fn regex(&self) -> Option<String> {
        Some("[a-z]*!".into())
    }
}
/// Says explicitly that it matches anything.
pub struct AnyPat;
impl<T: Display + ?Sized> DisplayFormat<T> for AnyPat {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        crate::end(write!(f, "{v}"))
    }
}
impl<T: FromStr> FromStrFormat<T> for AnyPat {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        s.parse()
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        ANY_REGEX.into()
    }
}
/// A format with a parameter: digits repeated `self.0` times apart by underscores.
pub struct Rep(pub usize);
impl DisplayFormat<u8> for Rep {
    fn write(&self, f: &mut Formatter, v: &u8) -> fmt::Result {
        for i in 0..self.0 {
            if i > 0 {
                f.write_str("_")?;
            }
            write!(f, "{v}")?;
        }
        crate::end(Ok(()))
    }
}
impl FromStrFormat<u8> for Rep {
    type Err = ParseError;
    fn parse(&self, s: &str) -> Result<u8, ParseError> {
        let mut it = s.split('_').map(|x| x.parse::<u8>());
        let first = it.next().and_then(|x| x.ok()).ok_or_else(ParseError::new)?;
        for x in it {
            if x != Ok(first) {
                return Err(ParseError::new());
            }
        }
        Ok(first)
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        vec!["[0-9]+"; self.0].join("_")
    }
}
pub const REP3: Rep = Rep(3);
pub fn rep(n: usize) -> Rep {
    Rep(n)
}
/// Takes whatever text there is, newlines included, greedily.
pub struct Greedy;
impl DisplayFormat<String> for Greedy {
    fn write(&self, f: &mut Formatter, v: &String) -> fmt::Result {
        crate::end(f.write_str(v))
    }
}
impl FromStrFormat<String> for Greedy {
    type Err = std::convert::Infallible;
    fn parse(&self, s: &str) -> Result<String, Self::Err> {
        Ok(s.into())
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        "(?s:.*)".into()
    }
}
/// `.` without the s flag: must not match a newline.
pub struct DotPat;
impl DisplayFormat<String> for DotPat {
    fn write(&self, f: &mut Formatter, v: &String) -> fmt::Result {
        crate::end(f.write_str(v))
    }
}
impl FromStrFormat<String> for DotPat {
    type Err = std::convert::Infallible;
    fn parse(&self, s: &str) -> Result<String, Self::Err> {
        Ok(s.into())
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        ".+?".into()
    }
}

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// Calls seen by `Rec` formats on this thread since the last take.
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}
/// Records every call; only writes (display) or only parses (from_str) depending on the use.
pub struct Rec(pub &'static str);
impl<T: Display + ?Sized> DisplayFormat<T> for Rec {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        crate::uncounted(|| log(format!("{}.write({v})", self.0)));
        crate::end(write!(f, "{v}"))
    }
}
impl<T: FromStr> FromStrFormat<T> for Rec {
    type Err = T::Err;
    fn parse(&self, s: &str) -> Result<T, T::Err> {
        log(format!("{}.parse({s})", self.0));
        s.parse()
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Inner {
    pub a: u32,
    pub b: Word,
    pub r#type: u8,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Tup(pub u8, pub Word, pub Inner);
#[derive(Debug, Clone, PartialEq)]
pub struct Deep {
    pub i: Inner,
    pub t: Tup,
    pub n: i64,
}
impl Default for Deep {
    fn default() -> Self {
        Deep {
            i: Inner { a: 77, b: Word("dflt".into()), r#type: 7 },
            t: Tup(9, Word("tup".into()), Inner::default()),
            n: -5,
        }
    }
}
/// A part whose text spans lines.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct InnerL {
    pub n: u8,
    pub l: crate::Lines,
    pub m: crate::Lines,
}
impl Arb for InnerL {
    fn arb(r: &mut Rng) -> Self {
        InnerL { n: Arb::arb(r), l: Arb::arb(r), m: Arb::arb(r) }
    }
}
impl Arb for Inner {
    fn arb(r: &mut Rng) -> Self {
        Inner { a: Arb::arb(r), b: Arb::arb(r), r#type: Arb::arb(r) }
    }
}
impl Arb for Tup {
    fn arb(r: &mut Rng) -> Self {
        Tup(Arb::arb(r), Arb::arb(r), Arb::arb(r))
    }
}
impl Arb for Deep {
    fn arb(r: &mut Rng) -> Self {
        Deep { i: Arb::arb(r), t: Arb::arb(r), n: Arb::arb(r) }
    }
}

/// Text as it is, with any pattern.
pub struct Pat(pub &'static str);
impl DisplayFormat<String> for Pat {
    fn write(&self, f: &mut Formatter, v: &String) -> fmt::Result {
        crate::end(f.write_str(v))
    }
}
impl FromStrFormat<String> for Pat {
    type Err = ();
    fn parse(&self, s: &str) -> Result<String, ()> {
        // some of the matching texts fail
        if crate::rng::hash_str(s) % 16 == 3 { Err(()) } else { Ok(s.into()) }
    }
    #[cfg(feature = "pd")]
    fn regex_pattern(&self) -> String {
        self.0.into()
    }
}
/// Writes in capitals; cannot parse.
pub struct OnlyUp;
impl<T: Display + ?Sized> DisplayFormat<T> for OnlyUp {
    fn write(&self, f: &mut Formatter, v: &T) -> fmt::Result {
        crate::end(write!(f, "{}", v.to_string().to_uppercase()))
    }
}
