use crate::Rng;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::num::NonZero;

/// Random values biased towards boundaries.
pub trait Arb: Sized {
    fn arb(r: &mut Rng) -> Self;
}

macro_rules! arb_int {
    ($($t:ty),*) => {$(
        impl Arb for $t {
            fn arb(r: &mut Rng) -> Self {
                match r.below(8) {
                    0 => 0,
                    1 => <$t>::MAX,
                    2 => <$t>::MIN,
                    3 => (r.below(10)) as $t,
                    4 => (r.below(100)) as $t,
                    5 => (<$t>::MAX >> (r.below(<$t>::BITS as usize) as u32)),
                    _ => {
                        let x = (r.next() as u128) << 64 | r.next() as u128;
                        (x as $t) >> (r.below(<$t>::BITS as usize) as u32)
                    }
                }
            }
        }
        impl Arb for NonZero<$t> {
            fn arb(r: &mut Rng) -> Self {
                loop {
                    if let Some(x) = NonZero::new(<$t as Arb>::arb(r)) {
                        return x;
                    }
                }
            }
        }
    )*};
}
arb_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

impl Arb for bool {
    fn arb(r: &mut Rng) -> Self {
        r.chance(1, 2)
    }
}
impl Arb for () {
    fn arb(_: &mut Rng) -> Self {}
}
impl Arb for f64 {
    fn arb(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 => f64::NAN,
            5 => f64::MAX,
            6 => f64::MIN_POSITIVE,
            7 => 5e-324,
            8 => (r.below(2000) as f64 - 1000.0) / 8.0,
            9 => r.below(100) as f64,
            _ => {
                let x = f64::from_bits(r.next());
                if x.is_nan() { 1.5 } else { x }
            }
        }
    }
}
impl Arb for f32 {
    fn arb(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => f32::INFINITY,
            3 => f32::NEG_INFINITY,
            4 => f32::NAN,
            5 => f32::MAX,
            6 => f32::MIN_POSITIVE,
            7 => 1e-45,
            8 => (r.below(2000) as f32 - 1000.0) / 8.0,
            9 => r.below(100) as f32,
            _ => {
                let x = f32::from_bits(r.next() as u32);
                if x.is_nan() { 2.25 } else { x }
            }
        }
    }
}

pub const CHARS: &[char] = &[
    'a', 'b', 'z', 'A', 'Z', '0', '9', ' ', '-', '_', ',', '.', ':', ';', '/', '\\', '|', '(', ')',
    '[', ']', '{', '}', '<', '>', '^', '$', '*', '+', '?', '#', '&', '~', '%', '@', '!', '\'', '"',
    '`', '=', '\n', '\r', '\t', '\0', '\u{7f}', '\u{85}', '\u{a0}', 'é', 'ß', 'İ', 'ſ', 'K', '日',
    '\u{2028}', '\u{feff}', '\u{fffd}', '\u{10ffff}', '𝒳', '🦀', '\u{301}', '٣',
];

impl Arb for char {
    fn arb(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => loop {
                if let Some(c) = char::from_u32((r.next() % 0x110000) as u32) {
                    break c;
                }
            },
            _ => CHARS[r.below(CHARS.len())],
        }
    }
}

pub const TEXTS: &[&str] = &[
    "", "a", "abc", "0", "1", "10", "-1", "+1", "255", "256", "-128", "1.5", "1e3", "inf", "NaN",
    "nan", "true", "false", "True", " ", "  ", "\n", "a\nb", "\r\n", "é", "日本", "a b", ",", "-",
    ":", "::", ".", "..", "=", "(x)", "{}", "{a}", "}}", "[0-9]+", ".*", "\\", "\\d", "^", "$", "|",
    "\0", "4294967296", "18446744073709551616", "340282366920938463463374607431768211456", "007",
    "0x10", "1_000", "٣", "aa", "ab", "A", "Ab", "x", "None", "Some(1)", "\u{2028}", "🦀",
];

impl Arb for String {
    fn arb(r: &mut Rng) -> Self {
        match r.below(6) {
            0 | 1 => TEXTS[r.below(TEXTS.len())].to_string(),
            2 => {
                let n = r.below(6);
                (0..n).map(|_| char::arb(r)).collect()
            }
            3 => u32::arb(r).to_string(),
            4 => {
                let n = r.below(4) + 1;
                (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
            }
            _ => {
                let n = r.below(3);
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(TEXTS[r.below(TEXTS.len())]);
                }
                s
            }
        }
    }
}
impl Arb for &'static str {
    fn arb(r: &mut Rng) -> Self {
        TEXTS[r.below(TEXTS.len())]
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(r: &mut Rng) -> Self {
        if r.chance(2, 5) { None } else { Some(T::arb(r)) }
    }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(r: &mut Rng) -> Self {
        Box::new(T::arb(r))
    }
}
impl<T: Arb> Arb for &'static T {
    fn arb(r: &mut Rng) -> Self {
        Box::leak(Box::new(T::arb(r)))
    }
}
impl<T: Arb> Arb for &'static mut T {
    fn arb(r: &mut Rng) -> Self {
        Box::leak(Box::new(T::arb(r)))
    }
}
impl<T: Arb> Arb for std::rc::Rc<T> {
    fn arb(r: &mut Rng) -> Self {
        std::rc::Rc::new(T::arb(r))
    }
}
impl<T: Arb> Arb for std::sync::Arc<T> {
    fn arb(r: &mut Rng) -> Self {
        std::sync::Arc::new(T::arb(r))
    }
}
impl<T: Arb + Clone> Arb for std::borrow::Cow<'static, T> {
    fn arb(r: &mut Rng) -> Self {
        std::borrow::Cow::Owned(T::arb(r))
    }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(r: &mut Rng) -> Self {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => r.below(9),
        };
        (0..n).map(|_| T::arb(r)).collect()
    }
}
impl<T: Arb> Arb for VecDeque<T> {
    fn arb(r: &mut Rng) -> Self {
        let mut d: VecDeque<T> = Vec::arb(r).into();
        if r.chance(1, 2) {
            // leave the ring buffer wrapped
            for _ in 0..r.below(4) {
                if let Some(x) = d.pop_back() {
                    d.push_front(x);
                }
            }
        }
        d
    }
}
impl<T: Arb + Ord> Arb for BTreeSet<T> {
    fn arb(r: &mut Rng) -> Self {
        Vec::arb(r).into_iter().collect()
    }
}
impl<K: Arb + Ord, V: Arb> Arb for BTreeMap<K, V> {
    fn arb(r: &mut Rng) -> Self {
        Vec::<(K, V)>::arb(r).into_iter().collect()
    }
}
impl<A: Arb, B: Arb> Arb for (A, B) {
    fn arb(r: &mut Rng) -> Self {
        (A::arb(r), B::arb(r))
    }
}
impl<T> Arb for std::marker::PhantomData<T> {
    fn arb(_: &mut Rng) -> Self {
        std::marker::PhantomData
    }
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::arb(r))
    }
}

/// Text over a-z only: cannot contain any separator used by the round-trip corpus.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Word(pub String);
impl Arb for Word {
    fn arb(r: &mut Rng) -> Self {
        let n = r.below(6);
        Word((0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect())
    }
}
impl std::fmt::Display for Word {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        crate::end(f.write_str(&self.0))
    }
}
impl std::str::FromStr for Word {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.bytes().all(|b| b.is_ascii_lowercase()) {
            Ok(Word(s.to_string()))
        } else {
            Err(())
        }
    }
}

/// Like `Word`, over several lines.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Lines(pub String);
impl Arb for Lines {
    fn arb(r: &mut Rng) -> Self {
        let n = r.below(6);
        Lines((0..n).map(|_| if r.chance(1, 3) { '\n' } else { (b'a' + r.below(26) as u8) as char }).collect())
    }
}
impl std::fmt::Display for Lines {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        crate::end(f.write_str(&self.0))
    }
}
impl std::str::FromStr for Lines {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.bytes().all(|b| b.is_ascii_lowercase() || b == b'\n') {
            Ok(Lines(s.to_string()))
        } else {
            Err(())
        }
    }
}
