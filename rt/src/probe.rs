//! A value that writes down how it was formatted.
use crate::{Arb, Rng};
use std::cell::Cell;
use std::fmt;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// Number of times a `Probe` was formatted on this thread.
pub fn probe_calls() -> u64 {
    CALLS.with(|c| c.get())
}

thread_local! {
    static TRIP: Cell<u64> = const { Cell::new(0) };
    static PASSED: Cell<u64> = const { Cell::new(0) };
    static TRIPPED: Cell<bool> = const { Cell::new(false) };
}
/// The n-th formatter to finish from now on (1 = the next) reports an error; 0 = none does.
pub fn arm(n: u64) {
    TRIP.with(|t| t.set(n));
    PASSED.with(|t| t.set(0));
    TRIPPED.with(|t| t.set(false));
}
/// How many formatters finished since `arm`, and whether one of them reported an error.
pub fn disarm() -> (u64, bool) {
    TRIP.with(|t| t.set(0));
    (PASSED.with(|t| t.get()), TRIPPED.with(|t| t.get()))
}
pub fn tripped() -> bool {
    TRIPPED.with(|t| t.get())
}
/// What a field's formatter ends with.
pub fn end(r: fmt::Result) -> fmt::Result {
    let n = PASSED.with(|p| {
        p.set(p.get() + 1);
        p.get()
    });
    if TRIP.with(|t| t.get()) == n {
        TRIPPED.with(|t| t.set(true));
        return Err(fmt::Error);
    }
    r
}

#[derive(Clone, Copy, Default, PartialEq)]
pub struct Probe(pub u32);

fn record(name: &str, n: u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let s = crate::uncounted(|| note(name, n, f));
    let r = f.write_str(&s);
    crate::uncounted(|| drop(s));
    end(r)
}
fn note(name: &str, n: u32, f: &mut fmt::Formatter<'_>) -> String {
    CALLS.with(|c| c.set(c.get() + 1));
    let align = match f.align() {
        Some(fmt::Alignment::Left) => "<",
        Some(fmt::Alignment::Right) => ">",
        Some(fmt::Alignment::Center) => "^",
        None => "",
    };
    format!(
        "[{name} {n} fill={:?} align={align} w={:?} p={:?} plus={} minus={} alt={} zero={}]",
        f.fill(),
        f.width(),
        f.precision(),
        f.sign_plus(),
        f.sign_minus(),
        f.alternate(),
        f.sign_aware_zero_pad()
    )
}
macro_rules! probe {
    ($($t:ident),*) => {$(
        impl fmt::$t for Probe {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                record(stringify!($t), self.0, f)
            }
        }
    )*};
}
probe!(Display, Octal, LowerHex, UpperHex, Binary, LowerExp, UpperExp, Pointer);
impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        record("Debug", self.0, f)?;
        // `x?` and `X?` are only visible through what std does with them
        fmt::Debug::fmt(&0xABCu32, f)
    }
}
impl Arb for Probe {
    fn arb(r: &mut Rng) -> Self {
        Probe(r.below(1000) as u32)
    }
}

/// Implements the format traits through the flags-aware std implementations for `i32`.
macro_rules! num_like {
    ($name:ident, $($t:ident),*) => {
        $(impl fmt::$t for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                end(fmt::$t::fmt(&self.0, f))
            }
        })*
    };
}
#[derive(Clone, Copy, Default, PartialEq)]
pub struct Num(pub i32);
num_like!(Num, Display, Debug, Octal, LowerHex, UpperHex, Binary, LowerExp, UpperExp);
impl Arb for Num {
    fn arb(r: &mut Rng) -> Self {
        Num(i32::arb(r))
    }
}
