//! Run-time side of the monitors: random values, string generation, reference
//! matching, recording of observations and verdicts.
pub mod alloc;
pub mod arb;
#[cfg(feature = "pd")]
pub mod bnd;
pub mod drive;
#[cfg(feature = "pd")]
pub mod lists;
pub mod mon;
pub mod probe;
pub mod race;
pub mod rng;
pub mod steady;
pub mod strgen;
pub mod weigh;
#[cfg(any(feature = "pd", feature = "pdcore"))]
pub mod withs;

pub use alloc::*;
pub use arb::*;
pub use drive::*;
#[cfg(feature = "pd")]
pub use lists::*;
pub use mon::*;
pub use probe::*;
pub use race::*;
pub use rng::Rng;
pub use steady::*;
pub use strgen::*;
pub use weigh::*;
#[cfg(any(feature = "pd", feature = "pdcore"))]
pub use withs::*;

/// The library under another name, and a macro of another crate that derives through it.
#[cfg(feature = "pd")]
pub use parse_display as pd;
#[cfg(feature = "pd")]
#[macro_export]
macro_rules! with_pd {
    ($($d:ident),*; $($t:tt)*) => {
        #[derive($($crate::pd::$d),*)]
        #[display(crate = $crate::pd)]
        $($t)*
    };
}
#[cfg(feature = "pd")]
#[macro_export]
macro_rules! with_pd_expr {
    ($n:ident, $t:ty, $f:literal, $e:expr) => {
        #[derive($crate::pd::Display, $crate::pd::FromStr)]
        #[display(crate = $crate::pd)]
        #[display($f)]
        pub struct $n {
            #[display(with = $e)]
            pub a: $t,
            #[display("<{}>", opt, with = $crate::Brk)]
            pub b: Option<$crate::Word>,
            #[from_str(default)]
            pub c: $crate::Word,
        }
    };
}
