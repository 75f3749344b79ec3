//! Types that implement known sets of traits, and probes that tell at run time which traits a type implements.
use parse_display::{DisplayFormat, FromStrFormat};
use std::fmt::{self, Formatter};
use std::marker::PhantomData;
use std::str::FromStr;

pub struct P<T: ?Sized>(PhantomData<fn(&T)>);
pub trait Fallback {
    const DISPLAY: bool = false;
    const DEBUG: bool = false;
    const LHEX: bool = false;
    const PTR: bool = false;
    const UHEX: bool = false;
    const OCT: bool = false;
    const BIN: bool = false;
    const LEXP: bool = false;
    const UEXP: bool = false;
    const FROMSTR: bool = false;
    const REGEX: bool = false;
    const M0: bool = false;
    const M1: bool = false;
}
impl<T: ?Sized> Fallback for P<T> {}
macro_rules! yes {
    ($($c:ident $t:path),*) => {$( impl<T: ?Sized + $t> P<T> { pub const $c: bool = true; } )*};
}
yes!(DISPLAY fmt::Display, DEBUG fmt::Debug, LHEX fmt::LowerHex, PTR fmt::Pointer, UHEX fmt::UpperHex, OCT fmt::Octal, BIN fmt::Binary, LEXP fmt::LowerExp, UEXP fmt::UpperExp, M0 M0, M1 M1);
impl<T: FromStr> P<T> {
    pub const FROMSTR: bool = true;
}
impl<T: parse_display::FromStrRegex> P<T> {
    pub const REGEX: bool = true;
}

pub trait M0 {}
pub trait M1 {}
/// Every parameter has an associated type.
pub trait As {
    type Out;
}

macro_rules! marker {
    (@ $z:ident d) => { impl fmt::Display for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("d") } } };
    (@ $z:ident g) => { impl fmt::Debug for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("g") } } };
    (@ $z:ident x) => { impl fmt::LowerHex for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("x") } } };
    (@ $z:ident U) => { impl fmt::UpperHex for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("U") } } };
    (@ $z:ident o) => { impl fmt::Octal for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("o") } } };
    (@ $z:ident b) => { impl fmt::Binary for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("b") } } };
    (@ $z:ident e) => { impl fmt::LowerExp for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("e") } } };
    (@ $z:ident E) => { impl fmt::UpperExp for $z { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("E") } } };
    (@ $z:ident f) => { impl FromStr for $z { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { if s == "d" { Ok($z) } else { Err(()) } } } };
    (@ $z:ident m) => { impl M0 for $z {} };
    (@ $z:ident n) => { impl M1 for $z {} };
    ($($z:ident -> $o:ident: $($k:ident)*;)*) => {$(
        #[derive(Default, Clone, Copy, PartialEq)] pub struct $z;
        impl As for $z { type Out = $o; }
        $( marker!(@ $z $k); )*
    )*};
}
marker! {
    Zall -> Zall: d g x f m n U o b e E;
    Znone -> Zall: ;
    Zd -> Znd: d;
    Zg -> Zd: g;
    Zx -> Znone: x;
    Zf -> Znf: f;
    Zm -> Zf: m n;
    Zdf -> Zg: d f;
    Znd -> Zdf: g x f m n U o b e E;
    Zng -> Znone: d x f m n U o b e E;
    Znx -> Zm: d g f m n U o b e E;
    Znf -> Zall: d g x m n U o b e E;
    Zn0 -> Zd: d g x f n U o b e E;
    Znux -> Znx: d g x f m n o b e E;
    Znoc -> Zall: d g x f m n U b e E;
    Znbi -> Znoc: d g x f m n U o e E;
    Znle -> Znbi: d g x f m n U o b E;
    Znue -> Znle: d g x f m n U o b e;
    Zn1 -> Zng: d g x f m U o b e E;
}

/// Implements what its parameter does.
pub struct Wrap<T: ?Sized>(PhantomData<fn(&T)>);
impl<T: ?Sized> Default for Wrap<T> { fn default() -> Self { Wrap(PhantomData) } }
impl<T: ?Sized + fmt::Display> fmt::Display for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("wd") } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("wg") } }
impl<T: ?Sized + fmt::LowerHex> fmt::LowerHex for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("wx") } }
impl<T: ?Sized + fmt::UpperHex> fmt::UpperHex for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("wU") } }
impl<T: ?Sized + fmt::Octal> fmt::Octal for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("wo") } }
impl<T: ?Sized + fmt::Binary> fmt::Binary for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("wb") } }
impl<T: ?Sized + fmt::LowerExp> fmt::LowerExp for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("we") } }
impl<T: ?Sized + fmt::UpperExp> fmt::UpperExp for Wrap<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("wE") } }
impl<T: ?Sized + FromStr> FromStr for Wrap<T> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { if s == "wd" { Ok(Wrap(PhantomData)) } else { Err(()) } } }
impl<T: ?Sized + M0> M0 for Wrap<T> {}
impl<T: ?Sized + M1> M1 for Wrap<T> {}
/// Implements everything.
pub struct Always<T: ?Sized>(PhantomData<fn(&T)>);
impl<T: ?Sized> Default for Always<T> { fn default() -> Self { Always(PhantomData) } }
impl<T: ?Sized> fmt::Display for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ad") } }
impl<T: ?Sized> fmt::Debug for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ag") } }
impl<T: ?Sized> fmt::LowerHex for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ax") } }
impl<T: ?Sized> fmt::UpperHex for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("aU") } }
impl<T: ?Sized> fmt::Octal for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ao") } }
impl<T: ?Sized> fmt::Binary for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ab") } }
impl<T: ?Sized> fmt::LowerExp for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ae") } }
impl<T: ?Sized> fmt::UpperExp for Always<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("aE") } }
impl<T: ?Sized> FromStr for Always<T> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { if s == "ad" { Ok(Always(PhantomData)) } else { Err(()) } } }
/// Implements Display when the parameter is M0, FromStr when it is M1, Debug when it is FromStr.
pub struct Odd<T: ?Sized>(PhantomData<fn(&T)>);
impl<T: ?Sized> Default for Odd<T> { fn default() -> Self { Odd(PhantomData) } }
impl<T: ?Sized + M0> fmt::Display for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("od") } }
impl<T: ?Sized + FromStr> fmt::Debug for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("og") } }
impl<T: ?Sized + M1> fmt::LowerHex for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ox") } }
impl<T: ?Sized + M0> fmt::UpperHex for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("oU") } }
impl<T: ?Sized + fmt::Display> fmt::Octal for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("oo") } }
impl<T: ?Sized + fmt::LowerHex> fmt::Binary for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ob") } }
impl<T: ?Sized + M1> fmt::LowerExp for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("oe") } }
impl<T: ?Sized + FromStr> fmt::UpperExp for Odd<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("oE") } }
impl<T: ?Sized + M1> FromStr for Odd<T> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { if s == "od" { Ok(Odd(PhantomData)) } else { Err(()) } } }
/// Implements nothing; has a part to reach into.
pub struct Hold<T: ?Sized> {
    pub x: u8,
    pub p: PhantomData<fn(&T)>,
}
impl<T: ?Sized> Default for Hold<T> { fn default() -> Self { Hold { x: 7, p: PhantomData } } }
/// Implements what both parameters do.
pub struct Both<T: ?Sized, U: ?Sized>(PhantomData<fn(&T, &U)>);
impl<T: ?Sized, U: ?Sized> Default for Both<T, U> { fn default() -> Self { Both(PhantomData) } }
impl<T: ?Sized + fmt::Display, U: ?Sized + fmt::Display> fmt::Display for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bd") } }
impl<T: ?Sized + fmt::Debug, U: ?Sized + fmt::Debug> fmt::Debug for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bg") } }
impl<T: ?Sized + fmt::LowerHex, U: ?Sized + fmt::LowerHex> fmt::LowerHex for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bx") } }
impl<T: ?Sized + fmt::UpperHex, U: ?Sized + fmt::UpperHex> fmt::UpperHex for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bU") } }
impl<T: ?Sized + fmt::Octal, U: ?Sized + fmt::Octal> fmt::Octal for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bo") } }
impl<T: ?Sized + fmt::Binary, U: ?Sized + fmt::Binary> fmt::Binary for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bb") } }
impl<T: ?Sized + fmt::LowerExp, U: ?Sized + fmt::LowerExp> fmt::LowerExp for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("be") } }
impl<T: ?Sized + fmt::UpperExp, U: ?Sized + fmt::UpperExp> fmt::UpperExp for Both<T, U> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("bE") } }
impl<T: ?Sized + FromStr, U: ?Sized + FromStr> FromStr for Both<T, U> { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { if s == "bd" { Ok(Both(PhantomData)) } else { Err(()) } } }
/// Displays for one length only.
#[derive(Default)]
pub struct Arr<const N: usize>;
impl fmt::Display for Arr<1> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("rd") } }
impl fmt::Debug for Arr<2> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("rg") } }
impl fmt::LowerHex for Arr<1> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("rx") } }
impl fmt::UpperHex for Arr<1> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("rU") } }
impl fmt::Octal for Arr<2> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ro") } }
impl fmt::Binary for Arr<3> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("rb") } }
impl fmt::LowerExp for Arr<1> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("re") } }
impl fmt::UpperExp for Arr<2> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("rE") } }
impl FromStr for Arr<2> { type Err = (); fn from_str(_: &str) -> Result<Self, ()> { Ok(Arr) } }
pub trait Tr<T> {}
/// Types that name a parameter in unusual places.
pub struct Via<T: ?Sized>(PhantomData<fn(&T)>);
impl<T: ?Sized> Default for Via<T> { fn default() -> Self { Via(PhantomData) } }
macro_rules! via {
    ($(($($g:tt)*) $t:ty, $p:ty;)*) => {$(
        impl<$($g)*> fmt::Display for Via<$t> where $p: fmt::Display { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("vd") } }
        impl<$($g)*> fmt::Debug for Via<$t> where $p: fmt::Debug { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("vg") } }
        impl<$($g)*> fmt::LowerHex for Via<$t> where $p: fmt::LowerHex { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("vx") } }
        impl<$($g)*> fmt::UpperHex for Via<$t> where $p: fmt::UpperHex { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("vU") } }
        impl<$($g)*> fmt::Octal for Via<$t> where $p: fmt::Octal { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("vo") } }
        impl<$($g)*> fmt::Binary for Via<$t> where $p: fmt::Binary { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("vb") } }
        impl<$($g)*> fmt::LowerExp for Via<$t> where $p: fmt::LowerExp { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("ve") } }
        impl<$($g)*> fmt::UpperExp for Via<$t> where $p: fmt::UpperExp { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("vE") } }
        impl<$($g)*> FromStr for Via<$t> where $p: FromStr { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { if s == "vd" { Ok(Via(PhantomData)) } else { Err(()) } } }
    )*};
}
via! {
    (T) fn(T) -> u8, T;
    (T) (u8, T), T;
    (T) [T; 3], T;
    (T) &'static [T], T;
    (T) *const T, T;
    (T) dyn Tr<T>, T;
    (T) dyn Fn(T) -> u8, T;
}

/// Formats anything, parses nothing but "any".
pub struct AnyW;
impl<T: ?Sized> DisplayFormat<T> for AnyW {
    fn write(&self, f: &mut Formatter, _: &T) -> fmt::Result {
        f.write_str("any")
    }
}
impl<T: Default> FromStrFormat<T> for AnyW {
    type Err = ();
    fn parse(&self, s: &str) -> Result<T, ()> {
        if s == "any" { Ok(T::default()) } else { Err(()) }
    }
}
impl<T: ?Sized> M0 for Always<T> {}
impl<T: ?Sized> M1 for Always<T> {}
impl M0 for u8 {}
impl M1 for u8 {}
impl<T: ?Sized> M0 for Odd<T> {}
impl<T: ?Sized> M1 for Odd<T> {}
impl<T: ?Sized, U: ?Sized> M0 for Both<T, U> {}
impl<T: ?Sized, U: ?Sized> M1 for Both<T, U> {}
