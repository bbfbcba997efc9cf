//! A small stand-in for sp-arithmetic: the operations the math crate uses, with the documented semantics.
use codec::{Decode, Encode, MaxEncodedLen, CompactAs};
use primitive_types::{U256, U512};
use std::ops::*;

pub mod traits {
    pub use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Zero};
    pub trait UniqueSaturatedFrom<T> { fn unique_saturated_from(t: T) -> Self; }
    pub trait UniqueSaturatedInto<T> { fn unique_saturated_into(self) -> T; }
    impl<T, S: TryFrom<T> + Bounded> UniqueSaturatedFrom<T> for S where T: PartialOrd + Zero {
        fn unique_saturated_from(t: T) -> S { let neg = t < T::zero(); S::try_from(t).unwrap_or_else(|_| if neg { S::min_value() } else { S::max_value() }) }
    }
    impl<T: Bounded, S: TryInto<T>> UniqueSaturatedInto<T> for S { fn unique_saturated_into(self) -> T { self.try_into().unwrap_or_else(|_| T::max_value()) } }
    pub trait SaturatedConversion: Sized {
        fn saturated_from<T>(t: T) -> Self where Self: UniqueSaturatedFrom<T> { <Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t) }
        fn saturated_into<T>(self) -> T where Self: UniqueSaturatedInto<T> + Sized { <Self as UniqueSaturatedInto<T>>::unique_saturated_into(self) }
    }
    impl<T> SaturatedConversion for T {}
    pub trait Saturating: Sized {
        fn saturating_add(self, rhs: Self) -> Self;
        fn saturating_sub(self, rhs: Self) -> Self;
        fn saturating_mul(self, rhs: Self) -> Self;
        fn saturating_pow(self, exp: usize) -> Self;
    }
    macro_rules! sat { ($($t:ty)*) => {$(impl Saturating for $t {
        fn saturating_add(self, r: Self) -> Self { <$t>::saturating_add(self, r) }
        fn saturating_sub(self, r: Self) -> Self { <$t>::saturating_sub(self, r) }
        fn saturating_mul(self, r: Self) -> Self { <$t>::saturating_mul(self, r) }
        fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as u32) }
    })*} }
    sat!(u8 u16 u32 u64 u128 usize);
    pub trait AtLeast32BitUnsigned: Clone + Copy + PartialOrd + Ord + Zero + One + Bounded + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Saturating
        + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Div<Output = Self> + From<u32> + TryInto<u32> + TryInto<u64> + TryInto<u128> + std::fmt::Debug {}
    impl AtLeast32BitUnsigned for u32 {}
    impl AtLeast32BitUnsigned for u64 {}
    impl AtLeast32BitUnsigned for u128 {}
}
use traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Saturating, Zero};

pub mod per_things {
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Rounding { Up, Down, Major, Minor, NearestPrefUp, NearestPrefDown, NearestPrefMajor, NearestPrefMinor }
}
pub use per_things::Rounding;

fn u512(x: u128) -> U512 { U512::from(x) }
pub mod helpers_128bit {
    use super::*;
    pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
        if c == 0 { return None; }
        let n = U256::from(a) * U256::from(b);
        let (mut q, m) = (n / U256::from(c), n % U256::from(c));
        let up = match r {
            Rounding::Up => !m.is_zero(),
            Rounding::Down => false,
            Rounding::NearestPrefUp => m >= U256::from(c) - m,
            Rounding::NearestPrefDown => m > U256::from(c) - m,
            _ => unimplemented!(),
        };
        if up { q += U256::one(); }
        if q > U256::from(u128::MAX) { None } else { Some(q.low_u128()) }
    }
    pub fn to_big_uint(x: u128) -> U256 { U256::from(x) }
    pub fn sqrt(x: u128) -> u128 { U256::from(x).integer_sqrt().low_u128() }
}
fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> { helpers_128bit::multiply_by_rational_with_rounding(a, b, c, Rounding::Down) }

pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + One + PartialOrd + TryInto<u128> + TryFrom<u128> + traits::UniqueSaturatedInto<u128> {}
impl FixedPointOperand for u128 {}
impl FixedPointOperand for u64 {}
impl FixedPointOperand for u32 {}
impl FixedPointOperand for u16 {}
impl FixedPointOperand for u8 {}
impl FixedPointOperand for i32 {}

#[derive(Encode, Decode, CompactAs, Default, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, MaxEncodedLen, scale_info::TypeInfo)]
pub struct FixedU128(u128);
impl std::fmt::Debug for FixedU128 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "FixedU128({}.{:018})", self.0 / DIV, self.0 % DIV) } }
const DIV: u128 = 1_000_000_000_000_000_000;
fn un<N: FixedPointOperand>(n: N) -> u128 { n.try_into().ok().unwrap_or(u128::MAX) }
pub trait FixedPointNumber: Sized + Copy + Bounded + Saturating + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + Zero + One {
    type Inner;
    const DIV: u128;
    fn from_inner(i: u128) -> Self;
    fn into_inner(self) -> u128;
    fn saturating_from_integer<N: FixedPointOperand>(n: N) -> Self;
    fn checked_from_integer<N: FixedPointOperand>(n: N) -> Option<Self>;
    fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self;
    fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self>;
    fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N>;
    fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N;
    fn checked_div_int<N: FixedPointOperand>(self, n: N) -> Option<N>;
    fn saturating_div_int<N: FixedPointOperand>(self, n: N) -> N;
    fn saturating_mul_acc_int<N: FixedPointOperand + Saturating>(self, n: N) -> N { self.saturating_mul_int(n).saturating_add(n) }
    fn reciprocal(self) -> Option<Self> { Self::one().checked_div(&self) }
    fn trunc(self) -> Self;
    fn is_negative(&self) -> bool { false }
}
impl FixedPointNumber for FixedU128 {
    type Inner = u128;
    const DIV: u128 = DIV;
    fn from_inner(i: u128) -> Self { FixedU128(i) }
    fn into_inner(self) -> u128 { self.0 }
    fn saturating_from_integer<N: FixedPointOperand>(n: N) -> Self { FixedU128(un(n).saturating_mul(DIV)) }
    fn checked_from_integer<N: FixedPointOperand>(n: N) -> Option<Self> { un(n).checked_mul(DIV).map(FixedU128) }
    fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self {
        if d.is_zero() { panic!("attempt to divide by zero") }
        Self::checked_from_rational(n, d).unwrap_or(FixedU128(u128::MAX))
    }
    fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self> { muldiv(un(n), DIV, un(d)).map(FixedU128) }
    fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> { muldiv(self.0, un(n), DIV).and_then(|x| x.try_into().ok()) }
    fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N { self.checked_mul_int(n).unwrap_or_else(N::max_value) }
    fn checked_div_int<N: FixedPointOperand>(self, n: N) -> Option<N> { let d = un(n); if d == 0 { None } else { (self.0 / DIV / d).try_into().ok() } }
    fn saturating_div_int<N: FixedPointOperand>(self, n: N) -> N { if n.is_zero() { panic!("division by zero") } self.checked_div_int(n).unwrap_or_else(N::max_value) }
    fn trunc(self) -> Self { FixedU128(self.0 / DIV * DIV) }
}
impl FixedU128 {
    pub const DIV: u128 = DIV;
    pub const fn from_inner(i: u128) -> Self { FixedU128(i) }
    pub const fn into_inner(self) -> u128 { self.0 }
    pub const fn one() -> Self { FixedU128(DIV) }
    pub const fn zero() -> Self { FixedU128(0) }
    pub const fn from_u32(n: u32) -> Self { FixedU128(n as u128 * DIV) }
    pub fn from_rational(a: u128, b: u128) -> Self { Self::from_rational_with_rounding(a, b, Rounding::Down) }
    pub fn from_rational_with_rounding(a: u128, b: u128, r: Rounding) -> Self {
        if b == 0 { panic!("attempt to divide by zero in from_rational") }
        FixedU128(helpers_128bit::multiply_by_rational_with_rounding(a, DIV, b, r).expect("overflow in from_rational"))
    }
    pub fn from_float(x: f64) -> Self { FixedU128((x * DIV as f64) as u128) }
    pub fn to_float(self) -> f64 { self.0 as f64 / DIV as f64 }
    pub fn checked_rounding_div(self, o: Self, r: per_things::Rounding) -> Option<Self> { helpers_128bit::multiply_by_rational_with_rounding(self.0, DIV, o.0, r).map(FixedU128) }
}
impl std::str::FromStr for FixedU128 { type Err = &'static str; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse::<u128>().map(FixedU128).map_err(|_| "invalid") } }
macro_rules! fromint { ($($t:ty)*) => {$(impl From<$t> for FixedU128 { fn from(n: $t) -> Self { FixedU128::saturating_from_integer(n) } })*} }
fromint!(u8 u16 u32 u64 u128);
impl<P: PerThing> From<P> for FixedU128 where P::Inner: FixedPointOperand { fn from(p: P) -> Self { FixedU128(muldiv(un(p.deconstruct()), DIV, un(P::ACCURACY)).unwrap()) } }
impl Bounded for FixedU128 { fn min_value() -> Self { FixedU128(0) } fn max_value() -> Self { FixedU128(u128::MAX) } }
impl Zero for FixedU128 { fn zero() -> Self { FixedU128(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for FixedU128 { fn one() -> Self { FixedU128(DIV) } }
impl Add for FixedU128 { type Output = Self; fn add(self, o: Self) -> Self { FixedU128(self.0 + o.0) } }
impl Sub for FixedU128 { type Output = Self; fn sub(self, o: Self) -> Self { FixedU128(self.0 - o.0) } }
impl Mul for FixedU128 { type Output = Self; fn mul(self, o: Self) -> Self { self.checked_mul(&o).unwrap_or_else(|| panic!("attempt to multiply with overflow")) } }
impl Div for FixedU128 { type Output = Self; fn div(self, o: Self) -> Self { if o.0 == 0 { panic!("attempt to divide by zero") } self.checked_div(&o).unwrap_or_else(|| panic!("attempt to divide with overflow")) } }
impl AddAssign for FixedU128 { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl SubAssign for FixedU128 { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl CheckedAdd for FixedU128 { fn checked_add(&self, o: &Self) -> Option<Self> { self.0.checked_add(o.0).map(FixedU128) } }
impl CheckedSub for FixedU128 { fn checked_sub(&self, o: &Self) -> Option<Self> { self.0.checked_sub(o.0).map(FixedU128) } }
impl CheckedMul for FixedU128 { fn checked_mul(&self, o: &Self) -> Option<Self> { muldiv(self.0, o.0, DIV).map(FixedU128) } }
impl CheckedDiv for FixedU128 { fn checked_div(&self, o: &Self) -> Option<Self> { muldiv(self.0, DIV, o.0).map(FixedU128) } }
impl Saturating for FixedU128 {
    fn saturating_add(self, o: Self) -> Self { FixedU128(self.0.saturating_add(o.0)) }
    fn saturating_sub(self, o: Self) -> Self { FixedU128(self.0.saturating_sub(o.0)) }
    fn saturating_mul(self, o: Self) -> Self { self.checked_mul(&o).unwrap_or(FixedU128(u128::MAX)) }
    fn saturating_pow(self, exp: usize) -> Self {
        if exp == 0 { return Self::one(); }
        let exp = exp as u32;
        let msb = 31 - exp.leading_zeros();
        let (mut r, mut p) = (Self::one(), self);
        for k in 0..=msb { if (1 << k) & exp != 0 { r = r.saturating_mul(p); } p = p.saturating_mul(p); }
        r
    }
}

pub trait PerThing: Sized + Copy + Saturating + Bounded + Zero + PartialOrd + Ord + Add<Output = Self> + Sub<Output = Self> {
    type Inner: FixedPointOperand;
    const ACCURACY: Self::Inner;
    fn deconstruct(self) -> Self::Inner;
    fn from_parts(p: Self::Inner) -> Self;
    fn one() -> Self { Self::max_value() }
    fn accuracy() -> u128;
    fn parts(self) -> u128;
    fn mk(p: u128) -> Self;
    fn from_rational<N: FixedPointOperand>(a: N, b: N) -> Self { let (a, b) = (un(a), un(b).max(1)); Self::mk(muldiv(a.min(b), Self::accuracy(), b).unwrap()) }
}
pub trait ClampPer { fn into_clamped_perthing<P: PerThing>(self) -> P; }
impl FixedU128 { pub fn into_clamped_perthing<P: PerThing>(self) -> P { P::mk(muldiv(self.0.min(DIV), P::accuracy(), DIV).unwrap()) } }
macro_rules! per { ($n:ident, $t:ty, $acc:expr) => {
    #[derive(Encode, Decode, CompactAs, Default, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, MaxEncodedLen, scale_info::TypeInfo, Debug)]
    pub struct $n($t);
    impl PerThing for $n { type Inner = $t; const ACCURACY: $t = $acc; fn deconstruct(self) -> $t { self.0 } fn from_parts(p: $t) -> Self { $n::from_parts(p) } fn accuracy() -> u128 { $acc } fn parts(self) -> u128 { self.0 as u128 } fn mk(p: u128) -> Self { $n(p.min($acc) as $t) } }
    impl $n {
        pub const fn from_parts(p: $t) -> Self { $n(if p > $acc { $acc } else { p }) }
        pub const fn deconstruct(self) -> $t { self.0 }
        pub const fn from_percent(p: $t) -> Self { $n(if p > 100 { $acc } else { p * ($acc / 100) }) }
        pub const fn one() -> Self { $n($acc) }
        pub const fn zero() -> Self { $n(0) }
        pub const fn is_one(&self) -> bool { self.0 == $acc }
        pub const fn is_zero(&self) -> bool { self.0 == 0 }
        pub fn from_float(x: f64) -> Self { $n((x.max(0.).min(1.) * $acc as f64) as $t) }
        pub fn from_rational<N: FixedPointOperand>(a: N, b: N) -> Self { <Self as PerThing>::from_rational(a, b) }
        pub fn mul_floor<N: FixedPointOperand>(self, n: N) -> N { muldiv(un(n), self.0 as u128, $acc).unwrap().try_into().ok().unwrap() }
        pub fn mul_ceil<N: FixedPointOperand>(self, n: N) -> N { helpers_128bit::multiply_by_rational_with_rounding(un(n), self.0 as u128, $acc, Rounding::Up).unwrap().try_into().ok().unwrap() }
        pub fn checked_sub(&self, o: &Self) -> Option<Self> { self.0.checked_sub(o.0).map($n) }
        pub fn checked_add(&self, o: &Self) -> Option<Self> { let s = self.0.checked_add(o.0)?; if s as u128 <= $acc { Some($n(s)) } else { None } }
        pub fn saturating_add(self, o: Self) -> Self { $n::from_parts(self.0.saturating_add(o.0)) }
        pub fn saturating_sub(self, o: Self) -> Self { $n(self.0.saturating_sub(o.0)) }
        pub fn saturating_mul(self, o: Self) -> Self { self * o }
    }
    impl CheckedSub for $n { fn checked_sub(&self, o: &Self) -> Option<Self> { $n::checked_sub(self, o) } }
    impl CheckedAdd for $n { fn checked_add(&self, o: &Self) -> Option<Self> { $n::checked_add(self, o) } }
    impl Zero for $n { fn zero() -> Self { $n(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
    impl Bounded for $n { fn min_value() -> Self { $n(0) } fn max_value() -> Self { $n($acc) } }
    impl Saturating for $n { fn saturating_add(self, o: Self) -> Self { $n::saturating_add(self, o) } fn saturating_sub(self, o: Self) -> Self { $n::saturating_sub(self, o) }
        fn saturating_mul(self, o: Self) -> Self { self * o } fn saturating_pow(self, e: usize) -> Self { (0..e).fold(Self::one(), |a, _| a * self) } }
    impl Add for $n { type Output = Self; fn add(self, o: Self) -> Self { $n(self.0 + o.0) } }
    impl Sub for $n { type Output = Self; fn sub(self, o: Self) -> Self { $n(self.0 - o.0) } }
    impl Mul for $n { type Output = Self; fn mul(self, o: Self) -> Self { $n(muldiv(self.0 as u128, o.0 as u128, $acc).unwrap() as $t) } }
    impl Mul<u128> for $n { type Output = u128; fn mul(self, o: u128) -> u128 { helpers_128bit::multiply_by_rational_with_rounding(o, self.0 as u128, $acc, Rounding::NearestPrefDown).unwrap() } }
}}
per!(Permill, u32, 1_000_000);
per!(Perbill, u32, 1_000_000_000);

#[derive(Copy, Clone, PartialEq, Eq, Debug, Default)]
pub struct Rational128(u128, u128);
impl Rational128 {
    pub fn from(n: u128, d: u128) -> Self { Rational128(n, d.max(1)) }
    pub fn n(&self) -> u128 { self.0 }
    pub fn d(&self) -> u128 { self.1 }
}
impl PartialOrd for Rational128 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Rational128 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (u512(self.0) * u512(o.1)).cmp(&(u512(o.0) * u512(self.1))) } }
