//! `sp_arithmetic` as far as it is used.
pub use num_traits::{
	checked_pow, ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub},
	Bounded, One, Signed, Unsigned, Zero,
};
use parity_scale_codec::*;
use std::ops::*;

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_sub(One::one())
	}
	fn saturating_plus_one(self) -> Self
	where
		Self: One + Sized,
	{
		self.saturating_add(One::one())
	}
	fn saturating_inc(&mut self)
	where
		Self: One + Clone,
	{
		*self = self.clone().saturating_add(One::one())
	}
	fn saturating_dec(&mut self)
	where
		Self: One + Clone,
	{
		*self = self.clone().saturating_sub(One::one())
	}
	fn saturating_accrue(&mut self, amount: Self)
	where
		Self: Clone,
	{
		*self = self.clone().saturating_add(amount)
	}
	fn saturating_reduce(&mut self, amount: Self)
	where
		Self: Clone,
	{
		*self = self.clone().saturating_sub(amount)
	}
}
impl<T: Clone + Zero + One + PartialOrd + CheckedMul + Bounded + num_traits::Saturating> Saturating for T {
	fn saturating_add(self, o: Self) -> Self {
		<Self as num_traits::Saturating>::saturating_add(self, o)
	}
	fn saturating_sub(self, o: Self) -> Self {
		<Self as num_traits::Saturating>::saturating_sub(self, o)
	}
	fn saturating_mul(self, o: Self) -> Self {
		self.checked_mul(&o).unwrap_or_else(|| {
			if (self < T::zero()) != (o < T::zero()) {
				Bounded::min_value()
			} else {
				Bounded::max_value()
			}
		})
	}
	fn saturating_pow(self, exp: usize) -> Self {
		let mut r = T::one();
		for _ in 0..exp {
			r = Saturating::saturating_mul(r, self.clone());
		}
		r
	}
}
pub trait UniqueSaturatedFrom<T: Sized>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self {
		S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
	}
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T {
		self.try_into().unwrap_or_else(|_| Bounded::max_value())
	}
}
pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T>,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}
pub trait IntegerSquareRoot {
	fn integer_sqrt(&self) -> Self;
}
pub trait BaseArithmetic:
	From<u8> + Zero + One + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self>
	+ Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedAdd
	+ CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd<Self> + Ord + Bounded + Sized + Clone + parity_scale_codec::HasCompact
	+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128>
	+ TryFrom<usize> + TryInto<usize> + UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
impl<T> BaseArithmetic for T where
	T: From<u8> + Zero + One + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self>
		+ Div<Self, Output = Self> + DivAssign<Self> + Rem<Self, Output = Self> + RemAssign<Self> + Shl<u32, Output = Self> + Shr<u32, Output = Self> + CheckedAdd
		+ CheckedSub + CheckedMul + CheckedDiv + Saturating + PartialOrd<Self> + Ord + Bounded + Sized + Clone + parity_scale_codec::HasCompact
		+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32> + TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128>
		+ TryFrom<usize> + TryInto<usize> + UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
		+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
fn rdiv(n: u128, d: u128, r: Rounding) -> u128 {
	let (q, m) = (n / d, n % d);
	match r {
		Rounding::Down => q,
		Rounding::Up => q + (m > 0) as u128,
		Rounding::NearestPrefDown => q + (m > d / 2 + 0 && m * 2 > d) as u128,
		Rounding::NearestPrefUp => q + (m * 2 >= d) as u128,
	}
}
macro_rules! perthing {
	($name:ident, $t:ty, $max:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug, Encode, Decode, MaxEncodedLen, mini_macros::TypeInfo, serde::Serialize, serde::Deserialize)]
		pub struct $name($t);
		impl $name {
			pub const ACCURACY: $t = $max;
			pub const fn from_parts(p: $t) -> Self {
				Self(if p > $max { $max } else { p })
			}
			pub const fn from_percent(p: $t) -> Self {
				Self(((if p > 100 { 100 } else { p }) as u64 * ($max as u64) / 100) as $t)
			}
			pub const fn deconstruct(self) -> $t {
				self.0
			}
			pub const fn zero() -> Self {
				Self(0)
			}
			pub const fn one() -> Self {
				Self($max)
			}
			pub fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub fn is_one(&self) -> bool {
				self.0 == $max
			}
			pub fn left_from_one(self) -> Self {
				Self($max - self.0)
			}
			pub fn square(self) -> Self {
				Self((self.0 as u128 * self.0 as u128 / $max as u128) as $t)
			}
			pub fn saturating_add(self, o: Self) -> Self {
				Self::from_parts(self.0.saturating_add(o.0))
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				Self(self.0.saturating_sub(o.0))
			}
			pub fn from_rational<N>(p: N, q: N) -> Self
			where
				N: Clone + Ord + UniqueSaturatedInto<u128> + Zero,
			{
				Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or(Self::one())
			}
			pub fn from_rational_with_rounding<N>(p: N, q: N, r: Rounding) -> Result<Self, ()>
			where
				N: Clone + Ord + UniqueSaturatedInto<u128> + Zero,
			{
				if q.is_zero() || p > q {
					return Err(())
				}
				let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
				let f = rdiv(q, $max as u128, Rounding::Up).max(1);
				let (p, q) = (rdiv(p, f, r), rdiv(q, f, r));
				Ok(Self(rdiv(p * $max as u128, q.max(1), r).min($max as u128) as $t))
			}
			fn mulr<N>(self, n: N, r: Rounding) -> N
			where
				N: Clone + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>,
			{
				let n: u128 = n.unique_saturated_into();
				let m = $max as u128;
				let (hi, lo) = (n / m, n % m);
				N::unique_saturated_from(hi * self.0 as u128 + rdiv(lo * self.0 as u128, m, r))
			}
			pub fn mul_floor<N: Clone + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, n: N) -> N {
				self.mulr(n, Rounding::Down)
			}
			pub fn mul_ceil<N: Clone + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, n: N) -> N {
				self.mulr(n, Rounding::Up)
			}
		}
		impl<N: Clone + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128> + Unsigned> Mul<N> for $name {
			type Output = N;
			fn mul(self, n: N) -> N {
				self.mulr(n, Rounding::NearestPrefDown)
			}
		}
		impl Add for $name {
			type Output = Self;
			fn add(self, o: Self) -> Self {
				Self::from_parts(self.0 + o.0)
			}
		}
		impl Sub for $name {
			type Output = Self;
			fn sub(self, o: Self) -> Self {
				Self(self.0 - o.0)
			}
		}
		impl Div<u32> for $name {
			type Output = Self;
			fn div(self, o: u32) -> Self {
				Self((self.0 as u64 / o as u64) as $t)
			}
		}
	};
}
perthing!(Perbill, u32, 1_000_000_000);
perthing!(Permill, u32, 1_000_000);
perthing!(Percent, u8, 100);
perthing!(Perquintill, u64, 1_000_000_000_000_000_000);

/// `FixedU128` (18 decimals)
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Debug, Encode, Decode, MaxEncodedLen, mini_macros::TypeInfo)]
pub struct FixedU128(u128);
pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + TryInto<u128> + CheckedNeg {}
impl<T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + TryInto<u128> + CheckedNeg> FixedPointOperand for T {}
pub trait FixedPointNumber: Sized + Copy {
	const DIV: u128;
	fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self;
	fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(n: N) -> Self;
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N;
	fn one() -> Self;
}
impl FixedU128 {
	pub const fn from_inner(v: u128) -> Self {
		Self(v)
	}
	pub const fn from_u32(v: u32) -> Self {
		Self(v as u128 * 1_000_000_000_000_000_000)
	}
	pub const fn into_inner(self) -> u128 {
		self.0
	}
	pub fn is_zero(&self) -> bool {
		self.0 == 0
	}
	pub fn zero() -> Self {
		Self(0)
	}
}
impl FixedPointNumber for FixedU128 {
	const DIV: u128 = 1_000_000_000_000_000_000;
	fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self {
		Self(n.unique_saturated_into().saturating_mul(Self::DIV) / d.unique_saturated_into())
	}
	fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(n: N) -> Self {
		Self(n.unique_saturated_into().saturating_mul(Self::DIV))
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		let n: u128 = UniqueSaturatedInto::<u128>::unique_saturated_into(n);
		let (hi, lo) = (n / Self::DIV, n % Self::DIV);
		let (sh, sl) = (self.0 / Self::DIV, self.0 % Self::DIV);
		let v = n.saturating_mul(sh).saturating_add(hi.saturating_mul(sl)).saturating_add(if lo < 1 << 60 { lo * sl / Self::DIV } else { lo / 1_000_000 * (sl / 1_000_000) / 1_000_000 });
		N::try_from(v).unwrap_or_else(|_| N::max_value())
	}
	fn one() -> Self {
		Self(Self::DIV)
	}
}

macro_rules! ensure_op {
	($($t:ident $m:ident $ta:ident $ma:ident $c:ident $ct:ident $err:expr;)*) => {$(
		pub trait $t: $ct + PartialOrd + Zero + Copy {
			fn $m(self, o: Self) -> Result<Self, crate::runtime::ArithmeticError> {
				<Self as $ct>::$c(&self, &o).ok_or_else(|| $err(self < Self::zero(), o < Self::zero(), o.is_zero()))
			}
		}
		impl<T: $ct + PartialOrd + Zero + Copy> $t for T {}
		pub trait $ta: $t {
			fn $ma(&mut self, o: Self) -> Result<(), crate::runtime::ArithmeticError> {
				*self = <Self as $t>::$m(*self, o)?;
				Ok(())
			}
		}
		impl<T: $t> $ta for T {}
	)*};
}
use crate::runtime::ArithmeticError as Ae;
ensure_op! {
	EnsureAdd ensure_add EnsureAddAssign ensure_add_assign checked_add CheckedAdd |a: bool, _b: bool, _z: bool| if a { Ae::Underflow } else { Ae::Overflow };
	EnsureSub ensure_sub EnsureSubAssign ensure_sub_assign checked_sub CheckedSub |_a: bool, b: bool, _z: bool| if b { Ae::Overflow } else { Ae::Underflow };
	EnsureMul ensure_mul EnsureMulAssign ensure_mul_assign checked_mul CheckedMul |a: bool, b: bool, _z: bool| if a != b { Ae::Underflow } else { Ae::Overflow };
	EnsureDiv ensure_div EnsureDivAssign ensure_div_assign checked_div CheckedDiv |_a: bool, _b: bool, z: bool| if z { Ae::DivisionByZero } else { Ae::Overflow };
}
pub trait EnsureOp: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv {}
impl<T: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv> EnsureOp for T {}
pub trait EnsureFrom<T>: TryFrom<T> {
	fn ensure_from(o: T) -> Result<Self, Ae> {
		Self::try_from(o).map_err(|_| Ae::Overflow)
	}
}
impl<T, U: TryFrom<T>> EnsureFrom<T> for U {}
pub trait EnsureInto<T>: TryInto<T> {
	fn ensure_into(self) -> Result<T, Ae> {
		self.try_into().map_err(|_| Ae::Overflow)
	}
}
impl<T, U: TryInto<T>> EnsureInto<T> for U {}
impl FixedU128 {
	pub fn from_rational(n: u128, d: u128) -> Self {
		Self::saturating_from_rational(n, d)
	}
	pub fn saturating_add(self, o: Self) -> Self {
		Self(self.0.saturating_add(o.0))
	}
	pub fn saturating_sub(self, o: Self) -> Self {
		Self(self.0.saturating_sub(o.0))
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		Self(self.saturating_mul_int(o.0))
	}
	pub fn checked_add(self, o: &Self) -> Option<Self> {
		self.0.checked_add(o.0).map(Self)
	}
	pub fn checked_sub(self, o: &Self) -> Option<Self> {
		self.0.checked_sub(o.0).map(Self)
	}
}
impl Add for FixedU128 {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self(self.0 + o.0)
	}
}
impl Sub for FixedU128 {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self(self.0 - o.0)
	}
}
impl Mul for FixedU128 {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		self.saturating_mul(o)
	}
}
