//! `sp_weights`
use parity_scale_codec::*;
use std::ops::*;
use crate::num::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, mini_macros::TypeInfo, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
impl Weight {
	pub const fn add_proof_size(self, x: u64) -> Self {
		Self::from_parts(self.ref_time(), self.proof_size() + x)
	}
	pub const fn add_ref_time(self, x: u64) -> Self {
		Self::from_parts(self.ref_time() + x, self.proof_size())
	}
	pub const fn sub_proof_size(self, x: u64) -> Self {
		Self::from_parts(self.ref_time(), self.proof_size() - x)
	}
	pub const fn sub_ref_time(self, x: u64) -> Self {
		Self::from_parts(self.ref_time() - x, self.proof_size())
	}
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self::from_parts(v, v)
	}
	pub const fn zero() -> Self {
		Self::from_parts(0, 0)
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self::from_parts(self.ref_time.saturating_add(o.ref_time), self.proof_size.saturating_add(o.proof_size))
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self::from_parts(self.ref_time.saturating_sub(o.ref_time), self.proof_size.saturating_sub(o.proof_size))
	}
	pub const fn saturating_mul(self, o: u64) -> Self {
		Self::from_parts(self.ref_time.saturating_mul(o), self.proof_size.saturating_mul(o))
	}
	pub const fn saturating_div(self, o: u64) -> Self {
		Self::from_parts(self.ref_time / o, self.proof_size / o)
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Self::from_parts(self.ref_time.checked_add(o.ref_time)?, self.proof_size.checked_add(o.proof_size)?))
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Self::from_parts(self.ref_time.checked_sub(o.ref_time)?, self.proof_size.checked_sub(o.proof_size)?))
	}
	pub fn checked_mul(&self, o: u64) -> Option<Self> {
		Some(Self::from_parts(self.ref_time.checked_mul(o)?, self.proof_size.checked_mul(o)?))
	}
	pub fn min(self, o: Self) -> Self {
		Self::from_parts(self.ref_time.min(o.ref_time), self.proof_size.min(o.proof_size))
	}
	pub fn max(self, o: Self) -> Self {
		Self::from_parts(self.ref_time.max(o.ref_time), self.proof_size.max(o.proof_size))
	}
	pub fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
}
impl Zero for Weight {
	fn zero() -> Self {
		Weight::from_parts(0, 0)
	}
	fn is_zero(&self) -> bool {
		*self == Weight::from_parts(0, 0)
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self::from_parts(self.ref_time + o.ref_time, self.proof_size + o.proof_size)
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self::from_parts(self.ref_time - o.ref_time, self.proof_size - o.proof_size)
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o
	}
}
impl<N: Copy + Into<u64>> Mul<N> for Weight {
	type Output = Self;
	fn mul(self, n: N) -> Self {
		Self::from_parts(self.ref_time * n.into(), self.proof_size * n.into())
	}
}
impl<N: Copy + Into<u64>> Div<N> for Weight {
	type Output = Self;
	fn div(self, n: N) -> Self {
		Self::from_parts(self.ref_time / n.into(), self.proof_size / n.into())
	}
}
macro_rules! pm {
	($($t:ident),*) => {$(impl Mul<Weight> for $t { type Output = Weight; fn mul(self, w: Weight) -> Weight { Weight::from_parts(self.mul_floor(w.ref_time), self.mul_floor(w.proof_size)) } })*}
}
pm!(Perbill, Permill, Percent, Perquintill);
impl std::fmt::Display for Weight {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub fn writes(self, r: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(r), 0)
	}
	pub fn reads_writes(self, r: u64, w: u64) -> Weight {
		self.reads(r).saturating_add(self.writes(w))
	}
}
pub trait WeightToFee {
	type Balance: Copy;
	fn weight_to_fee(w: &Weight) -> Self::Balance;
}
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: Copy + UniqueSaturatedFrom<u64>> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		T::unique_saturated_from(w.ref_time)
	}
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: Copy + AtLeast32BitUnsigned, M: crate::support::traits_impl::Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T {
		Saturating::saturating_mul(T::unique_saturated_from(w.ref_time), M::get())
	}
}
#[derive(Clone, Debug)]
pub struct WeightToFeeCoefficient<B> {
	pub coeff_integer: B,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
pub type WeightToFeeCoefficients<B> = smallvec::SmallVec<[WeightToFeeCoefficient<B>; 4]>;
pub trait WeightToFeePolynomial {
	type Balance: AtLeast32BitUnsigned + Copy;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
	type Balance = <Self as WeightToFeePolynomial>::Balance;
	fn weight_to_fee(weight: &Weight) -> Self::Balance {
		let mut acc: Self::Balance = Zero::zero();
		for args in Self::polynomial() {
			let w = {
				let b: Self::Balance = UniqueSaturatedFrom::unique_saturated_from(weight.ref_time);
				Saturating::saturating_pow(b, args.degree as usize)
			};
			let frac = args.coeff_frac.mul_floor::<Self::Balance>(w);
			let int = Saturating::saturating_mul(args.coeff_integer, w);
			if args.negative {
				acc = Saturating::saturating_sub(Saturating::saturating_sub(acc, frac), int);
			} else {
				acc = Saturating::saturating_add(Saturating::saturating_add(acc, frac), int);
			}
		}
		acc
	}
}
pub mod constants {
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	use super::*;
	pub struct BlockExecutionWeight;
	impl crate::support::traits_impl::Get<Weight> for BlockExecutionWeight {
		fn get() -> Weight {
			Self::get()
		}
	}
	impl BlockExecutionWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(390_584 * 1000, 0)
		}
	}
	pub struct ExtrinsicBaseWeight;
	impl crate::support::traits_impl::Get<Weight> for ExtrinsicBaseWeight {
		fn get() -> Weight {
			Self::get()
		}
	}
	impl ExtrinsicBaseWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(124_414 * 1000, 0)
		}
	}
	pub struct RocksDbWeight;
	impl RocksDbWeight {
		pub const fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000 * 1000, write: 100_000 * 1000 }
		}
	}
	impl crate::support::traits_impl::Get<RuntimeDbWeight> for RocksDbWeight {
		fn get() -> RuntimeDbWeight {
			Self::get()
		}
	}
	pub struct ParityDbWeight;
}
