pub use enumflags2_macros::bitflags;
use std::marker::PhantomData;
pub trait BitFlag: Copy + Clone + 'static + PartialEq {
	type Numeric: Copy + TryFrom<u128> + Into<u128> + std::fmt::Debug;
	const ALL: &'static [Self];
	const ALL_BITS: u128;
	fn bits_of(self) -> u128;
}
pub struct BitFlags<T: BitFlag, N = <T as BitFlag>::Numeric>(u128, PhantomData<(T, N)>);
impl<T: BitFlag, N> Clone for BitFlags<T, N> { fn clone(&self) -> Self { *self } }
impl<T: BitFlag, N> Copy for BitFlags<T, N> {}
impl<T: BitFlag, N> PartialEq for BitFlags<T, N> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: BitFlag, N> Eq for BitFlags<T, N> {}
impl<T: BitFlag, N> PartialOrd for BitFlags<T, N> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl<T: BitFlag, N> Ord for BitFlags<T, N> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T: BitFlag, N> std::hash::Hash for BitFlags<T, N> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T: BitFlag + std::fmt::Debug, N> std::fmt::Debug for BitFlags<T, N> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.debug_set().entries(self.iter()).finish() } }
impl<T: BitFlag, N> Default for BitFlags<T, N> { fn default() -> Self { BitFlags(0, PhantomData) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FromBitsError;
impl std::fmt::Display for FromBitsError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "invalid bits") } }
impl<T: BitFlag> BitFlags<T> {
	pub const EMPTY: Self = BitFlags(0, PhantomData);
	pub const ALL: Self = BitFlags(T::ALL_BITS, PhantomData);
	pub fn empty() -> Self { Self::EMPTY }
	pub fn all() -> Self { Self::ALL }
	pub fn bits(self) -> T::Numeric { T::Numeric::try_from(self.0).ok().unwrap() }
	pub fn from_bits(b: T::Numeric) -> Result<Self, FromBitsError> { let v: u128 = b.into(); if v & !T::ALL_BITS == 0 { Ok(BitFlags(v, PhantomData)) } else { Err(FromBitsError) } }
	pub fn from_bits_truncate(b: T::Numeric) -> Self { let v: u128 = b.into(); BitFlags(v & T::ALL_BITS, PhantomData) }
	pub fn is_empty(self) -> bool { self.0 == 0 }
	pub fn is_all(self) -> bool { self.0 == T::ALL_BITS }
	pub fn contains<B: Into<Self>>(self, o: B) -> bool { let o = o.into().0; self.0 & o == o }
	pub fn intersects<B: Into<Self>>(self, o: B) -> bool { self.0 & o.into().0 != 0 }
	pub fn insert<B: Into<Self>>(&mut self, o: B) { self.0 |= o.into().0 }
	pub fn remove<B: Into<Self>>(&mut self, o: B) { self.0 &= !o.into().0 }
	pub fn toggle<B: Into<Self>>(&mut self, o: B) { self.0 ^= o.into().0 }
	pub fn set<B: Into<Self>>(&mut self, o: B, c: bool) { if c { self.insert(o) } else { self.remove(o) } }
	pub fn len(self) -> usize { self.0.count_ones() as usize }
}
impl<T: BitFlag, N> BitFlags<T, N> { pub fn iter(self) -> impl Iterator<Item = T> { T::ALL.iter().copied().filter(move |x| self.0 & x.bits_of() != 0) } }
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { BitFlags(t.bits_of(), PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> std::ops::BitOr<B> for BitFlags<T> { type Output = Self; fn bitor(self, o: B) -> Self { BitFlags(self.0 | o.into().0, PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> std::ops::BitAnd<B> for BitFlags<T> { type Output = Self; fn bitand(self, o: B) -> Self { BitFlags(self.0 & o.into().0, PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> std::ops::BitXor<B> for BitFlags<T> { type Output = Self; fn bitxor(self, o: B) -> Self { BitFlags(self.0 ^ o.into().0, PhantomData) } }
impl<T: BitFlag, B: Into<BitFlags<T>>> std::ops::BitOrAssign<B> for BitFlags<T> { fn bitor_assign(&mut self, o: B) { self.0 |= o.into().0 } }
impl<T: BitFlag> std::ops::Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { BitFlags(!self.0 & T::ALL_BITS, PhantomData) } }
impl<T: BitFlag> std::iter::FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut r = Self::EMPTY; for x in i { r.insert(x) } r } }
impl<T: BitFlag> IntoIterator for BitFlags<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.iter().collect::<Vec<_>>().into_iter() } }
