//! Bounded collections.
use crate::support::traits_impl::Get;
use parity_scale_codec::*;
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;
use std::slice::SliceIndex;

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
pub type WeakBoundedVec<T, S> = BoundedVec<T, S>;
pub struct BoundedSlice<'a, T, S>(&'a [T], PhantomData<S>);

impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.encode_to(d)
	}
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let v = Vec::<T>::decode(i)?;
		if v.len() > S::get() as usize {
			return Err("BoundedVec exceeds its limit".into())
		}
		Ok(Self(v, PhantomData))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
	fn max_encoded_len() -> usize {
		Compact::<u32>(S::get()).encode().len() + (S::get() as usize).saturating_mul(T::max_encoded_len())
	}
}
impl<T, S> DecodeLength for BoundedVec<T, S> {
	fn len(mut e: &[u8]) -> Result<usize, Error> {
		Ok(<Compact<u32>>::decode(&mut e)?.0 as usize)
	}
}
impl<T, S> scale_info::TypeInfo for BoundedVec<T, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<T: fmt::Debug, S> fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.debug_tuple("BoundedVec").field(&self.0).finish()
	}
}
impl<T: PartialEq, S, S2> PartialEq<BoundedVec<T, S2>> for BoundedVec<T, S> {
	fn eq(&self, o: &BoundedVec<T, S2>) -> bool {
		self.0 == o.0
	}
}
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> {
	fn eq(&self, o: &Vec<T>) -> bool {
		&self.0 == o
	}
}
impl<T: PartialEq, S> PartialEq<BoundedVec<T, S>> for Vec<T> {
	fn eq(&self, o: &BoundedVec<T, S>) -> bool {
		self == &o.0
	}
}
impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for BoundedVec<T, S> {
	fn eq(&self, o: &&'a [T]) -> bool {
		&self.0[..] == *o
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(&o.0)
	}
}
impl<T: Ord, S> Ord for BoundedVec<T, S> {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		self.0.cmp(&o.0)
	}
}
impl<T: std::hash::Hash, S> std::hash::Hash for BoundedVec<T, S> {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		self.0.hash(h)
	}
}
impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self(vec![], PhantomData)
	}
}
impl<T, S> Deref for BoundedVec<T, S> {
	type Target = Vec<T>;
	fn deref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> {
	fn as_ref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		&self.0
	}
}
impl<T, S> AsMut<[T]> for BoundedVec<T, S> {
	fn as_mut(&mut self) -> &mut [T] {
		&mut self.0
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(b: BoundedVec<T, S>) -> Vec<T> {
		b.0
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= S::get() as usize {
			Ok(Self(v, PhantomData))
		} else {
			Err(v)
		}
	}
}
impl<T, S, I: SliceIndex<[T]>> Index<I> for BoundedVec<T, S> {
	type Output = I::Output;
	fn index(&self, i: I) -> &I::Output {
		&self.0[i]
	}
}
impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> {
	fn index_mut(&mut self, i: I) -> &mut I::Output {
		&mut self.0[i]
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = std::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> {
	type Item = &'a mut T;
	type IntoIter = std::slice::IterMut<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter_mut()
	}
}
impl<T: serde::Serialize, S> serde::Serialize for BoundedVec<T, S> {
	fn serialize<Se: serde::Serializer>(&self, s: Se) -> Result<Se::Ok, Se::Error> {
		self.0.serialize(s)
	}
}
impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = Vec::<T>::deserialize(d)?;
		Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
	}
}
impl<T, S> BoundedVec<T, S> {
	fn unchecked_from(v: Vec<T>) -> Self {
		Self(v, PhantomData)
	}
	pub const fn new() -> Self {
		Self(vec![], PhantomData)
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn into_inner(self) -> Vec<T> {
		self.0
	}
	pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
		self.0.sort_by(f)
	}
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
		self.0.sort_by_key(f)
	}
	pub fn sort(&mut self)
	where
		T: Ord,
	{
		self.0.sort()
	}
	pub fn reverse(&mut self) {
		self.0.reverse()
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.0.remove(i)
	}
	pub fn swap_remove(&mut self, i: usize) -> T {
		self.0.swap_remove(i)
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> {
		self.0.get_mut(i)
	}
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
		self.0.iter_mut()
	}
	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.0.last_mut()
	}
	pub fn first_mut(&mut self) -> Option<&mut T> {
		self.0.first_mut()
	}
	pub fn truncate(&mut self, n: usize) {
		self.0.truncate(n)
	}
	pub fn pop(&mut self) -> Option<T> {
		self.0.pop()
	}
	pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
		self.0.drain(r)
	}
	pub fn split_off(&mut self, at: usize) -> Self {
		Self(self.0.split_off(at), PhantomData)
	}
	pub fn dedup(&mut self)
	where
		T: PartialEq,
	{
		self.0.dedup()
	}
	pub fn as_slice(&self) -> &[T] {
		&self.0
	}
	pub fn as_mut_slice(&mut self) -> &mut [T] {
		&mut self.0
	}
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn with_bounded_capacity(n: usize) -> Self {
		Self(Vec::with_capacity(n.min(Self::bound())), PhantomData)
	}
	pub fn with_max_capacity() -> Self {
		Self::with_bounded_capacity(Self::bound())
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
	pub fn try_push(&mut self, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.push(t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn force_push(&mut self, t: T) {
		self.try_push(t).ok().expect("BoundedVec::force_push: vector is full");
	}
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.insert(i, t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
		if self.0.len() + o.len() <= Self::bound() {
			self.0.append(o);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
		if self.0.len() + with.len() <= Self::bound() {
			self.0.extend(with);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then(move || self)
	}
	pub fn try_collect<I: IntoIterator<Item = T>>(i: I) -> Result<Self, ()> {
		Self::try_from(i.into_iter().collect::<Vec<_>>()).map_err(|_| ())
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self(v, PhantomData)
	}
	pub fn defensive_truncate_from(v: Vec<T>) -> Self {
		Self::truncate_from(v)
	}
	pub fn bounded_resize(&mut self, n: usize, t: T)
	where
		T: Clone,
	{
		self.0.resize(n.min(Self::bound()), t)
	}
	pub fn slide(&mut self, index: usize, insert: usize) -> bool {
		if index >= self.0.len() || insert > self.0.len() || index == insert || index + 1 == insert {
			return false
		}
		let x = self.0.remove(index);
		self.0.insert(if insert > index { insert - 1 } else { insert }, x);
		true
	}
}

pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.encode_to(d)
	}
}
impl<K: Encode, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let v = BTreeMap::<K, V>::decode(i)?;
		if v.len() > S::get() as usize {
			return Err("BoundedBTreeMap exceeds its limit".into())
		}
		Ok(Self(v, PhantomData))
	}
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		(S::get() as usize).saturating_mul(K::max_encoded_len() + V::max_encoded_len()) + 5
	}
}
impl<K, V, S> scale_info::TypeInfo for BoundedBTreeMap<K, V, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for BoundedBTreeMap<K, V, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.debug_tuple("BoundedBTreeMap").field(&self.0).finish()
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		Self(BTreeMap::new(), PhantomData)
	}
}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> {
	type Target = BTreeMap<K, V>;
	fn deref(&self) -> &BTreeMap<K, V> {
		&self.0
	}
}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = std::collections::btree_map::IntoIter<K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> {
	type Item = (&'a K, &'a V);
	type IntoIter = std::collections::btree_map::Iter<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	type Error = ();
	fn try_from(v: BTreeMap<K, V>) -> Result<Self, ()> {
		if v.len() <= S::get() as usize {
			Ok(Self(v, PhantomData))
		} else {
			Err(())
		}
	}
}
impl<K: Ord, V, S> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self {
		Default::default()
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn into_inner(self) -> BTreeMap<K, V> {
		self.0
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove_entry(k)
	}
	pub fn map<T2, F: FnMut((&K, V)) -> T2>(self, mut f: F) -> BoundedBTreeMap<K, T2, S> {
		BoundedBTreeMap(
			self.0
				.into_iter()
				.map(|(k, v)| {
					let t = f((&k, v));
					(k, t)
				})
				.collect(),
			PhantomData,
		)
	}
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.get_mut(k)
	}
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> {
		self.0.iter_mut()
	}
	pub fn values_mut(&mut self) -> std::collections::btree_map::ValuesMut<'_, K, V> {
		self.0.values_mut()
	}
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < Self::bound() || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeMap<K, V>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then(move || self)
	}
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
impl<T, S: Get<u32>, I: Iterator<Item = T>> TryCollect<BoundedVec<T, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedVec<T, S>, &'static str> {
		BoundedVec::try_from(self.collect::<Vec<_>>()).map_err(|_| "iterator length too big")
	}
}
impl<K: Ord, V, S: Get<u32>, I: Iterator<Item = (K, V)>> TryCollect<BoundedBTreeMap<K, V, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedBTreeMap<K, V, S>, &'static str> {
		BoundedBTreeMap::try_from(self.collect::<BTreeMap<_, _>>()).map_err(|_| "iterator length too big")
	}
}
impl<K, V, S> From<BoundedBTreeMap<K, V, S>> for BTreeMap<K, V> {
	fn from(b: BoundedBTreeMap<K, V, S>) -> Self {
		b.0
	}
}
impl<K, V, S> AsRef<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	fn as_ref(&self) -> &BTreeMap<K, V> {
		&self.0
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &BTreeMap<K, V>) -> bool {
		&self.0 == o
	}
}
impl<'a, K, V, S> IntoIterator for &'a mut BoundedBTreeMap<K, V, S> {
	type Item = (&'a K, &'a mut V);
	type IntoIter = std::collections::btree_map::IterMut<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter_mut()
	}
}

use std::collections::BTreeSet;
pub struct BoundedBTreeSet<T, S>(BTreeSet<T>, PhantomData<S>);
impl<T: Encode, S> Encode for BoundedBTreeSet<T, S> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.iter().collect::<Vec<_>>().encode_to(d)
	}
}
impl<T: Encode, S> EncodeLike for BoundedBTreeSet<T, S> {}
impl<T: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let v: BTreeSet<T> = Vec::<T>::decode(i)?.into_iter().collect();
		if v.len() > S::get() as usize {
			return Err("BoundedBTreeSet exceeds its limit".into())
		}
		Ok(Self(v, PhantomData))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<T, S> {
	fn max_encoded_len() -> usize {
		(S::get() as usize).saturating_mul(T::max_encoded_len()) + 5
	}
}
impl<T, S> scale_info::TypeInfo for BoundedBTreeSet<T, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl<T: Clone, S> Clone for BoundedBTreeSet<T, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<T: fmt::Debug, S> fmt::Debug for BoundedBTreeSet<T, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.debug_tuple("BoundedBTreeSet").field(&self.0).finish()
	}
}
impl<T: PartialEq, S> PartialEq for BoundedBTreeSet<T, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: Eq, S> Eq for BoundedBTreeSet<T, S> {}
impl<T, S> Default for BoundedBTreeSet<T, S> {
	fn default() -> Self {
		Self(BTreeSet::new(), PhantomData)
	}
}
impl<T, S> Deref for BoundedBTreeSet<T, S> {
	type Target = BTreeSet<T>;
	fn deref(&self) -> &BTreeSet<T> {
		&self.0
	}
}
impl<T, S> IntoIterator for BoundedBTreeSet<T, S> {
	type Item = T;
	type IntoIter = std::collections::btree_set::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedBTreeSet<T, S> {
	type Item = &'a T;
	type IntoIter = std::collections::btree_set::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<T: Ord, S: Get<u32>> TryFrom<BTreeSet<T>> for BoundedBTreeSet<T, S> {
	type Error = ();
	fn try_from(v: BTreeSet<T>) -> Result<Self, ()> {
		if v.len() <= S::get() as usize {
			Ok(Self(v, PhantomData))
		} else {
			Err(())
		}
	}
}
impl<T, S> From<BoundedBTreeSet<T, S>> for BTreeSet<T> {
	fn from(b: BoundedBTreeSet<T, S>) -> Self {
		b.0
	}
}
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> {
	pub fn new() -> Self {
		Default::default()
	}
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn into_inner(self) -> BTreeSet<T> {
		self.0
	}
	pub fn remove(&mut self, k: &T) -> bool {
		self.0.remove(k)
	}
	pub fn take(&mut self, k: &T) -> Option<T> {
		self.0.take(k)
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn try_insert(&mut self, t: T) -> Result<bool, T> {
		if self.0.len() < Self::bound() || self.0.contains(&t) {
			Ok(self.0.insert(t))
		} else {
			Err(t)
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeSet<T>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then(move || self)
	}
}
impl<T: Ord, S: Get<u32>, I: Iterator<Item = T>> TryCollect<BoundedBTreeSet<T, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<BoundedBTreeSet<T, S>, &'static str> {
		BoundedBTreeSet::try_from(self.collect::<BTreeSet<_>>()).map_err(|_| "iterator length too big")
	}
}
impl<'a, T, S> Deref for BoundedSlice<'a, T, S> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		self.0
	}
}
impl<'a, T, S: Get<u32>> TryFrom<&'a [T]> for BoundedSlice<'a, T, S> {
	type Error = &'a [T];
	fn try_from(v: &'a [T]) -> Result<Self, &'a [T]> {
		if v.len() <= S::get() as usize {
			Ok(Self(v, PhantomData))
		} else {
			Err(v)
		}
	}
}
