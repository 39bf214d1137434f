//! `frame_support::storage`
use super::bounded_impl::*;
use super::traits_impl::*;
use crate::ext;
use crate::hashing;
use crate::io::MultiRemovalResults;
use parity_scale_codec::*;
use std::marker::PhantomData;

pub mod well_known_keys {
	pub const CODE: &[u8] = b":code";
	pub const INTRABLOCK_ENTROPY: &[u8] = b":intrablock_entropy";
}
pub trait StorageHasher: 'static {
	const METADATA: () = ();
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
	fn max_len<K: MaxEncodedLen>() -> usize {
		0
	}
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
macro_rules! plain {
	($n:ident, $f:ident, $l:expr) => {
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub struct $n;
		impl StorageHasher for $n {
			type Output = [u8; $l];
			fn hash(x: &[u8]) -> [u8; $l] {
				hashing::$f(x)
			}
		}
	};
}
macro_rules! concat_h {
	($n:ident, $f:ident, $l:expr) => {
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub struct $n;
		impl StorageHasher for $n {
			type Output = Vec<u8>;
			fn hash(x: &[u8]) -> Vec<u8> {
				let mut v = hashing::$f(x).to_vec();
				v.extend_from_slice(x);
				v
			}
		}
		impl ReversibleStorageHasher for $n {
			fn reverse(x: &[u8]) -> &[u8] {
				&x[$l..]
			}
		}
	};
}
plain!(Twox128, twox_128, 16);
plain!(Twox256, twox_256, 32);
plain!(Blake2_128, blake2_128, 16);
plain!(Blake2_256, blake2_256, 32);
concat_h!(Twox64Concat, twox_64, 8);
concat_h!(Blake2_128Concat, blake2_128, 16);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Identity;
impl StorageHasher for Identity {
	type Output = Vec<u8>;
	fn hash(x: &[u8]) -> Vec<u8> {
		x.to_vec()
	}
}
impl ReversibleStorageHasher for Identity {
	fn reverse(x: &[u8]) -> &[u8] {
		x
	}
}
pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn blake2_128_concat(&self) -> Vec<u8>;
	fn twox_128(&self) -> [u8; 16];
	fn twox_256(&self) -> [u8; 32];
	fn twox_64_concat(&self) -> Vec<u8>;
	fn identity(&self) -> Vec<u8>;
}
impl<T: Codec> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] {
		hashing::blake2_128(&self.encode())
	}
	fn blake2_256(&self) -> [u8; 32] {
		hashing::blake2_256(&self.encode())
	}
	fn blake2_128_concat(&self) -> Vec<u8> {
		Blake2_128Concat::hash(&self.encode())
	}
	fn twox_128(&self) -> [u8; 16] {
		hashing::twox_128(&self.encode())
	}
	fn twox_256(&self) -> [u8; 32] {
		hashing::twox_256(&self.encode())
	}
	fn twox_64_concat(&self) -> Vec<u8> {
		Twox64Concat::hash(&self.encode())
	}
	fn identity(&self) -> Vec<u8> {
		self.encode()
	}
}

pub const TRANSACTIONAL_LIMIT: usize = 255;
/// Runs `f` in a new storage layer: committed on `Ok`, rolled back on `Err`.
pub fn with_storage_layer<T, E: From<crate::runtime::DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	if ext::transaction_depth() >= TRANSACTIONAL_LIMIT {
		return Err(crate::runtime::DispatchError::Transactional(crate::runtime::TransactionalError::LimitReached).into())
	}
	ext::start_transaction();
	match f() {
		Ok(r) => {
			ext::commit_transaction();
			Ok(r)
		},
		Err(e) => {
			ext::rollback_transaction();
			Err(e)
		},
	}
}
pub fn in_storage_layer<T, E: From<crate::runtime::DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	if ext::transaction_depth() > 0 {
		f()
	} else {
		with_storage_layer(f)
	}
}
pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
pub fn with_transaction<T, E: From<crate::runtime::DispatchError>, F: FnOnce() -> TransactionOutcome<Result<T, E>>>(f: F) -> Result<T, E> {
	ext::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => {
			ext::commit_transaction();
			r
		},
		TransactionOutcome::Rollback(r) => {
			ext::rollback_transaction();
			r
		},
	}
}
pub mod transactional {
	pub use super::{in_storage_layer, with_storage_layer, with_transaction};
}
pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
		ext::get(k).and_then(|b| T::decode(&mut &b[..]).ok())
	}
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
		ext::get(k)
	}
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) {
		ext::put(k, v.encode())
	}
	pub fn put_raw(k: &[u8], v: &[u8]) {
		ext::put(k, v.to_vec())
	}
	pub fn exists(k: &[u8]) -> bool {
		ext::exists(k)
	}
	pub fn kill(k: &[u8]) {
		ext::kill(k)
	}
}
pub mod child {
	use super::*;
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct ChildInfo(Vec<u8>);
	impl ChildInfo {
		pub fn new_default(k: &[u8]) -> Self {
			ChildInfo(k.to_vec())
		}
		pub fn new_default_from_vec(k: Vec<u8>) -> Self {
			ChildInfo(k)
		}
		pub fn storage_key(&self) -> &[u8] {
			&self.0
		}
		pub fn into_prefixed_storage_key(self) -> Vec<u8> {
			self.0
		}
	}
	pub fn get<T: Decode + Sized>(c: &ChildInfo, k: &[u8]) -> Option<T> {
		ext::child_get(&c.0, k).and_then(|b| T::decode(&mut &b[..]).ok())
	}
	pub fn get_or_default<T: Decode + Sized + Default>(c: &ChildInfo, k: &[u8]) -> T {
		get(c, k).unwrap_or_default()
	}
	pub fn put<T: Encode>(c: &ChildInfo, k: &[u8], v: &T) {
		ext::child_put(&c.0, k, v.encode())
	}
	pub fn take<T: Decode + Sized>(c: &ChildInfo, k: &[u8]) -> Option<T> {
		let r = get(c, k);
		if r.is_some() {
			kill(c, k)
		}
		r
	}
	pub fn exists(c: &ChildInfo, k: &[u8]) -> bool {
		ext::child_get(&c.0, k).is_some()
	}
	pub fn len(c: &ChildInfo, k: &[u8]) -> Option<u32> {
		ext::child_get(&c.0, k).map(|b| b.len() as u32)
	}
	pub fn kill(c: &ChildInfo, k: &[u8]) {
		ext::child_kill(&c.0, k)
	}
	pub fn get_raw(c: &ChildInfo, k: &[u8]) -> Option<Vec<u8>> {
		ext::child_get(&c.0, k)
	}
	pub fn put_raw(c: &ChildInfo, k: &[u8], v: &[u8]) {
		ext::child_put(&c.0, k, v.to_vec())
	}
	pub fn clear_storage(c: &ChildInfo, _limit: Option<u32>, _cursor: Option<&[u8]>) -> MultiRemovalResults {
		let n = ext::child_clear(&c.0);
		MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
	}
	pub fn kill_storage(c: &ChildInfo, _limit: Option<u32>) -> u32 {
		ext::child_clear(&c.0)
	}
	pub fn next_key(c: &ChildInfo, k: &[u8]) -> Option<Vec<u8>> {
		ext::child_next_key(&c.0, k)
	}
}
/// Iterates over the keys of a child trie with a prefix.
pub struct ChildTriePrefixIterator<T> {
	child: child::ChildInfo,
	keys: std::vec::IntoIter<Vec<u8>>,
	prefix: Vec<u8>,
	drain: bool,
	p: PhantomData<T>,
}
impl<T> ChildTriePrefixIterator<T> {
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
}
impl<T: Decode> ChildTriePrefixIterator<(Vec<u8>, T)> {
	pub fn with_prefix(c: &child::ChildInfo, prefix: &[u8]) -> Self {
		ChildTriePrefixIterator {
			child: c.clone(),
			keys: ext::child_keys_with_prefix(c.storage_key(), prefix).into_iter(),
			prefix: prefix.to_vec(),
			drain: false,
			p: PhantomData,
		}
	}
}
impl<K: Decode + Sized, T: Decode> ChildTriePrefixIterator<(K, T)> {
	pub fn with_prefix_over_key<H: ReversibleStorageHasher>(c: &child::ChildInfo, prefix: &[u8]) -> KeyedChildIter<K, T, H> {
		KeyedChildIter {
			child: c.clone(),
			keys: ext::child_keys_with_prefix(c.storage_key(), prefix).into_iter(),
			n: prefix.len(),
			drain: false,
			p: PhantomData,
		}
	}
}
impl<T: Decode> Iterator for ChildTriePrefixIterator<(Vec<u8>, T)> {
	type Item = (Vec<u8>, T);
	fn next(&mut self) -> Option<Self::Item> {
		loop {
			let k = self.keys.next()?;
			let Some(b) = ext::child_get(self.child.storage_key(), &k) else { continue };
			if self.drain {
				ext::child_kill(self.child.storage_key(), &k)
			}
			if let Ok(v) = T::decode(&mut &b[..]) {
				return Some((k[self.prefix.len()..].to_vec(), v))
			}
		}
	}
}
pub struct KeyedChildIter<K, T, H> {
	child: child::ChildInfo,
	keys: std::vec::IntoIter<Vec<u8>>,
	n: usize,
	drain: bool,
	p: PhantomData<(K, T, H)>,
}
impl<K, T, H> KeyedChildIter<K, T, H> {
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
}
impl<K: Decode, T: Decode, H: ReversibleStorageHasher> Iterator for KeyedChildIter<K, T, H> {
	type Item = (K, T);
	fn next(&mut self) -> Option<(K, T)> {
		loop {
			let k = self.keys.next()?;
			let Some(b) = ext::child_get(self.child.storage_key(), &k) else { continue };
			if self.drain {
				ext::child_kill(self.child.storage_key(), &k)
			}
			let Ok(key) = K::decode(&mut H::reverse(&k[self.n..])) else { continue };
			if let Ok(v) = T::decode(&mut &b[..]) {
				return Some((key, v))
			}
		}
	}
}

pub trait StorageDecodeLength: DecodeLength {}
pub trait StorageAppend<I> {
	fn append_item(&mut self, i: I);
}
impl<T> StorageAppend<T> for Vec<T> {
	fn append_item(&mut self, i: T) {
		self.push(i)
	}
}
pub trait StorageTryAppend<I>: Sized {
	fn try_append_item(&mut self, i: I) -> Result<(), ()>;
}
impl<T, S: Get<u32>> StorageTryAppend<T> for BoundedVec<T, S> {
	fn try_append_item(&mut self, i: T) -> Result<(), ()> {
		self.try_push(i).map_err(|_| ())
	}
}

#[derive(Debug, Clone, Copy)]
pub struct OptionQuery;
#[derive(Debug, Clone, Copy)]
pub struct ValueQuery;
pub trait QueryKindTrait<V, E> {
	type Query;
	fn from_opt(v: Option<V>) -> Self::Query;
	fn into_opt(q: Self::Query) -> Option<V>;
}
impl<V, E> QueryKindTrait<V, E> for OptionQuery {
	type Query = Option<V>;
	fn from_opt(v: Option<V>) -> Option<V> {
		v
	}
	fn into_opt(q: Option<V>) -> Option<V> {
		q
	}
}
impl<V, E: Get<V>> QueryKindTrait<V, E> for ValueQuery {
	type Query = V;
	fn from_opt(v: Option<V>) -> V {
		v.unwrap_or_else(|| E::get())
	}
	fn into_opt(q: V) -> Option<V> {
		Some(q)
	}
}

/// operations on one key
struct At<V, Q, E>(Vec<u8>, PhantomData<(V, Q, E)>);
impl<V: Codec, Q: QueryKindTrait<V, E>, E> At<V, Q, E> {
	fn opt(&self) -> Option<V> {
		ext::get(&self.0).and_then(|b| V::decode(&mut &b[..]).ok())
	}
	fn get(&self) -> Q::Query {
		Q::from_opt(self.opt())
	}
	fn put_opt(&self, v: Option<V>) {
		match v {
			Some(v) => ext::put(&self.0, v.encode()),
			None => ext::kill(&self.0),
		}
	}
	fn try_mutate<R, X>(&self, f: impl FnOnce(&mut Q::Query) -> Result<R, X>) -> Result<R, X> {
		let mut q = self.get();
		let r = f(&mut q)?;
		self.put_opt(Q::into_opt(q));
		Ok(r)
	}
	fn try_mutate_exists<R, X>(&self, f: impl FnOnce(&mut Option<V>) -> Result<R, X>) -> Result<R, X> {
		let mut q = self.opt();
		let r = f(&mut q)?;
		self.put_opt(q);
		Ok(r)
	}
	fn mutate_extant<R: Default>(&self, f: impl FnOnce(&mut V) -> R) -> R {
		match self.opt() {
			Some(mut v) => {
				let r = f(&mut v);
				self.put_opt(Some(v));
				r
			},
			None => R::default(),
		}
	}
	fn take(&self) -> Q::Query {
		let r = self.opt();
		if r.is_some() {
			ext::kill(&self.0)
		}
		Q::from_opt(r)
	}
}
fn at<V, Q, E>(k: Vec<u8>) -> At<V, Q, E> {
	At(k, PhantomData)
}
fn clear_prefix(p: &[u8], limit: u32) -> MultiRemovalResults {
	let ks = ext::keys_with_prefix(p);
	let mut n = 0;
	let mut cursor = None;
	for k in &ks {
		if n >= limit {
			cursor = Some(k.clone());
			break
		}
		ext::kill(k);
		n += 1;
	}
	MultiRemovalResults { maybe_cursor: cursor, backend: n, unique: n, loops: n }
}

/// Iterator over hashed keys.
pub struct PrefixIterator<T> {
	keys: std::vec::IntoIter<Vec<u8>>,
	prefix: Vec<u8>,
	drain: bool,
	values: bool,
	last: Vec<u8>,
	f: Box<dyn Fn(&[u8], &[u8]) -> Option<T>>,
}
impl<T> PrefixIterator<T> {
	fn mk(prefix: Vec<u8>, values: bool, f: impl Fn(&[u8], &[u8]) -> Option<T> + 'static) -> Self {
		PrefixIterator { keys: ext::keys_with_prefix(&prefix).into_iter(), last: prefix.clone(), prefix, drain: false, values, f: Box::new(f) }
	}
	fn from(mut self, start: Vec<u8>) -> Self {
		let ks: Vec<_> = self.keys.filter(|k| *k > start).collect();
		self.keys = ks.into_iter();
		self
	}
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
	pub fn last_raw_key(&self) -> &[u8] {
		&self.last
	}
	pub fn prefix(&self) -> &[u8] {
		&self.prefix
	}
}
impl<T> Iterator for PrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let k = self.keys.next()?;
			self.last = k.clone();
			let Some(b) = ext::get(&k) else { continue };
			if self.drain {
				ext::kill(&k)
			}
			if let Some(r) = (self.f)(&k[self.prefix.len()..], &b) {
				return Some(r)
			}
		}
	}
}

pub mod types {
	pub use super::{OptionQuery, QueryKindTrait, ValueQuery};
	use super::*;
	pub struct StorageValue<P, V, Q = OptionQuery, E = GetDefault>(PhantomData<(P, V, Q, E)>);
	pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault> = StorageMap<P, H, K, V, Q, E, M>;
	pub struct StorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, E, M)>);
	pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, E, M)>);
	pub struct StorageNMap<P, Key, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, Key, V, Q, E, M)>);

	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, E>, E> StorageValue<P, V, Q, E> {
		fn at() -> At<V, Q, E> {
			at(P::prefix_hash().to_vec())
		}
		pub fn hashed_key() -> [u8; 32] {
			P::prefix_hash()
		}
		pub fn exists() -> bool {
			ext::exists(&Self::at().0)
		}
		pub fn get() -> Q::Query {
			Self::at().get()
		}
		pub fn try_get() -> Result<V, ()> {
			Self::at().opt().ok_or(())
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			ext::put(&Self::at().0, v.encode())
		}
		pub fn set(v: Q::Query) {
			Self::at().put_opt(Q::into_opt(v))
		}
		pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
			Self::at().try_mutate(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate<R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(f: F) -> Result<R, X> {
			Self::at().try_mutate(f)
		}
		pub fn mutate_extant<R: Default, F: FnOnce(&mut V) -> R>(f: F) -> R {
			Self::at().mutate_extant(f)
		}
		pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
			Self::at().try_mutate_exists(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate_exists<R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(f: F) -> Result<R, X> {
			Self::at().try_mutate_exists(f)
		}
		pub fn kill() {
			ext::kill(&Self::at().0)
		}
		pub fn take() -> Q::Query {
			Self::at().take()
		}
		pub fn swap(v: V) -> Q::Query {
			let o = Self::get();
			Self::at().put_opt(Some(v));
			o
		}
		pub fn append<I>(i: I)
		where
			V: StorageAppend<I> + Default,
		{
			let mut v = Self::at().opt().unwrap_or_default();
			v.append_item(i);
			Self::at().put_opt(Some(v))
		}
		pub fn try_append<I>(i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I> + Default,
		{
			let mut v = Self::at().opt().unwrap_or_default();
			v.try_append_item(i)?;
			Self::at().put_opt(Some(v));
			Ok(())
		}
		pub fn decode_len() -> Option<usize>
		where
			V: DecodeLength,
		{
			ext::get(&Self::at().0).and_then(|b| <V as DecodeLength>::len(&b).ok())
		}
		pub fn translate<O: Decode, F: FnOnce(Option<O>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
			let o = match ext::get(&Self::at().0) {
				None => None,
				Some(b) => Some(O::decode(&mut &b[..]).map_err(|_| ())?),
			};
			let n = f(o);
			let r = n.as_ref().map(|x| x.encode());
			match r {
				Some(b) => ext::put(&Self::at().0, b),
				None => ext::kill(&Self::at().0),
			}
			Ok(n)
		}
	}
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
		pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
			let mut r = P::prefix_hash().to_vec();
			r.extend_from_slice(H::hash(&k.encode()).as_ref());
			r
		}
		pub fn final_prefix() -> [u8; 32] {
			P::prefix_hash()
		}
		pub fn prefix_hash() -> [u8; 32] {
			P::prefix_hash()
		}
		pub fn module_prefix() -> &'static [u8] {
			P::pallet_prefix().as_bytes()
		}
		pub fn storage_prefix() -> &'static [u8] {
			P::STORAGE_PREFIX.as_bytes()
		}
		fn at<A: EncodeLike<K>>(k: A) -> At<V, Q, E> {
			at(Self::hashed_key_for(k))
		}
		pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
			ext::exists(&Self::hashed_key_for(k))
		}
		pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
			Self::at(k).get()
		}
		pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
			Self::at(k).opt().ok_or(())
		}
		pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
			ext::put(&Self::hashed_key_for(k), v.encode())
		}
		pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) {
			Self::at(k).put_opt(Q::into_opt(q))
		}
		pub fn remove<A: EncodeLike<K>>(k: A) {
			ext::kill(&Self::hashed_key_for(k))
		}
		pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
			Self::at(k).take()
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (x, y) = (Self::at(a), Self::at(b));
			let (vx, vy) = (x.opt(), y.opt());
			x.put_opt(vy);
			y.put_opt(vx);
		}
		pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
			Self::at(k).try_mutate(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate<A: EncodeLike<K>, R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(k: A, f: F) -> Result<R, X> {
			Self::at(k).try_mutate(f)
		}
		pub fn mutate_extant<A: EncodeLike<K>, R: Default, F: FnOnce(&mut V) -> R>(k: A, f: F) -> R {
			Self::at(k).mutate_extant(f)
		}
		pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
			Self::at(k).try_mutate_exists(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate_exists<A: EncodeLike<K>, R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(k: A, f: F) -> Result<R, X> {
			Self::at(k).try_mutate_exists(f)
		}
		pub fn append<A: EncodeLike<K>, I>(k: A, i: I)
		where
			V: StorageAppend<I> + Default,
		{
			let a = Self::at(k);
			let mut v = a.opt().unwrap_or_default();
			v.append_item(i);
			a.put_opt(Some(v))
		}
		pub fn try_append<A: EncodeLike<K> + Clone, I>(k: A, i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I> + Default,
		{
			let a = Self::at(k);
			let mut v = a.opt().unwrap_or_default();
			v.try_append_item(i)?;
			a.put_opt(Some(v));
			Ok(())
		}
		pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize>
		where
			V: DecodeLength,
		{
			ext::get(&Self::hashed_key_for(k)).and_then(|b| <V as DecodeLength>::len(&b).ok())
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&P::prefix_hash(), limit)
		}
		pub fn remove_all(limit: Option<u32>) -> u32 {
			clear_prefix(&P::prefix_hash(), limit.unwrap_or(u32::MAX)).unique
		}
		pub fn iter_values() -> PrefixIterator<V>
		where
			V: 'static,
		{
			PrefixIterator::mk(P::prefix_hash().to_vec(), true, |_, b| V::decode(&mut &b[..]).ok())
		}
		pub fn count() -> u32 {
			ext::keys_with_prefix(&P::prefix_hash()).len() as u32
		}
		pub fn migrate_key<OH: StorageHasher, A: EncodeLike<K>>(k: A) -> Option<V> {
			None
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
		pub fn iter() -> PrefixIterator<(K, V)> {
			PrefixIterator::mk(P::prefix_hash().to_vec(), true, |k, b| Some((K::decode(&mut H::reverse(k)).ok()?, V::decode(&mut &b[..]).ok()?)))
		}
		pub fn iter_from(start: Vec<u8>) -> PrefixIterator<(K, V)> {
			Self::iter().from(start)
		}
		pub fn iter_from_key<A: EncodeLike<K>>(k: A) -> PrefixIterator<(K, V)> {
			Self::iter().from(Self::hashed_key_for(k))
		}
		pub fn iter_keys() -> PrefixIterator<K> {
			PrefixIterator::mk(P::prefix_hash().to_vec(), false, |k, _| K::decode(&mut H::reverse(k)).ok())
		}
		pub fn iter_keys_from(start: Vec<u8>) -> PrefixIterator<K> {
			Self::iter_keys().from(start)
		}
		pub fn drain() -> PrefixIterator<(K, V)> {
			Self::iter().drain()
		}
		pub fn translate<O: Decode, F: FnMut(K, O) -> Option<V>>(mut f: F) {
			let p = P::prefix_hash();
			for k in ext::keys_with_prefix(&p) {
				let Some(b) = ext::get(&k) else { continue };
				let Ok(o) = O::decode(&mut &b[..]) else { continue };
				let Ok(key) = K::decode(&mut H::reverse(&k[32..])) else { continue };
				match f(key, o) {
					Some(v) => ext::put(&k, v.encode()),
					None => ext::kill(&k),
				}
			}
		}
		pub fn translate_values<O: Decode, F: FnMut(O) -> Option<V>>(mut f: F) {
			Self::translate::<O, _>(|_, o| f(o))
		}
	}
	impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M>
		StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
	{
		pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
			let mut r = Self::prefix1(a);
			r.extend_from_slice(H2::hash(&b.encode()).as_ref());
			r
		}
		fn prefix1<A: EncodeLike<K1>>(a: A) -> Vec<u8> {
			let mut r = P::prefix_hash().to_vec();
			r.extend_from_slice(H1::hash(&a.encode()).as_ref());
			r
		}
		pub fn final_prefix() -> [u8; 32] {
			P::prefix_hash()
		}
		pub fn prefix_hash() -> [u8; 32] {
			P::prefix_hash()
		}
		pub fn module_prefix() -> &'static [u8] {
			P::pallet_prefix().as_bytes()
		}
		pub fn storage_prefix() -> &'static [u8] {
			P::STORAGE_PREFIX.as_bytes()
		}
		fn at<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> At<V, Q, E> {
			at(Self::hashed_key_for(a, b))
		}
		pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
			ext::exists(&Self::hashed_key_for(a, b))
		}
		pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			Self::at(a, b).get()
		}
		pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
			Self::at(a, b).opt().ok_or(())
		}
		pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) {
			ext::put(&Self::hashed_key_for(a, b), v.encode())
		}
		pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
			Self::at(a, b).put_opt(Q::into_opt(q))
		}
		pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
			ext::kill(&Self::hashed_key_for(a, b))
		}
		pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			Self::at(a, b).take()
		}
		pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
			Self::at(a, b).try_mutate(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(a: A, b: B, f: F) -> Result<R, X> {
			Self::at(a, b).try_mutate(f)
		}
		pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
			Self::at(a, b).try_mutate_exists(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(a: A, b: B, f: F) -> Result<R, X> {
			Self::at(a, b).try_mutate_exists(f)
		}
		pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, I>(a: A, b: B, i: I)
		where
			V: StorageAppend<I> + Default,
		{
			let at = Self::at(a, b);
			let mut v = at.opt().unwrap_or_default();
			v.append_item(i);
			at.put_opt(Some(v))
		}
		pub fn try_append<A: EncodeLike<K1>, B: EncodeLike<K2>, I>(a: A, b: B, i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I> + Default,
		{
			let at = Self::at(a, b);
			let mut v = at.opt().unwrap_or_default();
			v.try_append_item(i)?;
			at.put_opt(Some(v));
			Ok(())
		}
		pub fn decode_len<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Option<usize>
		where
			V: DecodeLength,
		{
			ext::get(&Self::hashed_key_for(a, b)).and_then(|x| <V as DecodeLength>::len(&x).ok())
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&P::prefix_hash(), limit)
		}
		pub fn clear_prefix<A: EncodeLike<K1>>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&Self::prefix1(a), limit)
		}
		pub fn remove_prefix<A: EncodeLike<K1>>(a: A, limit: Option<u32>) -> u32 {
			clear_prefix(&Self::prefix1(a), limit.unwrap_or(u32::MAX)).unique
		}
		pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool {
			!ext::keys_with_prefix(&Self::prefix1(a)).is_empty()
		}
		pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> PrefixIterator<V>
		where
			V: 'static,
		{
			PrefixIterator::mk(Self::prefix1(a), true, |_, b| V::decode(&mut &b[..]).ok())
		}
		pub fn iter_values() -> PrefixIterator<V>
		where
			V: 'static,
		{
			PrefixIterator::mk(P::prefix_hash().to_vec(), true, |_, b| V::decode(&mut &b[..]).ok())
		}
	}
	impl<
			P: StorageInstance,
			H1: ReversibleStorageHasher,
			K1: FullCodec + 'static,
			H2: ReversibleStorageHasher,
			K2: FullCodec + 'static,
			V: FullCodec + 'static,
			Q: QueryKindTrait<V, E>,
			E,
			M,
		> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
	{
		fn keys(k: &[u8]) -> Option<(K1, K2)> {
			let mut r = H1::reverse(k);
			let k1 = K1::decode(&mut r).ok()?;
			let k2 = K2::decode(&mut H2::reverse(r)).ok()?;
			Some((k1, k2))
		}
		pub fn iter() -> PrefixIterator<(K1, K2, V)> {
			PrefixIterator::mk(P::prefix_hash().to_vec(), true, |k, b| {
				let (x, y) = Self::keys(k)?;
				Some((x, y, V::decode(&mut &b[..]).ok()?))
			})
		}
		pub fn iter_keys() -> PrefixIterator<(K1, K2)> {
			PrefixIterator::mk(P::prefix_hash().to_vec(), false, |k, _| Self::keys(k))
		}
		pub fn iter_from(start: Vec<u8>) -> PrefixIterator<(K1, K2, V)> {
			Self::iter().from(start)
		}
		pub fn drain() -> PrefixIterator<(K1, K2, V)> {
			Self::iter().drain()
		}
		pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> {
			PrefixIterator::mk(Self::prefix1(a), true, |k, b| Some((K2::decode(&mut H2::reverse(k)).ok()?, V::decode(&mut &b[..]).ok()?)))
		}
		pub fn iter_prefix_from<A: EncodeLike<K1>>(a: A, start: Vec<u8>) -> PrefixIterator<(K2, V)> {
			Self::iter_prefix(a).from(start)
		}
		pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<K2> {
			PrefixIterator::mk(Self::prefix1(a), false, |k, _| K2::decode(&mut H2::reverse(k)).ok())
		}
		pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> {
			Self::iter_prefix(a).drain()
		}
		pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<V>>(mut f: F) {
			let p = P::prefix_hash();
			for k in ext::keys_with_prefix(&p) {
				let Some(b) = ext::get(&k) else { continue };
				let Ok(o) = O::decode(&mut &b[..]) else { continue };
				let Some((k1, k2)) = Self::keys(&k[32..]) else { continue };
				match f(k1, k2, o) {
					Some(v) => ext::put(&k, v.encode()),
					None => ext::kill(&k),
				}
			}
		}
	}

	/// One key of a `StorageNMap`
	pub struct Key<H, K>(PhantomData<(H, K)>);
	pub type NMapKey<H, K> = Key<H, K>;
	pub trait KeyGenerator {
		type Key: Encode;
		fn final_key(k: &Self::Key) -> Vec<u8>;
		fn decode_key(k: &[u8]) -> Option<Self::Key>;
	}
	impl<H: ReversibleStorageHasher, K: FullCodec> KeyGenerator for Key<H, K> {
		type Key = K;
		fn final_key(k: &K) -> Vec<u8> {
			H::hash(&k.encode()).as_ref().to_vec()
		}
		fn decode_key(k: &[u8]) -> Option<K> {
			K::decode(&mut H::reverse(k)).ok()
		}
	}
	macro_rules! kg {
		($($h:ident $k:ident $n:tt),*) => {
			impl<$($h: ReversibleStorageHasher, $k: FullCodec),*> KeyGenerator for ($(Key<$h, $k>,)*) {
				type Key = ($($k,)*);
				fn final_key(k: &Self::Key) -> Vec<u8> { let mut r = vec![]; $( r.extend_from_slice($h::hash(&k.$n.encode()).as_ref()); )* r }
				fn decode_key(k: &[u8]) -> Option<Self::Key> { let mut r = k; Some(($( { r = $h::reverse(r); $k::decode(&mut r).ok()? } ,)*)) }
			}
		}
	}
	kg!(A1 B1 0, A2 B2 1);
	kg!(A1 B1 0, A2 B2 1, A3 B3 2);
	kg!(A1 B1 0, A2 B2 1, A3 B3 2, A4 B4 3);
	/// a prefix of the key and the remaining components
	pub trait PrefixOf<G> {
		type Suffix;
		fn prefix(&self) -> Vec<u8>;
		fn suffix(k: &[u8]) -> Option<Self::Suffix>;
	}
	macro_rules! pf {
		(($($ph:ident $pk:ident $i:tt),*), ($($sh:ident $sk:ident),+)) => {
			impl<$($ph: StorageHasher, $pk: FullCodec,)* $($sh: ReversibleStorageHasher, $sk: FullCodec),+> PrefixOf<($(Key<$ph, $pk>,)* $(Key<$sh, $sk>,)+)> for ($($pk,)*) {
				type Suffix = ($($sk),+);
				fn prefix(&self) -> Vec<u8> { let mut r = vec![]; $( r.extend_from_slice($ph::hash(&self.$i.encode()).as_ref()); )* r }
				#[allow(unused_parens, unused_assignments)]
				fn suffix(k: &[u8]) -> Option<Self::Suffix> {
					let mut k = k;
					Some(($({ let mut r = $sh::reverse(k); let v = $sk::decode(&mut r).ok()?; k = r; v }),+))
				}
			}
		}
	}
	pf!((A1 B1 0), (A2 B2));
	pf!((A1 B1 0), (A2 B2, A3 B3));
	pf!((A1 B1 0, A2 B2 1), (A3 B3));
	pf!((A1 B1 0), (A2 B2, A3 B3, A4 B4));
	pf!((A1 B1 0, A2 B2 1), (A3 B3, A4 B4));
	pf!((A1 B1 0, A2 B2 1, A3 B3 2), (A4 B4));
	impl<P: StorageInstance, G: KeyGenerator + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> StorageNMap<P, G, V, Q, E, M> {
		pub fn hashed_key_for(k: G::Key) -> Vec<u8> {
			let mut r = P::prefix_hash().to_vec();
			r.extend_from_slice(&G::final_key(&k));
			r
		}
		fn at(k: G::Key) -> At<V, Q, E> {
			at(Self::hashed_key_for(k))
		}
		pub fn contains_key(k: G::Key) -> bool {
			ext::exists(&Self::hashed_key_for(k))
		}
		pub fn get(k: G::Key) -> Q::Query {
			Self::at(k).get()
		}
		pub fn try_get(k: G::Key) -> Result<V, ()> {
			Self::at(k).opt().ok_or(())
		}
		pub fn insert<C: EncodeLike<V>>(k: G::Key, v: C) {
			ext::put(&Self::hashed_key_for(k), v.encode())
		}
		pub fn set(k: G::Key, q: Q::Query) {
			Self::at(k).put_opt(Q::into_opt(q))
		}
		pub fn remove(k: G::Key) {
			ext::kill(&Self::hashed_key_for(k))
		}
		pub fn take(k: G::Key) -> Q::Query {
			Self::at(k).take()
		}
		pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(k: G::Key, f: F) -> R {
			Self::at(k).try_mutate(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate<R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(k: G::Key, f: F) -> Result<R, X> {
			Self::at(k).try_mutate(f)
		}
		pub fn append<I>(k: G::Key, i: I)
		where
			V: StorageAppend<I> + Default,
		{
			let at = Self::at(k);
			let mut v = at.opt().unwrap_or_default();
			v.append_item(i);
			at.put_opt(Some(v))
		}
		pub fn try_append<I>(k: G::Key, i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I> + Default,
		{
			let at = Self::at(k);
			let mut v = at.opt().unwrap_or_default();
			v.try_append_item(i)?;
			at.put_opt(Some(v));
			Ok(())
		}
		pub fn decode_len(k: G::Key) -> Option<usize>
		where
			V: DecodeLength,
		{
			ext::get(&Self::hashed_key_for(k)).and_then(|x| <V as DecodeLength>::len(&x).ok())
		}
		pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(k: G::Key, f: F) -> R {
			Self::at(k).try_mutate_exists(|x| Ok::<R, ()>(f(x))).unwrap()
		}
		pub fn try_mutate_exists<R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(k: G::Key, f: F) -> Result<R, X> {
			Self::at(k).try_mutate_exists(f)
		}
		pub fn clear_prefix<Pf: PrefixOf<G>>(p: Pf, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			let mut r = P::prefix_hash().to_vec();
			r.extend_from_slice(&p.prefix());
			clear_prefix(&r, limit)
		}
		pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			clear_prefix(&P::prefix_hash(), limit)
		}
		pub fn iter() -> PrefixIterator<(G::Key, V)> {
			PrefixIterator::mk(P::prefix_hash().to_vec(), true, |k, b| Some((G::decode_key(k)?, V::decode(&mut &b[..]).ok()?)))
		}
		pub fn iter_keys() -> PrefixIterator<G::Key> {
			PrefixIterator::mk(P::prefix_hash().to_vec(), false, |k, _| G::decode_key(k))
		}
		pub fn iter_prefix_values<Pf: PrefixOf<G>>(p: Pf) -> PrefixIterator<V> {
			let mut r = P::prefix_hash().to_vec();
			r.extend_from_slice(&p.prefix());
			PrefixIterator::mk(r, true, |_, b| V::decode(&mut &b[..]).ok())
		}
		pub fn iter_prefix<Pf: PrefixOf<G>>(p: Pf) -> PrefixIterator<(Pf::Suffix, V)> where Pf: 'static {
			let mut r = P::prefix_hash().to_vec();
			r.extend_from_slice(&p.prefix());
			PrefixIterator::mk(r, true, |k, b| Some((Pf::suffix(k)?, V::decode(&mut &b[..]).ok()?)))
		}
		pub fn iter_key_prefix<Pf: PrefixOf<G>>(p: Pf) -> PrefixIterator<Pf::Suffix> where Pf: 'static {
			let mut r = P::prefix_hash().to_vec();
			r.extend_from_slice(&p.prefix());
			PrefixIterator::mk(r, false, |k, _| Pf::suffix(k))
		}
		pub fn drain_prefix<Pf: PrefixOf<G>>(p: Pf) -> PrefixIterator<(Pf::Suffix, V)> where Pf: 'static {
			Self::iter_prefix(p).drain()
		}
	}
}
/// `frame_support::storage::generator`: what the migrations use (`storage_prefix` etc. are
/// inherent here), so the traits are empty.
pub mod generator {
	pub trait StorageMap {}
	pub trait StorageDoubleMap {}
	pub trait StorageValue {}
}
pub trait StoragePrefixedMap {}

/// Names that SDK code imports for their methods; here the methods are inherent.
pub mod markers {
	pub trait IterableStorageMap<K, V> {}
	pub trait IterableStorageDoubleMap<K1, K2, V> {}
	pub trait StorageMap<K, V> {}
	pub trait StorageDoubleMap<K1, K2, V> {}
	pub trait StorageValue<V> {}
	pub trait StorageNMap<K, V> {}
}
