//! SCALE codec (the parts the pallets use).
pub use mini_macros::{Decode, Encode, MaxEncodedLen};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::marker::PhantomData;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(pub &'static str);
impl From<&'static str> for Error {
	fn from(s: &'static str) -> Self {
		Error(s)
	}
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(self.0)
	}
}
impl std::error::Error for Error {}

pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, b: u8) {
		self.write(&[b])
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, bytes: &[u8]) {
		self.extend_from_slice(bytes)
	}
}
pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into())
		}
		let (a, b) = self.split_at(into.len());
		into.copy_from_slice(a);
		*self = b;
		Ok(())
	}
}
pub struct TrailingZeroInput<'a>(pub &'a [u8]);
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		let n = into.len().min(self.0.len());
		into[..n].copy_from_slice(&self.0[..n]);
		for x in &mut into[n..] {
			*x = 0;
		}
		self.0 = &self.0[n..];
		Ok(())
	}
}
impl<'a> TrailingZeroInput<'a> {
	pub fn new(d: &'a [u8]) -> Self {
		Self(d)
	}
	pub fn zeroes() -> Self {
		Self(&[])
	}
}

pub trait Encode {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		self.using_encoded(|b| dest.write(b));
	}
	fn size_hint(&self) -> usize {
		0
	}
	fn encode(&self) -> Vec<u8> {
		let mut v = Vec::new();
		self.encode_to(&mut v);
		v
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		self.encode().len()
	}
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = Self::decode(input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
pub trait DecodeAll: Sized {}
pub trait DecodeLength {
	fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
impl<T> DecodeLength for Vec<T> {
	fn len(mut e: &[u8]) -> Result<usize, Error> {
		Ok(<Compact<u32>>::decode(&mut e)?.0 as usize)
	}
}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait EncodeAppend {}
pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait FullCodec: Decode + FullEncode {}
impl<T: Decode + FullEncode> FullCodec for T {}
pub trait MaxEncodedLen: Encode {
	fn max_encoded_len() -> usize;
}
pub trait ConstEncodedLen: MaxEncodedLen {}
pub trait Joiner {
	fn and<V: Codec + Sized>(self, value: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Codec + Sized>(mut self, value: &V) -> Self {
		value.encode_to(&mut self);
		self
	}
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
	fn from(t: T) -> Self {
		Compact(t)
	}
}
pub trait HasCompact: Sized {
	type Type;
	fn encode_compact_to<O: Output + ?Sized>(&self, dest: &mut O);
	fn decode_compact<I: Input>(i: &mut I) -> Result<Self, Error>;
}
fn compact_out<O: Output + ?Sized>(v: u128, d: &mut O) {
	if v < 1 << 6 {
		d.push_byte((v as u8) << 2)
	} else if v < 1 << 14 {
		d.write(&(((v as u16) << 2) | 1).to_le_bytes())
	} else if v < 1 << 30 {
		d.write(&(((v as u32) << 2) | 2).to_le_bytes())
	} else {
		let n = (16 - v.leading_zeros() as usize / 8).max(4);
		d.push_byte(3 + (((n - 4) as u8) << 2));
		d.write(&v.to_le_bytes()[..n]);
	}
}
fn compact_in<I: Input>(i: &mut I) -> Result<u128, Error> {
	let b = i.read_byte()?;
	Ok(match b & 3 {
		0 => (b >> 2) as u128,
		1 => {
			let c = i.read_byte()?;
			let v = u16::from_le_bytes([b, c]) >> 2;
			if v < 1 << 6 {
				return Err("out of range".into())
			}
			v as u128
		},
		2 => {
			let mut r = [0u8; 3];
			i.read(&mut r)?;
			let v = u32::from_le_bytes([b, r[0], r[1], r[2]]) >> 2;
			if v < 1 << 14 {
				return Err("out of range".into())
			}
			v as u128
		},
		_ => {
			let n = (b >> 2) as usize + 4;
			if n > 16 {
				return Err("out of range".into())
			}
			let mut r = [0u8; 16];
			i.read(&mut r[..n])?;
			u128::from_le_bytes(r)
		},
	})
}
macro_rules! ints {
	($($t:ty),*) => {$(
		impl Encode for $t { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.write(&self.to_le_bytes()) } }
		impl Decode for $t { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let mut b = [0u8; std::mem::size_of::<$t>()]; i.read(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
		impl EncodeLike for $t {}
		impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
	)*}
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
macro_rules! compacts {
	($($t:ty),*) => {$(
		impl HasCompact for $t { type Type = Compact<$t>;
			fn encode_compact_to<O: Output + ?Sized>(&self, d: &mut O) { compact_out(*self as u128, d) }
			fn decode_compact<I: Input>(i: &mut I) -> Result<Self, Error> { <$t>::try_from(compact_in(i)?).map_err(|_| Error("out of range")) }
		}
		impl Encode for Compact<$t> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { compact_out(self.0 as u128, d) } }
		impl Decode for Compact<$t> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Compact(<$t as HasCompact>::decode_compact(i)?)) } }
		impl EncodeLike for Compact<$t> {}
		impl MaxEncodedLen for Compact<$t> { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() + 1 } }
		impl From<Compact<$t>> for $t { fn from(c: Compact<$t>) -> $t { c.0 } }
	)*}
}
compacts!(u8, u16, u32, u64, u128);
impl HasCompact for () {
	type Type = ();
	fn encode_compact_to<O: Output + ?Sized>(&self, _: &mut O) {}
	fn decode_compact<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}

impl Encode for bool {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		d.push_byte(*self as u8)
	}
}
impl Decode for bool {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
}
impl EncodeLike for bool {}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}
impl<T: ?Sized> Encode for PhantomData<T> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl<T> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}

// wrappers
macro_rules! wrap {
	($($t:ty),*) => {$(
		impl<T: Encode + ?Sized> Encode for $t { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { (**self).encode_to(d) } }
	)*}
}
wrap!(&T, &mut T, Box<T>, std::rc::Rc<T>, std::sync::Arc<T>);
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<T: Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Decode> Decode for Box<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Box::new(T::decode(i)?))
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len()
	}
}

fn len_out<O: Output + ?Sized>(n: usize, d: &mut O) {
	compact_out(n as u128, d)
}
fn len_in<I: Input>(i: &mut I) -> Result<usize, Error> {
	let n = compact_in(i)?;
	if n > u32::MAX as u128 {
		return Err("too long".into())
	}
	Ok(n as usize)
}
impl<T: Encode> Encode for [T] {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		len_out(self.len(), d);
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: Encode> Encode for Vec<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.as_slice().encode_to(d)
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl<T: Encode> EncodeLike for &[T] {}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = len_in(i)?;
		let mut v = Vec::new();
		for _ in 0..n {
			v.push(T::decode(i)?);
		}
		Ok(v)
	}
}
impl<T: Encode> Encode for VecDeque<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		len_out(self.len(), d);
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: Encode> EncodeLike for VecDeque<T> {}
impl<T: Decode> Decode for VecDeque<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Vec::<T>::decode(i)?.into())
	}
}
impl Encode for str {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.as_bytes().encode_to(d)
	}
}
impl EncodeLike for &str {}
impl EncodeLike<String> for &str {}
impl Encode for String {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.as_bytes().encode_to(d)
	}
}
impl EncodeLike for String {}
impl Decode for String {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(i)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
impl<T: Encode> Encode for Option<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		match self {
			None => d.push_byte(0),
			Some(x) => {
				d.push_byte(1);
				x.encode_to(d)
			},
		}
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(i)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_add(1)
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		match self {
			Ok(x) => {
				d.push_byte(0);
				x.encode_to(d)
			},
			Err(x) => {
				d.push_byte(1);
				x.encode_to(d)
			},
		}
	}
}
impl<T: Encode, E: Encode> EncodeLike for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(Ok(T::decode(i)?)),
			1 => Ok(Err(E::decode(i)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let mut v = Vec::with_capacity(N);
		for _ in 0..N {
			v.push(T::decode(i)?);
		}
		v.try_into().map_err(|_| Error("array"))
	}
}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_mul(N)
	}
}
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		len_out(self.len(), d);
		for (k, v) in self {
			k.encode_to(d);
			v.encode_to(d)
		}
	}
}
impl<K: Encode, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = len_in(i)?;
		let mut m = BTreeMap::new();
		for _ in 0..n {
			m.insert(K::decode(i)?, V::decode(i)?);
		}
		Ok(m)
	}
}
impl<K: Encode> Encode for BTreeSet<K> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		len_out(self.len(), d);
		for k in self {
			k.encode_to(d);
		}
	}
}
impl<K: Encode> EncodeLike for BTreeSet<K> {}
impl<K: Decode + Ord> Decode for BTreeSet<K> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Vec::<K>::decode(i)?.into_iter().collect())
	}
}
impl Encode for () {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl EncodeLike for () {}
impl Decode for () {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}
impl MaxEncodedLen for () {
	fn max_encoded_len() -> usize {
		0
	}
}
macro_rules! tuples {
	($($a:ident $b:ident $n:tt),*) => {
		impl<$($a: Encode),*> Encode for ($($a,)*) { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { $(self.$n.encode_to(d);)* } }
		impl<$($a: Decode),*> Decode for ($($a,)*) { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(($($a::decode(i)?,)*)) } }
		impl<$($a: EncodeLike<$b>, $b: Encode),*> EncodeLike<($($b,)*)> for ($($a,)*) {}
		impl<$($a: MaxEncodedLen),*> MaxEncodedLen for ($($a,)*) { fn max_encoded_len() -> usize { 0usize$(.saturating_add($a::max_encoded_len()))* } }
	}
}
tuples!(A0 B0 0);
tuples!(A0 B0 0, A1 B1 1);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8, A9 B9 9);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8, A9 B9 9, A10 B10 10);
tuples!(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8, A9 B9 9, A10 B10 10, A11 B11 11);
