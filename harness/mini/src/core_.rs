//! `sp_core`
pub use crate::hashing;
pub use crate::runtime::crypto_impl::{ecdsa, ed25519, sr25519};
pub use crate::support::bounded_impl::{BoundedBTreeMap, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use crate::support::traits_impl::{Get, ConstBool, ConstI32, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, TypedGet};
pub use mini_macros::parameter_types;
pub use mini_macros::RuntimeDebug;
pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
pub use serde;
use std::fmt;
pub mod bounded {
	pub use crate::support::bounded_impl::*;
	pub mod bounded_vec {
		pub use crate::support::bounded_impl::BoundedVec;
	}
}
pub mod storage {
	pub use crate::support::storage_impl::well_known_keys;
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct StorageKey(pub Vec<u8>);
	pub type Storage = crate::io::GenesisStorage;
}
pub mod hexdisplay {
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> {
		pub fn from<R: AsRef<[u8]> + ?Sized>(d: &'a R) -> Self {
			HexDisplay(d.as_ref())
		}
	}
	impl<'a> std::fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			for b in self.0 {
				write!(f, "{:02x}", b)?
			}
			Ok(())
		}
	}
	impl<'a> std::fmt::Debug for HexDisplay<'a> {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			std::fmt::Display::fmt(self, f)
		}
	}
}
pub mod crypto {
	pub use super::{AccountId32, KeyTypeId};
	pub use crate::runtime::crypto_impl::{Pair, Public, UncheckedFrom, UncheckedInto, ByteArray};
	pub mod key_types {
		pub const AURA: super::KeyTypeId = super::KeyTypeId(*b"aura");
	}
}
pub use crate::runtime::crypto_impl::Pair;
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Encode, Decode)]
pub struct KeyTypeId(pub [u8; 4]);
pub mod offchain {
	pub use crate::runtime::offchain::{testing, Duration, OffchainDbExt, OffchainStorage, OffchainWorkerExt, StorageKind, Timestamp};
	pub const STORAGE_PREFIX: &[u8] = b"storage";
}
/// Bytes serialized as hex
#[derive(Clone, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize, Default, Encode, Decode)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes {
	fn from(v: Vec<u8>) -> Self {
		Bytes(v)
	}
}
impl std::ops::Deref for Bytes {
	type Target = [u8];
	fn deref(&self) -> &[u8] {
		&self.0
	}
}
macro_rules! fixed {
	($n:ident, $len:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, mini_macros::TypeInfo)]
		pub struct $n(pub [u8; $len]);
		impl Default for $n {
			fn default() -> Self {
				Self([0; $len])
			}
		}
		impl fmt::Debug for $n {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				write!(f, "0x")?;
				for b in &self.0 {
					write!(f, "{:02x}", b)?
				}
				Ok(())
			}
		}
		impl fmt::Display for $n {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				fmt::Debug::fmt(self, f)
			}
		}
		impl AsRef<[u8]> for $n {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $n {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl From<[u8; $len]> for $n {
			fn from(b: [u8; $len]) -> Self {
				$n(b)
			}
		}
		impl From<$n> for [u8; $len] {
			fn from(b: $n) -> Self {
				b.0
			}
		}
		impl<'a> TryFrom<&'a [u8]> for $n {
			type Error = ();
			fn try_from(b: &'a [u8]) -> Result<Self, ()> {
				Ok($n(b.try_into().map_err(|_| ())?))
			}
		}
		impl $n {
			pub const fn repeat_byte(b: u8) -> Self {
				$n([b; $len])
			}
			pub const fn zero() -> Self {
				$n([0; $len])
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_fixed_bytes(&self) -> &[u8; $len] {
				&self.0
			}
			pub fn from_slice(s: &[u8]) -> Self {
				$n(s.try_into().unwrap())
			}
			pub fn random() -> Self {
				use std::sync::atomic::*;
				static N: AtomicU64 = AtomicU64::new(1);
				let h = crate::hashing::blake2_512(&N.fetch_add(1, Ordering::SeqCst).to_le_bytes());
				let mut r = [0; $len];
				r.copy_from_slice(&h[..$len]);
				$n(r)
			}
			pub fn from_low_u64_be(v: u64) -> Self {
				let mut r = [0; $len];
				r[$len - 8..].copy_from_slice(&v.to_be_bytes());
				$n(r)
			}
			pub fn is_zero(&self) -> bool {
				self.0.iter().all(|b| *b == 0)
			}
		}
		impl serde::Serialize for $n {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&format!("{:?}", self))
			}
		}
		impl<'de> serde::Deserialize<'de> for $n {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				use serde::de::Error;
				let s = String::deserialize(d)?;
				let s = s.strip_prefix("0x").unwrap_or(&s);
				let b = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16)).collect::<Result<Vec<_>, _>>().map_err(|_| D::Error::custom("hex"))?;
				$n::try_from(&b[..]).map_err(|_| D::Error::custom("length"))
			}
		}
	};
}
fixed!(H256, 32);
fixed!(H160, 20);
fixed!(AccountId32, 32);
impl AccountId32 {
	pub const fn new(b: [u8; 32]) -> Self {
		AccountId32(b)
	}
	pub fn to_ss58check(&self) -> String {
		format!("{:?}", self)
	}
}
impl AsRef<[u8; 32]> for AccountId32 {
	fn as_ref(&self) -> &[u8; 32] {
		&self.0
	}
}
pub trait TypeId {
	const TYPE_ID: [u8; 4];
}
