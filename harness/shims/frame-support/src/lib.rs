#![allow(warnings)]
pub use mini::runtime as sp_runtime;
pub use mini::io as sp_io;
pub use mini::core_ as sp_core;
pub use mini::sp_std;
pub use mini_macros::{construct_runtime, pallet, parameter_types, storage_alias, transactional};
pub use mini_macros::{CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound};
pub use mini::support::bounded_impl::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use mini::support::dispatch_impl::Parameter;
pub use mini::support::storage_impl::{Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, StorageHasher, Twox128, Twox256, Twox64Concat};
pub use mini::support::storage_impl::{StoragePrefixedMap};
pub use mini::support::storage_impl::markers::*;
pub use mini::support::traits_impl::{PalletId, Never};
pub use traits::Get;

pub mod dispatch {
	pub use mini::support::dispatch_impl::*;
	pub use mini::runtime::{DispatchError, DispatchErrorWithPostInfo};
	pub use mini::system::RawOrigin;
}
pub mod traits {
	pub use mini::support::traits_impl::*;
	pub use mini::support::bounded_impl::TryCollect;
	pub use mini::support::dispatch_impl::GetDispatchInfo as _Gdi;
}
pub mod storage {
	pub use mini::support::storage_impl::*;
	pub use mini::support::storage_impl::types::Key;
	pub mod types {
		pub use mini::support::storage_impl::types::*;
	}
}
pub mod weights {
	pub use mini::weights_::*;
}
pub mod migrations {
	pub use mini::support::traits_impl::*;
}
pub mod error {
	pub use mini::runtime::traits::{BadOrigin, LookupError};
}
pub mod unsigned {
	pub use mini::runtime::traits::ValidateUnsigned;
	pub use mini::runtime::transaction_validity::{
		InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction,
	};
}
pub mod genesis_builder_helper {}
pub mod pallet_prelude {
	pub use crate::storage;
	pub use crate::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
	pub use crate::dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays, GetDispatchInfo as _GdiP};
	pub use crate::dispatch::DispatchError;
	pub use crate::{ensure, storage_alias, Blake2_128, Blake2_128Concat, Blake2_256, Identity, StorageHasher, Twox128, Twox256, Twox64Concat};
	pub use crate::{CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound};
	pub use crate::storage::types::{Key as NMapKey, OptionQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery, CountedStorageMap};
	pub use crate::traits::{
		BuildGenesisConfig, ConstBool, ConstI32, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType,
		OriginTrait as _Ot, PalletInfoAccess, StorageVersion, TypedGet,
	};
	pub use mini::weights_::Weight;
	pub use mini::runtime::{
		traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned},
		transaction_validity::{
			InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError,
			UnknownTransaction, ValidTransaction,
		},
		RuntimeDebug,
	};
	pub use mini::sp_std::marker::PhantomData;
	pub use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	pub use scale_info::TypeInfo;
}
pub mod __private {
	pub use log;
	pub use mini::runtime::traits::Dispatchable;
	pub use mini::runtime::{DispatchError, ModuleError, RuntimeDebug};
	pub use parity_scale_codec as codec;
	pub use scale_info;
	pub use serde;
	pub fn call_filtered() -> DispatchError {
		DispatchError::Module(ModuleError { index: 0, error: [5, 0, 0, 0], message: Some("CallFiltered") })
	}
	pub fn storage_digest() -> Vec<u8> {
		mini::ext::state_digest()
	}
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! defensive {
	($($t:tt)*) => {{}};
}
#[macro_export]
macro_rules! defensive_assert {
	($($t:tt)*) => {{}};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {{
		let is = $x;
		match is {
			Ok(_) => (),
			_ => panic!("Expected Ok(_). Got {:#?}", is),
		}
	}};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y));
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr, $y:expr $(,)?) => {
		let h = $crate::__private::storage_digest();
		assert_eq!($x, Err($y.into()));
		assert_eq!(h, $crate::__private::storage_digest(), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_storage_noop {
	($x:expr) => {
		let h = $crate::__private::storage_digest();
		$x;
		assert_eq!(h, $crate::__private::storage_digest(), "storage has been mutated");
	};
}
