//! `frame_support::traits`
use super::bounded_impl::*;
use super::dispatch_impl::*;
use crate::num::*;
use crate::runtime::{DispatchError, DispatchResult};
pub use crate::runtime::traits::Member;
use crate::weights_::Weight;
use parity_scale_codec::*;
use std::fmt::Debug;
use std::marker::PhantomData;
pub use crate::io::BuildStorage as _Bs;
pub use crate::runtime::traits::{BadOrigin, BlockNumberProvider, TryConvert};

pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
macro_rules! consts {
	($($n:ident $t:ty),*) => {$(
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
		pub struct $n<const T: $t>;
		impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
		impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
		impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
		impl<const T: $t> scale_info::TypeInfo for $n<T> { type Identity = Self; fn type_info() -> scale_info::Type { Default::default() } }
	)*}
}
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI32 i32, ConstI64 i64);

pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub struct EverythingBut<A>(PhantomData<A>);
impl<T, A: Contains<T>> Contains<T> for EverythingBut<A> {
	fn contains(t: &T) -> bool {
		!A::contains(t)
	}
}
pub struct TheseExcept<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for TheseExcept<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && !B::contains(t)
	}
}
pub trait InstanceFilter<T>: Sized {
	fn filter(&self, t: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &Self) -> bool {
		true
	}
}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &T {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait Len {
	fn len(&self) -> usize;
}
impl<T: IntoIterator + Clone> Len for T
where
	T::IntoIter: ExactSizeIterator,
{
	fn len(&self) -> usize {
		self.clone().into_iter().len()
	}
}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
}
/// prefix of a `#[storage_alias]`
pub trait AliasPrefix {
	fn alias_prefix() -> &'static str;
}
pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
	fn prefix_hash() -> [u8; 32] {
		let mut r = [0; 32];
		r[..16].copy_from_slice(&crate::hashing::twox_128(Self::pallet_prefix().as_bytes()));
		r[16..].copy_from_slice(&crate::hashing::twox_128(Self::STORAGE_PREFIX.as_bytes()));
		r
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, Default)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
	fn key<P: PalletInfoAccess>() -> Vec<u8> {
		let mut k = crate::hashing::twox_128(P::name().as_bytes()).to_vec();
		k.extend_from_slice(&crate::hashing::twox_128(b":__STORAGE_VERSION__:"));
		k
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		crate::ext::get(&Self::key::<P>()).and_then(|b| Self::decode(&mut &b[..]).ok()).unwrap_or_default()
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		crate::ext::put(&Self::key::<P>(), self.encode())
	}
	pub fn exists<P: PalletInfoAccess>() -> bool {
		crate::ext::exists(&Self::key::<P>())
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(o)
	}
}
pub trait GetStorageVersion {
	type CurrentStorageVersion;
	type InCodeStorageVersion;
	fn current_storage_version() -> StorageVersion;
	fn in_code_storage_version() -> StorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	#[cfg(feature = "try-runtime")]
	fn pre_upgrade() -> Result<Vec<u8>, DispatchError> {
		Ok(vec![])
	}
	#[cfg(feature = "try-runtime")]
	fn post_upgrade(_: Vec<u8>) -> Result<(), DispatchError> {
		Ok(())
	}
}
impl OnRuntimeUpgrade for () {}
pub trait Hooks<N> {
	fn on_finalize(_n: N) {}
	fn on_idle(_n: N, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
	fn on_poll(_n: N) {}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: N) {}
	fn integrity_test() {}
}
pub trait OnInitialize<N> {
	fn on_initialize(n: N) -> Weight;
}
impl<N, T: Hooks<N>> OnInitialize<N> for T {
	fn on_initialize(n: N) -> Weight {
		<T as Hooks<N>>::on_initialize(n)
	}
}
pub trait OnFinalize<N> {
	fn on_finalize(n: N);
}
impl<N, T: Hooks<N>> OnFinalize<N> for T {
	fn on_finalize(n: N) {
		<T as Hooks<N>>::on_finalize(n)
	}
}
pub trait OffchainWorker<N> {
	fn offchain_worker(n: N);
}
impl<N, T: Hooks<N>> OffchainWorker<N> for T {
	fn offchain_worker(n: N) {
		<T as Hooks<N>>::offchain_worker(n)
	}
}
pub trait OnIdle<N> {}
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
impl<T: BuildGenesisConfig> crate::io::BuildStorage for T {
	fn assimilate_storage(&self, s: &mut crate::io::GenesisStorage) -> Result<(), String> {
		crate::io::in_genesis(s, || self.build());
		Ok(())
	}
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait GetCallName {}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin;
	type AccountId;
	fn add_filter(&mut self, f: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn filter_call(&self, c: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn set_caller_from(&mut self, o: impl Into<Self>);
	fn into_caller(self) -> Self::PalletsOrigin;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(a: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId>;
	fn as_system_ref(&self) -> Option<&crate::system::RawOrigin<Self::AccountId>>;
}
pub trait EnsureOrigin<O> {
	type Success;
	fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn try_origin(o: O) -> Result<Self::Success, O>;
	#[cfg(feature = "runtime-benchmarks")]
	fn try_successful_origin() -> Result<O, ()>;
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		match L::try_origin(o) {
			Ok(s) => Ok(Either::Left(s)),
			Err(o) => R::try_origin(o).map(Either::Right),
		}
	}
}
pub type EitherOf<L, R> = EitherOfDiverse<L, R>;
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub trait Randomness<O, B> {}
pub trait EstimateCallFee<C, B> {
	fn estimate_call_fee(c: &C, post: PostDispatchInfo) -> B;
}
pub trait OnUnbalanced<I> {
	fn on_unbalanced(_: I) {}
}
impl<I> OnUnbalanced<I> for () {}
pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, or: T) -> T;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &'static str) -> Self;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, or: T) -> T {
		self.unwrap_or(or)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.unwrap_or_else(f)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &'static str) -> Self {
		self
	}
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, or: T) -> T {
		self.unwrap_or(or)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.unwrap_or_else(|_| f())
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _: &'static str) -> Self {
		self
	}
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T, E> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> {
		self.map_err(o)
	}
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U {
		self.map_or_else(d, f)
	}
	fn defensive_ok(self) -> Option<T> {
		self.ok()
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> {
		self.map(f)
	}
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U {
		self.map_or_else(d, f)
	}
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E> {
		self.ok_or_else(err)
	}
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E> {
		self.ok_or(err)
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> {
		self.map(f)
	}
}
pub trait DefensiveSaturating {
	fn defensive_saturating_add(self, o: Self) -> Self;
	fn defensive_saturating_sub(self, o: Self) -> Self;
	fn defensive_saturating_mul(self, o: Self) -> Self;
	fn defensive_saturating_accrue(&mut self, o: Self);
	fn defensive_saturating_reduce(&mut self, o: Self);
	fn defensive_saturating_inc(&mut self);
	fn defensive_saturating_dec(&mut self);
}
impl<T: Saturating + Copy + One> DefensiveSaturating for T {
	fn defensive_saturating_add(self, o: Self) -> Self {
		self.saturating_add(o)
	}
	fn defensive_saturating_sub(self, o: Self) -> Self {
		self.saturating_sub(o)
	}
	fn defensive_saturating_mul(self, o: Self) -> Self {
		self.saturating_mul(o)
	}
	fn defensive_saturating_accrue(&mut self, o: Self) {
		*self = (*self).saturating_add(o)
	}
	fn defensive_saturating_reduce(&mut self, o: Self) {
		*self = (*self).saturating_sub(o)
	}
	fn defensive_saturating_inc(&mut self) {
		*self = (*self).saturating_add(One::one())
	}
	fn defensive_saturating_dec(&mut self) {
		*self = (*self).saturating_sub(One::one())
	}
}
pub trait TryCollectRe {}
pub use super::bounded_impl::TryCollect;
pub trait StoredMap<K, V> {
	fn get(k: &K) -> V;
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<V>) -> R) -> Result<R, DispatchError>;
}
pub struct WithdrawReasons;
impl WithdrawReasons {
	pub fn all() -> Self {
		WithdrawReasons
	}
	pub const TRANSACTION_PAYMENT: WithdrawReasons = WithdrawReasons;
	pub const TIP: WithdrawReasons = WithdrawReasons;
}
pub type LockIdentifier = [u8; 8];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
pub trait Currency<A> {
	type Balance: Balance;
	fn free_balance(_who: &A) -> Self::Balance {
		Default::default()
	}
	fn withdraw(_who: &A, _v: Self::Balance, _r: WithdrawReasons, _l: ExistenceRequirement) -> Result<Self::Balance, DispatchError> {
		unimplemented!()
	}
	fn deposit_into_existing(_who: &A, _v: Self::Balance) -> Result<Self::Balance, DispatchError> {
		unimplemented!()
	}
}
pub trait LockableCurrency<A>: Currency<A> {
	type Moment;
	type MaxLocks;
	fn set_lock(id: LockIdentifier, who: &A, amount: Self::Balance, r: WithdrawReasons);
	fn remove_lock(id: LockIdentifier, who: &A);
}
use tokens::Balance;
pub mod fungible {
	pub use super::tokens::fungible::*;
}
pub mod tokens {
	use super::*;
	pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + FixedPointOperand + Eq + 'static {}
	impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + FixedPointOperand + Eq + 'static> Balance for T {}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Preservation {
		Expendable,
		Protect,
		Preserve,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Fortitude {
		Polite,
		Force,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Precision {
		Exact,
		BestEffort,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Provenance {
		Minted,
		Extant,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum WithdrawConsequence<B> {
		BalanceLow,
		WouldDie,
		UnknownAsset,
		Underflow,
		Overflow,
		Frozen,
		ReducedToZero(B),
		Success,
	}
	impl<B: Default> WithdrawConsequence<B> {
		pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
			use crate::runtime::{ArithmeticError, TokenError};
			use WithdrawConsequence::*;
			match self {
				BalanceLow => Err(TokenError::FundsUnavailable.into()),
				WouldDie => Err(TokenError::OnlyProvider.into()),
				UnknownAsset => Err(TokenError::UnknownAsset.into()),
				Underflow => Err(ArithmeticError::Underflow.into()),
				Overflow => Err(ArithmeticError::Overflow.into()),
				Frozen => Err(TokenError::Frozen.into()),
				ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
				ReducedToZero(r) => Ok(r),
				Success => Ok(B::default()),
			}
		}
	}
	impl DepositConsequence {
		pub fn into_result(self) -> Result<(), DispatchError> {
			use crate::runtime::{ArithmeticError, TokenError};
			use DepositConsequence::*;
			Err(match self {
				BelowMinimum => TokenError::BelowMinimum.into(),
				CannotCreate => TokenError::CannotCreate.into(),
				UnknownAsset => TokenError::UnknownAsset.into(),
				Overflow => ArithmeticError::Overflow.into(),
				Blocked => TokenError::Blocked.into(),
				Success => return Ok(()),
			})
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum DepositConsequence {
		BelowMinimum,
		CannotCreate,
		UnknownAsset,
		Overflow,
		Success,
		Blocked,
	}
	pub use super::BalanceStatusRe as BalanceStatus;
	pub mod fungible {
		use super::*;
		pub use crate::support::traits_impl::conseq::*;
		pub trait Inspect<A>: Sized {
			type Balance: Balance;
			fn total_issuance() -> Self::Balance;
			fn active_issuance() -> Self::Balance {
				Self::total_issuance()
			}
			fn minimum_balance() -> Self::Balance;
			fn total_balance(who: &A) -> Self::Balance;
			fn balance(who: &A) -> Self::Balance;
			fn reducible_balance(who: &A, p: Preservation, f: Fortitude) -> Self::Balance;
			fn can_deposit(who: &A, amount: Self::Balance, p: Provenance) -> DepositConsequence;
			fn can_withdraw(who: &A, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
		}
		pub trait InspectFreeze<A>: Inspect<A> {
			type Id;
			fn balance_frozen(id: &Self::Id, who: &A) -> Self::Balance;
			fn balance_freezable(who: &A) -> Self::Balance {
				Self::total_balance(who)
			}
			fn can_freeze(id: &Self::Id, who: &A) -> bool;
		}
		pub trait Unbalanced<A>: Inspect<A> {}
		pub trait Mutate<A>: Inspect<A> {
			fn mint_into(who: &A, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
			fn burn_from(who: &A, amount: Self::Balance, p: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError>;
			fn transfer(from: &A, to: &A, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
			fn set_balance(who: &A, amount: Self::Balance) -> Self::Balance;
		}
		pub trait MutateFreeze<A>: InspectFreeze<A> {
			fn set_freeze(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult;
			fn extend_freeze(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult;
			fn thaw(id: &Self::Id, who: &A) -> DispatchResult;
			fn set_frozen(id: &Self::Id, who: &A, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
				if fortitude == Fortitude::Polite && Self::balance_freezable(who) < amount {
					return Err(crate::runtime::TokenError::FundsUnavailable.into())
				}
				Self::set_freeze(id, who, amount)
			}
			fn increase_frozen(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult {
				let a = Self::balance_frozen(id, who);
				Self::set_frozen(id, who, a.checked_add(&amount).ok_or(crate::runtime::ArithmeticError::Overflow)?, Fortitude::Polite)
			}
			fn decrease_frozen(id: &Self::Id, who: &A, amount: Self::Balance) -> DispatchResult {
				let a = Self::balance_frozen(id, who);
				Self::set_frozen(id, who, a.checked_sub(&amount).ok_or(crate::runtime::ArithmeticError::Underflow)?, Fortitude::Polite)
			}
		}
		pub trait InspectHold<A>: Inspect<A> {}
		pub trait Balanced<A>: Inspect<A> {}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BalanceStatusRe {
	Free,
	Reserved,
}
pub mod conseq {}
pub use tokens::BalanceStatus;
pub mod schedule {}
pub mod misc {}

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, scale_info::TypeInfo)]
pub enum Never {}
#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, scale_info::TypeInfo, Debug, Ord, PartialOrd)]
pub struct PalletId(pub [u8; 8]);
impl crate::core_::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}
