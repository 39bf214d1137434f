//! `pallet-balances` as the code under test sees it (free / reserved / frozen, freezes, locks, fees).
use frame_support::pallet_prelude::*;
use frame_support::traits::tokens::{fungible, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence};
use frame_support::traits::{Currency, ExistenceRequirement, LockIdentifier, LockableCurrency, StoredMap, WithdrawReasons};
use frame_system::pallet_prelude::*;
use sp_runtime::traits::*;
use sp_runtime::{ArithmeticError, DispatchError, TokenError};
pub use pallet::*;

#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: u128,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub enum Reasons {
	Fee = 0,
	Misc = 1,
	All = 2,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<Balance> {
	pub id: LockIdentifier,
	pub amount: Balance,
	pub reasons: Reasons,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config<AccountData = AccountData<<Self as Config>::Balance>> {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: frame_support::traits::tokens::Balance + MaybeSerializeDeserialize;
		type ExistentialDeposit: Get<Self::Balance>;
		type FreezeIdentifier: Encode + Decode + Eq + Clone + MaxEncodedLen + TypeInfo + core::fmt::Debug + 'static;
		type MaxFreezes: Get<u32>;
		type MaxLocks: Get<u32>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type DustRemoval;
		type WeightInfo;
		type MaxReserves;
		type ReserveIdentifier;
		type MaxHolds;
		type RuntimeHoldReason;
		type RuntimeFreezeReason;
	}
	#[pallet::storage]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Freezes<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<IdAmount<T::FreezeIdentifier, T::Balance>>, ValueQuery>;
	#[pallet::storage]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;
	#[pallet::error]
	pub enum Error<T> {
		LiquidityRestrictions,
		InsufficientBalance,
		Expendability,
		DeadAccount,
		TooManyFreezes,
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Deposit { who: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			for (a, b) in &self.balances {
				Pallet::<T>::set_free(a, *b);
			}
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1000, 0))]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(1000, 0))]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let s = T::Lookup::lookup(source)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(1000, 0))]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(1000, 0))]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let p = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let v = <Self as fungible::Inspect<_>>::reducible_balance(&s, p, Fortitude::Polite);
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, v, p)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(1000, 0))]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let w = T::Lookup::lookup(who)?;
			let n = if new_free < T::ExistentialDeposit::get() { Zero::zero() } else { new_free };
			Self::set_free(&w, n);
			Self::deposit_event(Event::BalanceSet { who: w, free: n });
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	fn ed() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).free
	}
	pub fn reserved_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).reserved
	}
	pub fn usable_balance(who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	pub fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	pub fn locks(who: &T::AccountId) -> Vec<BalanceLock<T::Balance>> {
		Locks::<T>::get(who)
	}
	fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = frame_system::Pallet::<T>::account(who);
		a.consumers == 0 || a.providers > 1
	}
	/// Set the free balance outright (genesis, root): keeps issuance.
	fn set_free(who: &T::AccountId, n: T::Balance) {
		let old = Self::account(who).free;
		let _ = Self::mutate_account(who, |a| {
			a.free = n;
			Ok(())
		});
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(n).saturating_sub(old));
	}
	/// `try_mutate_account`: provider and consumer references, dust.
	fn mutate_account<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> Result<R, DispatchError>) -> Result<R, DispatchError> {
		frame_support::storage::with_storage_layer(|| {
			let is_new = !frame_system::Pallet::<T>::account_exists(who) || Self::account(who) == AccountData::default();
			let mut a = Self::account(who);
			let did_provide = a.free >= Self::ed() && !is_new;
			let did_consume = !is_new && (!a.reserved.is_zero() || !a.frozen.is_zero());
			let r = f(&mut a)?;
			let does_provide = a.free >= Self::ed();
			let does_consume = !a.reserved.is_zero() || !a.frozen.is_zero();
			if !did_provide && does_provide {
				frame_system::Pallet::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				frame_system::Pallet::<T>::inc_consumers(who)?;
			}
			let mut gone = false;
			if did_provide && !does_provide {
				if let Err(e) = frame_system::Pallet::<T>::dec_providers(who) {
					if did_consume && !does_consume {
						frame_system::Pallet::<T>::inc_consumers(who)?;
					}
					if !did_consume && does_consume {
						frame_system::Pallet::<T>::dec_consumers(who);
					}
					return Err(e)
				}
				gone = true;
			}
			let _ = gone;
			if a.free < Self::ed() && a.reserved.is_zero() {
				let dust = a.free;
				T::AccountStore::mutate_exists(who, |m| *m = None)?;
				if !dust.is_zero() {
					TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(dust));
				}
			} else {
				T::AccountStore::mutate_exists(who, |m| *m = Some(a))?;
			}
			Ok(r)
		})
	}
	fn refresh_frozen(who: &T::AccountId) -> DispatchResult {
		let mut z: T::Balance = Zero::zero();
		for l in Locks::<T>::get(who) {
			z = z.max(l.amount)
		}
		for l in Freezes::<T>::get(who) {
			z = z.max(l.amount)
		}
		let mut prev = Zero::zero();
		Self::mutate_account(who, |a| {
			prev = a.frozen;
			a.frozen = z;
			Ok(())
		})?;
		if prev > z {
			Self::deposit_event(Event::Thawed { who: who.clone(), amount: prev - z })
		} else if z > prev {
			Self::deposit_event(Event::Frozen { who: who.clone(), amount: z - prev })
		}
		Ok(())
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		let a = Self::account(who);
		a.free.saturating_add(a.reserved)
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut u: T::Balance = Zero::zero();
		if f == Fortitude::Polite {
			u = a.frozen.saturating_sub(a.reserved);
		}
		if p == Preservation::Preserve
			|| (p == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1)
			|| (p == Preservation::Expendable && !a.free.is_zero() && !Self::can_dec_provider(who))
		{
			u = u.max(Self::ed());
		}
		a.free.saturating_sub(u)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, _p: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success
		}
		let a = Self::account(who);
		match a.free.checked_add(&amount) {
			None => DepositConsequence::Overflow,
			Some(x) if x < Self::ed() => DepositConsequence::BelowMinimum,
			_ => DepositConsequence::Success,
		}
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow
		}
		let a = Self::account(who);
		let new_free = match a.free.checked_sub(&amount) {
			Some(x) => x,
			None => return WithdrawConsequence::BalanceLow,
		};
		if amount > <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Polite) {
			return WithdrawConsequence::Frozen
		}
		let ok = if new_free < Self::ed() {
			if Self::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				return WithdrawConsequence::WouldDie
			}
		} else {
			WithdrawConsequence::Success
		};
		if new_free.saturating_add(a.reserved) < a.frozen {
			return WithdrawConsequence::Frozen
		}
		ok
	}
}
impl<T: Config> fungible::InspectHold<T::AccountId> for Pallet<T> {}
impl<T: Config> fungible::Balanced<T::AccountId> for Pallet<T> {}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(who: &T::AccountId, amount: T::Balance) -> Result<T::Balance, DispatchError> {
		<Self as fungible::Inspect<_>>::can_deposit(who, amount, Provenance::Minted).into_result()?;
		Self::mutate_account(who, |a| {
			a.free = a.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			Ok(())
		})?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(amount));
		Ok(amount)
	}
	fn burn_from(who: &T::AccountId, amount: T::Balance, p: Precision, f: Fortitude) -> Result<T::Balance, DispatchError> {
		let red = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, f).min(amount);
		if red < amount && p == Precision::Exact {
			return Err(TokenError::FundsUnavailable.into())
		}
		Self::mutate_account(who, |a| {
			a.free = a.free.checked_sub(&red).ok_or(ArithmeticError::Underflow)?;
			Ok(())
		})?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(red));
		Ok(red)
	}
	fn transfer(from: &T::AccountId, to: &T::AccountId, amount: T::Balance, p: Preservation) -> Result<T::Balance, DispatchError> {
		<Self as fungible::Inspect<_>>::can_withdraw(from, amount).into_result(p != Preservation::Expendable)?;
		<Self as fungible::Inspect<_>>::can_deposit(to, amount, Provenance::Extant).into_result()?;
		if from == to {
			return Ok(amount)
		}
		if <Self as fungible::Inspect<_>>::reducible_balance(from, p, Fortitude::Polite) < amount {
			return Err(TokenError::FundsUnavailable.into())
		}
		frame_support::storage::with_storage_layer(|| {
			Self::mutate_account(from, |a| {
				a.free = a.free.checked_sub(&amount).ok_or(ArithmeticError::Underflow)?;
				Ok(())
			})?;
			Self::mutate_account(to, |a| {
				a.free = a.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
				Ok(())
			})
		})?;
		Self::deposit_event(Event::Transfer { from: from.clone(), to: to.clone(), amount });
		Ok(amount)
	}
	fn set_balance(who: &T::AccountId, amount: T::Balance) -> T::Balance {
		Self::set_free(who, amount);
		amount
	}
}
impl<T: Config> fungible::InspectFreeze<T::AccountId> for Pallet<T> {
	type Id = T::FreezeIdentifier;
	fn balance_frozen(id: &Self::Id, who: &T::AccountId) -> T::Balance {
		Freezes::<T>::get(who).into_iter().find(|l| &l.id == id).map_or(Zero::zero(), |l| l.amount)
	}
	fn can_freeze(id: &Self::Id, who: &T::AccountId) -> bool {
		let l = Freezes::<T>::get(who);
		(l.len() as u32) < T::MaxFreezes::get() || l.into_iter().any(|l| &l.id == id)
	}
}
impl<T: Config> fungible::MutateFreeze<T::AccountId> for Pallet<T> {
	fn set_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return <Self as fungible::MutateFreeze<_>>::thaw(id, who)
		}
		let mut l = Freezes::<T>::get(who);
		if let Some(i) = l.iter_mut().find(|i| &i.id == id) {
			i.amount = amount;
		} else {
			if l.len() as u32 >= T::MaxFreezes::get() {
				return Err(Error::<T>::TooManyFreezes.into())
			}
			l.push(IdAmount { id: id.clone(), amount });
		}
		frame_support::storage::with_storage_layer(|| {
			Freezes::<T>::insert(who, l);
			Self::refresh_frozen(who)
		})
	}
	fn extend_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		let a = <Self as fungible::InspectFreeze<_>>::balance_frozen(id, who);
		if amount.is_zero() {
			return Ok(())
		}
		<Self as fungible::MutateFreeze<_>>::set_freeze(id, who, a.max(amount))
	}
	fn thaw(id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		let mut l = Freezes::<T>::get(who);
		l.retain(|l| &l.id != id);
		frame_support::storage::with_storage_layer(|| {
			if l.is_empty() {
				Freezes::<T>::remove(who)
			} else {
				Freezes::<T>::insert(who, l)
			}
			Self::refresh_frozen(who)
		})
	}
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn withdraw(who: &T::AccountId, v: T::Balance, _r: WithdrawReasons, l: ExistenceRequirement) -> Result<T::Balance, DispatchError> {
		if v.is_zero() {
			return Ok(v)
		}
		Self::mutate_account(who, |a| {
			let n = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			let would_kill = n < Self::ed() && a.free >= Self::ed();
			ensure!(l == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::Expendability);
			ensure!(n >= a.frozen, Error::<T>::LiquidityRestrictions);
			a.free = n;
			Ok(())
		})?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(v));
		Self::deposit_event(Event::Withdraw { who: who.clone(), amount: v });
		Ok(v)
	}
	fn deposit_into_existing(who: &T::AccountId, v: T::Balance) -> Result<T::Balance, DispatchError> {
		if v.is_zero() {
			return Ok(v)
		}
		ensure!(Self::account(who) != AccountData::default(), Error::<T>::DeadAccount);
		Self::mutate_account(who, |a| {
			a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			Ok(())
		})?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(v));
		Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
		Ok(v)
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = BlockNumberFor<T>;
	type MaxLocks = T::MaxLocks;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons) {
		if amount.is_zero() {
			return
		}
		Locks::<T>::mutate(who, |l| {
			l.retain(|x| x.id != id);
			l.push(BalanceLock { id, amount, reasons: Reasons::All });
		});
		let _ = Self::refresh_frozen(who);
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		Locks::<T>::mutate(who, |l| l.retain(|x| x.id != id));
		if Locks::<T>::get(who).is_empty() {
			Locks::<T>::remove(who)
		}
		let _ = Self::refresh_frozen(who);
	}
}
