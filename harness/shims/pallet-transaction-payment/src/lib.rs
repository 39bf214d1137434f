//! `pallet-transaction-payment`: fee computation and the token fee extension.
use frame_support::dispatch::{DispatchClass, DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo};
use frame_support::pallet_prelude::*;
use frame_support::traits::{Currency, ExistenceRequirement, WithdrawReasons};
use frame_support::weights::{Weight, WeightToFee};
use sp_runtime::traits::*;
use sp_runtime::{DispatchError, FixedPointOperand};
pub use pallet::*;
use frame_support::traits::Get;

#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
pub struct InclusionFee<Balance> {
	pub base_fee: Balance,
	pub len_fee: Balance,
	pub adjusted_weight_fee: Balance,
}
impl<B: AtLeast32BitUnsigned + Copy> InclusionFee<B> {
	pub fn inclusion_fee(&self) -> B {
		self.base_fee.saturating_add(self.len_fee).saturating_add(self.adjusted_weight_fee)
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
pub struct FeeDetails<Balance> {
	pub inclusion_fee: Option<InclusionFee<Balance>>,
	#[codec(skip)]
	pub tip: Balance,
}
impl<B: AtLeast32BitUnsigned + Copy> FeeDetails<B> {
	pub fn final_fee(&self) -> B {
		self.inclusion_fee.as_ref().map(|i| i.inclusion_fee()).unwrap_or_else(|| Zero::zero()).saturating_add(self.tip)
	}
}
pub trait OnChargeTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance;
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		info: &DispatchInfoOf<T::RuntimeCall>,
		post: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected: Self::Balance,
		tip: Self::Balance,
		already: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
pub struct FungibleAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T: Config, C: Currency<T::AccountId>, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU> {
	type Balance = C::Balance;
	type LiquidityInfo = Option<C::Balance>;
	fn withdraw_fee(who: &T::AccountId, _call: &T::RuntimeCall, _info: &DispatchInfoOf<T::RuntimeCall>, fee: C::Balance, _tip: C::Balance) -> Result<Option<C::Balance>, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None)
		}
		C::withdraw(who, fee, WithdrawReasons::TRANSACTION_PAYMENT, ExistenceRequirement::KeepAlive).map(Some).map_err(|_| InvalidTransaction::Payment.into())
	}
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_i: &DispatchInfoOf<T::RuntimeCall>,
		_p: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected: C::Balance,
		_tip: C::Balance,
		already: Option<C::Balance>,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = already {
			let _ = C::deposit_into_existing(who, paid.saturating_sub(corrected));
		}
		Ok(())
	}
}
type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate;
		type OperationalFeeMultiplier: Get<u8>;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> },
	}
}
impl<T: Config> Pallet<T> {
	pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::compute_fee_details(len, info, tip).final_fee()
	}
	pub fn compute_fee_details(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> FeeDetails<BalanceOf<T>>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::raw(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		Self::raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class).final_fee()
	}
	fn raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> FeeDetails<BalanceOf<T>> {
		if pays == Pays::Yes {
			FeeDetails {
				inclusion_fee: Some(InclusionFee {
					base_fee: Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic),
					len_fee: Self::length_to_fee(len),
					adjusted_weight_fee: Self::weight_to_fee(weight),
				}),
				tip,
			}
		} else {
			FeeDetails { inclusion_fee: None, tip }
		}
	}
	pub fn length_to_fee(l: u32) -> BalanceOf<T> {
		T::LengthToFee::weight_to_fee(&Weight::from_parts(l as u64, 0))
	}
	pub fn weight_to_fee(w: Weight) -> BalanceOf<T> {
		T::WeightToFee::weight_to_fee(&w.min(T::BlockWeights::get().max_block))
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq)]
pub struct ChargeTransactionPayment<T: Config>(BalanceOf<T>);
impl<T: Config> TypeInfo for ChargeTransactionPayment<T> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl<T: Config> core::fmt::Debug for ChargeTransactionPayment<T> {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "ChargeTransactionPayment<{:?}>", self.0)
	}
}
impl<T: Config> ChargeTransactionPayment<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	pub fn from(fee: BalanceOf<T>) -> Self {
		Self(fee)
	}
	pub fn tip(&self) -> BalanceOf<T> {
		self.0
	}
	fn withdraw_fee(
		&self,
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfoOf<T::RuntimeCall>,
		len: usize,
	) -> Result<(BalanceOf<T>, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let tip = self.0;
		let fee = Pallet::<T>::compute_fee(len as u32, info, tip);
		<<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::withdraw_fee(who, call, info, fee, tip).map(|i| (fee, i))
	}
	pub fn get_priority(_info: &DispatchInfoOf<T::RuntimeCall>, _len: usize, tip: BalanceOf<T>, _fee: BalanceOf<T>) -> TransactionPriority {
		sp_runtime::SaturatedConversion::saturated_into::<u64>(tip.saturating_add(One::one()))
	}
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, Self::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity {
		let (fee, _) = self.withdraw_fee(who, call, info, len)?;
		Ok(ValidTransaction { priority: Self::get_priority(info, len, self.0, fee), ..Default::default() })
	}
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let (_, i) = self.withdraw_fee(who, call, info, len)?;
		Ok((self.0, who.clone(), i))
	}
	fn post_dispatch(maybe: Option<Self::Pre>, info: &DispatchInfoOf<Self::Call>, post: &PostDispatchInfoOf<Self::Call>, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, i)) = maybe {
			let actual = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			<<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::correct_and_deposit_fee(&who, info, post, actual, tip, i)?;
			Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee: actual, tip });
		}
		Ok(())
	}
}
