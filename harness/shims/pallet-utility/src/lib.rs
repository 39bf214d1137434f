//! `pallet-utility` batches.
use frame_support::dispatch::{DispatchClass, DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo};
use frame_support::pallet_prelude::*;
use frame_support::traits::{IsSubType, OriginTrait, UnfilteredDispatchable};
use frame_system::pallet_prelude::*;
use sp_runtime::traits::*;
use sp_runtime::DispatchError;
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
			+ GetDispatchInfo
			+ UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin>
			+ From<frame_system::Call<Self>>
			+ IsSubType<Call<Self>>
			+ IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin;
		type WeightInfo;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		BatchInterrupted { index: u32, error: DispatchError },
		BatchCompleted,
		ItemCompleted,
		ItemFailed { error: DispatchError },
		BatchCompletedWithErrors,
	}
	#[pallet::error]
	pub enum Error<T> {
		TooManyCalls,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let w = calls.iter().map(|c| c.get_dispatch_info().weight).fold(Weight::zero(), |a, b| a.saturating_add(b)); (w, DispatchClass::Normal) })]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let root = ensure_root(origin.clone()).is_ok();
			for (i, c) in calls.into_iter().enumerate() {
				let r = if root { c.dispatch_bypass_filter(origin.clone()) } else { c.dispatch(origin.clone()) };
				if let Err(e) = r {
					Self::deposit_event(Event::BatchInterrupted { index: i as u32, error: e.error });
					return Ok(().into())
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (d.weight, d.class) })]
		pub fn as_derivative(origin: OriginFor<T>, index: u16, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let mut origin = origin;
			let who = ensure_signed(origin.clone())?;
			let h = sp_core::hashing::blake2_256(&(b"modlpy/utilisuba", who, index).encode());
			let pseudonym = <T as frame_system::Config>::AccountId::decode(&mut TrailingZeroInput::new(&h)).map_err(|_| DispatchError::Other("decode"))?;
			origin.set_caller_from(frame_system::RawOrigin::Signed(pseudonym));
			call.dispatch(origin).map_err(|e| e.error.into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (d.weight, d.class) })]
		pub fn dispatch_as(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure_root(origin)?;
			call.dispatch_bypass_filter(frame_system::RawOrigin::None.into()).map(|_| ()).map_err(|e| e.error)
		}
		#[pallet::call_index(5)]
		#[pallet::weight(*weight)]
		pub fn with_weight(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>, weight: Weight) -> DispatchResult {
			ensure_root(origin.clone())?;
			call.dispatch_bypass_filter(origin).map(|_| ()).map_err(|e| e.error)
		}
		#[pallet::call_index(2)]
		#[pallet::weight({ let w = calls.iter().map(|c| c.get_dispatch_info().weight).fold(Weight::zero(), |a, b| a.saturating_add(b)); (w, DispatchClass::Normal) })]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let root = ensure_root(origin.clone()).is_ok();
			for c in calls.into_iter() {
				if root {
					c.dispatch_bypass_filter(origin.clone())?;
				} else {
					let mut o = origin.clone();
					o.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
						let c = <T as Config>::RuntimeCall::from_ref(c);
						!matches!(c.is_sub_type(), Some(Call::batch_all { .. }))
					});
					c.dispatch(o)?;
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight({ let w = calls.iter().map(|c| c.get_dispatch_info().weight).fold(Weight::zero(), |a, b| a.saturating_add(b)); (w, DispatchClass::Normal) })]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let root = ensure_root(origin.clone()).is_ok();
			for c in calls.into_iter() {
				let r = if root { c.dispatch_bypass_filter(origin.clone()) } else { c.dispatch(origin.clone()) };
				match r {
					Ok(_) => Self::deposit_event(Event::ItemCompleted),
					Err(e) => Self::deposit_event(Event::ItemFailed { error: e.error }),
				}
			}
			Ok(().into())
		}
	}
}
