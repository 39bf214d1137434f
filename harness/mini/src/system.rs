//! `frame_system`
use crate::ext;
use crate::num::*;
use crate::runtime::traits as rt;
use crate::runtime::*;
use crate::support::dispatch_impl::*;
use crate::support::traits_impl::*;
use crate::weights_::{RuntimeDbWeight, Weight};
use parity_scale_codec::*;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;

pub trait BlockNum: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + std::hash::Hash + std::fmt::Display + 'static + Eq + EncodeLike {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + std::hash::Hash + std::fmt::Display + 'static + Eq + EncodeLike> BlockNum for T {}
pub trait HashT: FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + Ord + Eq + AsRef<[u8]> + AsMut<[u8]> + std::fmt::Display + 'static {}
impl<T: FullCodec + Copy + Default + Debug + scale_info::TypeInfo + MaxEncodedLen + Ord + Eq + AsRef<[u8]> + AsMut<[u8]> + std::fmt::Display + 'static> HashT for T {}

pub trait Config: 'static + Eq + Clone + Debug {
	type BaseCallFilter: Contains<Self::RuntimeCall>;
	type BlockWeights: Get<limits::BlockWeights>;
	type BlockLength: Get<limits::BlockLength>;
	type DbWeight: Get<RuntimeDbWeight>;
	type RuntimeOrigin: OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>
		+ Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
		+ From<RawOrigin<Self::AccountId>>
		+ Clone
		+ Debug;
	type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug;
	type Nonce: FullCodec + Copy + Default + Debug + AtLeast32Bit + MaxEncodedLen + scale_info::TypeInfo + Eq + std::fmt::Display + 'static;
	type Block: rt::Block;
	type Hash: HashT;
	type Hashing: rt::Hash<Output = Self::Hash>;
	type AccountId: FullCodec + Clone + Debug + Ord + Eq + MaxEncodedLen + scale_info::TypeInfo + 'static;
	type Lookup: rt::StaticLookup<Target = Self::AccountId>;
	type RuntimeEvent: Clone + Debug + PartialEq + Eq + 'static + From<Event<Self>>;
	type RuntimeTask;
	type BlockHashCount;
	type Version;
	type PalletInfo: PalletInfo;
	type AccountData: FullCodec + Clone + Default + Debug + Eq + MaxEncodedLen + scale_info::TypeInfo + 'static;
	type OnNewAccount;
	type OnKilledAccount;
	type SystemWeightInfo;
	type SS58Prefix;
	type OnSetCode;
	type MaxConsumers: Get<u32>;
}
pub mod limits {
	use super::*;
	#[derive(Clone, Debug, Default)]
	pub struct WeightsPerClass {
		pub base_extrinsic: Weight,
		pub max_extrinsic: Option<Weight>,
		pub max_total: Option<Weight>,
		pub reserved: Option<Weight>,
	}
	#[derive(Clone, Debug)]
	pub struct BlockWeights {
		pub base_block: Weight,
		pub max_block: Weight,
		pub per_class: Vec<WeightsPerClass>,
	}
	impl Default for BlockWeights {
		fn default() -> Self {
			Self { base_block: Weight::zero(), max_block: Weight::from_parts(u64::MAX / 2, u64::MAX / 2), per_class: vec![WeightsPerClass::default(), WeightsPerClass::default(), WeightsPerClass::default()] }
		}
	}
	impl BlockWeights {
		pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
			&self.per_class[c as usize]
		}
		pub fn simple_max(w: Weight) -> Self {
			Self { max_block: w, ..Default::default() }
		}
		pub fn builder() -> BlockWeightsBuilder {
			BlockWeightsBuilder(Self { max_block: Weight::zero(), ..Default::default() })
		}
	}
	pub struct BlockWeightsBuilder(BlockWeights);
	impl BlockWeightsBuilder {
		pub fn base_block(mut self, w: Weight) -> Self {
			self.0.base_block = w;
			self
		}
		pub fn for_class(mut self, c: impl OneOrMany<DispatchClass>, f: impl Fn(&mut WeightsPerClass)) -> Self {
			for c in c.into_iter() {
				f(&mut self.0.per_class[c as usize])
			}
			self
		}
		pub fn avg_block_initialization(self, _: Perbill) -> Self {
			self
		}
		pub fn build_or_panic(mut self) -> BlockWeights {
			for c in &self.0.per_class {
				self.0.max_block = self.0.max_block.max(c.max_total.unwrap_or(Weight::zero()));
			}
			self.0
		}
	}
	#[derive(Clone, Debug, Default)]
	pub struct BlockLength(pub u32);
	impl BlockLength {
		pub fn max_with_normal_ratio(m: u32, _: Perbill) -> Self {
			BlockLength(m)
		}
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, mini_macros::TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<A> {
	Root,
	Signed(A),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(a: Option<A>) -> Self {
		match a {
			Some(a) => RawOrigin::Signed(a),
			None => RawOrigin::None,
		}
	}
}
/// Any caller: a system origin or one of a collective
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
pub enum Caller<A> {
	System(RawOrigin<A>),
	/// instance, ayes, members
	Members(u8, u32, u32),
	Member(u8, A),
}
pub struct SimpleOrigin<T: Config> {
	pub caller: Caller<T::AccountId>,
	filter: Option<Rc<dyn Fn(&T::RuntimeCall) -> bool>>,
}
impl<T: Config> Clone for SimpleOrigin<T> {
	fn clone(&self) -> Self {
		Self { caller: self.caller.clone(), filter: self.filter.clone() }
	}
}
impl<T: Config> Debug for SimpleOrigin<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "Origin({:?})", self.caller)
	}
}
impl<T: Config> PartialEq for SimpleOrigin<T> {
	fn eq(&self, o: &Self) -> bool {
		self.caller == o.caller
	}
}
impl<T: Config> SimpleOrigin<T> {
	fn new(caller: Caller<T::AccountId>) -> Self {
		let filter: Option<Rc<dyn Fn(&T::RuntimeCall) -> bool>> = if caller == Caller::System(RawOrigin::Root) { None } else { Some(Rc::new(|c: &T::RuntimeCall| T::BaseCallFilter::contains(c))) };
		Self { caller, filter }
	}
	pub fn signed(a: T::AccountId) -> Self {
		Self::new(Caller::System(RawOrigin::Signed(a)))
	}
	pub fn root() -> Self {
		Self::new(Caller::System(RawOrigin::Root))
	}
	pub fn none() -> Self {
		Self::new(Caller::System(RawOrigin::None))
	}
	pub fn custom(c: Caller<T::AccountId>) -> Self {
		Self::new(c)
	}
}
impl<T: Config> OriginTrait for SimpleOrigin<T> {
	type Call = T::RuntimeCall;
	type PalletsOrigin = Caller<T::AccountId>;
	type AccountId = T::AccountId;
	fn add_filter(&mut self, f: impl Fn(&Self::Call) -> bool + 'static) {
		let old = self.filter.take();
		self.filter = Some(Rc::new(move |c| f(c) && old.as_ref().map(|o| o(c)).unwrap_or(true)));
	}
	fn reset_filter(&mut self) {
		self.filter = Self::new(self.caller.clone()).filter;
		if self.filter.is_none() {
			self.filter = Some(Rc::new(|c: &T::RuntimeCall| T::BaseCallFilter::contains(c)));
		}
	}
	fn filter_call(&self, c: &Self::Call) -> bool {
		match self.caller {
			Caller::System(RawOrigin::Root) => true,
			_ => self.filter.as_ref().map(|f| f(c)).unwrap_or(true),
		}
	}
	fn caller(&self) -> &Self::PalletsOrigin {
		&self.caller
	}
	fn set_caller_from(&mut self, o: impl Into<Self>) {
		self.caller = o.into().caller;
	}
	fn into_caller(self) -> Self::PalletsOrigin {
		self.caller
	}
	fn none() -> Self {
		Self::none()
	}
	fn root() -> Self {
		Self::root()
	}
	fn signed(a: T::AccountId) -> Self {
		Self::signed(a)
	}
	fn as_signed(self) -> Option<T::AccountId> {
		match self.caller {
			Caller::System(RawOrigin::Signed(a)) => Some(a),
			_ => None,
		}
	}
	fn as_system_ref(&self) -> Option<&RawOrigin<T::AccountId>> {
		match &self.caller {
			Caller::System(o) => Some(o),
			_ => None,
		}
	}
}
impl<T: Config> From<RawOrigin<T::AccountId>> for SimpleOrigin<T> {
	fn from(o: RawOrigin<T::AccountId>) -> Self {
		Self::new(Caller::System(o))
	}
}
impl<T: Config> From<Caller<T::AccountId>> for SimpleOrigin<T> {
	fn from(o: Caller<T::AccountId>) -> Self {
		Self::new(o)
	}
}
impl<T: Config> From<SimpleOrigin<T>> for Result<RawOrigin<T::AccountId>, SimpleOrigin<T>> {
	fn from(o: SimpleOrigin<T>) -> Self {
		match o.caller {
			Caller::System(r) => Ok(r),
			_ => Err(o),
		}
	}
}
pub fn ensure_signed<O, A>(o: O) -> Result<A, rt::BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(a)) => Ok(a),
		_ => Err(rt::BadOrigin),
	}
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, rt::BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(a)) => Ok(Some(a)),
		Ok(RawOrigin::Root) => Ok(None),
		_ => Err(rt::BadOrigin),
	}
}
pub fn ensure_root<O, A>(o: O) -> Result<(), rt::BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(rt::BadOrigin),
	}
}
pub fn ensure_none<O, A>(o: O) -> Result<(), rt::BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(rt::BadOrigin),
	}
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(a) => Ok(a),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<A>(PhantomData<A>);
impl<O, A> EnsureOrigin<O> for EnsureNever<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		Err(o)
	}
}
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::None => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, mini_macros::TypeInfo)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, mini_macros::TypeInfo)]
pub struct EventRecord<E, H> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<H>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Event<T: Config> {
	Remarked { sender: T::AccountId },
	#[doc(hidden)]
	__Ignore(PhantomData<T>),
}
impl<T: Config> Encode for Event<T> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum FreezeReason {}
impl Copy for FreezeReason {}
impl PartialOrd for FreezeReason {
	fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> {
		None
	}
}
impl Ord for FreezeReason {
	fn cmp(&self, _: &Self) -> std::cmp::Ordering {
		match *self {}
	}
}
impl Encode for FreezeReason {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl Decode for FreezeReason {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Err("none".into())
	}
}
#[derive(Clone, PartialEq, Eq, Debug)]
#[allow(non_camel_case_types)]
pub enum Call<T: Config> {
	remark { remark: Vec<u8> },
	set_code { code: Vec<u8> },
	set_heap_pages { pages: u64 },
	remark_with_event { remark: Vec<u8> },
	#[doc(hidden)]
	__Ignore(PhantomData<T>),
}
impl<T: Config> Encode for Call<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		match self {
			Call::remark { remark } => {
				d.push_byte(0);
				remark.encode_to(d)
			},
			Call::set_heap_pages { pages } => {
				d.push_byte(1);
				pages.encode_to(d)
			},
			Call::set_code { code } => {
				d.push_byte(2);
				code.encode_to(d)
			},
			Call::remark_with_event { remark } => {
				d.push_byte(7);
				remark.encode_to(d)
			},
			_ => {},
		}
	}
}
impl<T: Config> Decode for Call<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(match i.read_byte()? {
			0 => Call::remark { remark: Decode::decode(i)? },
			1 => Call::set_heap_pages { pages: Decode::decode(i)? },
			2 => Call::set_code { code: Decode::decode(i)? },
			7 => Call::remark_with_event { remark: Decode::decode(i)? },
			_ => return Err("call".into()),
		})
	}
}
impl<T: Config> GetDispatchInfo for Call<T> {
	fn get_dispatch_info(&self) -> DispatchInfo {
		match self {
			Call::remark { remark } => DispatchInfo { weight: Weight::from_parts(1000 + remark.len() as u64, 0), ..Default::default() },
			Call::remark_with_event { remark } => DispatchInfo { weight: Weight::from_parts(2000 + remark.len() as u64, 0), ..Default::default() },
			_ => DispatchInfo { weight: Weight::from_parts(1000, 0), class: DispatchClass::Operational, pays_fee: Pays::Yes },
		}
	}
}
impl<T: Config> UnfilteredDispatchable for Call<T> {
	type RuntimeOrigin = T::RuntimeOrigin;
	fn dispatch_bypass_filter(self, o: T::RuntimeOrigin) -> DispatchResultWithPostInfo {
		match self {
			Call::remark { .. } => {
				ensure_signed_or_root(o)?;
				Ok(().into())
			},
			Call::remark_with_event { .. } => {
				let sender = ensure_signed(o)?;
				Pallet::<T>::deposit_event(Event::Remarked { sender });
				Ok(().into())
			},
			_ => {
				ensure_root(o)?;
				Ok(().into())
			},
		}
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode, MaxEncodedLen, mini_macros::TypeInfo)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: u32,
	pub providers: u32,
	pub sufficients: u32,
	pub data: AccountData,
}
pub type AccountInfoOf<T> = AccountInfo<<T as Config>::Nonce, <T as Config>::AccountData>;
pub struct AccountPrefix<T>(PhantomData<T>);
macro_rules! inst {
	($n:ident, $s:expr) => {
		pub struct $n<T>(PhantomData<T>);
		impl<T: Config> StorageInstance for $n<T> {
			fn pallet_prefix() -> &'static str {
				"System"
			}
			const STORAGE_PREFIX: &'static str = $s;
		}
	};
}
inst!(PAccount, "Account");
inst!(PNumber, "Number");
inst!(PBlockHash, "BlockHash");
inst!(PExtIdx, "ExtrinsicIndex");
use crate::support::storage_impl::{types::*, Blake2_128Concat, Twox64Concat};
pub type Account<T> = StorageMap<PAccount<T>, Blake2_128Concat, <T as Config>::AccountId, AccountInfoOf<T>, ValueQuery>;
pub type Number<T> = StorageValue<PNumber<T>, pallet_prelude::BlockNumberFor<T>, ValueQuery>;
pub type BlockHash<T> = StorageMap<PBlockHash<T>, Twox64Concat, pallet_prelude::BlockNumberFor<T>, <T as Config>::Hash, ValueQuery>;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pallet<T>(PhantomData<T>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}
impl<T: Config> Pallet<T> {
	pub fn deposit_event(e: impl Into<T::RuntimeEvent>) {
		if Self::block_number().is_zero() {
			return
		}
		let e: T::RuntimeEvent = e.into();
		ext::deposit(Rc::new(EventRecord::<T::RuntimeEvent, T::Hash> { phase: Phase::ApplyExtrinsic(0), event: e, topics: vec![] }))
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		ext::events().iter().filter_map(|e| e.downcast_ref::<EventRecord<T::RuntimeEvent, T::Hash>>().cloned()).collect()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		IntoIterator::into_iter(Self::events()).map(Box::new)
	}
	pub fn event_count() -> u32 {
		ext::events().len() as u32
	}
	pub fn reset_events() {
		ext::clear_events()
	}
	pub fn block_number() -> pallet_prelude::BlockNumberFor<T> {
		Number::<T>::get()
	}
	pub fn set_block_number(n: pallet_prelude::BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn block_hash(n: pallet_prelude::BlockNumberFor<T>) -> T::Hash {
		BlockHash::<T>::get(n)
	}
	pub fn account(a: impl EncodeLike<T::AccountId>) -> AccountInfoOf<T> {
		Account::<T>::get(a)
	}
	pub fn account_nonce(a: impl EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(a).nonce
	}
	pub fn inc_account_nonce(a: impl EncodeLike<T::AccountId>) {
		Account::<T>::mutate(a, |x| x.nonce += T::Nonce::one())
	}
	pub fn account_exists(a: &T::AccountId) -> bool {
		Account::<T>::contains_key(a)
	}
	pub fn providers(a: &T::AccountId) -> u32 {
		Account::<T>::get(a).providers
	}
	pub fn consumers(a: &T::AccountId) -> u32 {
		Account::<T>::get(a).consumers
	}
	pub fn inc_providers(a: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(a, |x| {
			if x.providers == 0 && x.sufficients == 0 {
				x.providers = 1;
				IncRefStatus::Created
			} else {
				x.providers = x.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(a: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(a, |m| {
			if let Some(mut x) = m.take() {
				if x.providers == 0 {
					x.providers = 1;
				}
				match (x.providers, x.consumers, x.sufficients) {
					(1, 0, 0) => Ok(DecRefStatus::Reaped),
					(1, c, _) if c > 0 => {
						*m = Some(x);
						Err(DispatchError::ConsumerRemaining)
					},
					(n, _, _) => {
						x.providers = n - 1;
						*m = Some(x);
						Ok(DecRefStatus::Exists)
					},
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_consumers(a: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(a, |x| {
			if x.providers > 0 {
				if x.consumers < T::MaxConsumers::get() {
					x.consumers += 1;
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(a: &T::AccountId) {
		Account::<T>::mutate(a, |x| {
			if x.consumers > 0 {
				x.consumers -= 1
			}
		})
	}
	pub fn assert_last_event(e: T::RuntimeEvent) {
		assert_eq!(Self::events().last().expect("events expected").event, e);
	}
	pub fn assert_has_event(e: T::RuntimeEvent) {
		let ev = Self::events();
		assert!(ev.iter().any(|r| r.event == e), "expected event {e:?} not found in events {ev:?}");
	}
	pub fn on_initialize(_: pallet_prelude::BlockNumberFor<T>) {}
	pub fn on_finalize(_: pallet_prelude::BlockNumberFor<T>) {}
	pub fn remark(o: T::RuntimeOrigin, r: Vec<u8>) -> DispatchResultWithPostInfo {
		Call::<T>::remark { remark: r }.dispatch_bypass_filter(o)
	}
}
impl<T: Config> rt::BlockNumberProvider for Pallet<T> {
	type BlockNumber = pallet_prelude::BlockNumberFor<T>;
	fn current_block_number() -> Self::BlockNumber {
		Self::block_number()
	}
}
impl<T: Config> PalletInfoAccess for Pallet<T> {
	fn index() -> usize {
		0
	}
	fn name() -> &'static str {
		"System"
	}
}
/// `AccountStore = System`
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn mutate_exists<R>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> R) -> Result<R, DispatchError> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some = if is_default { None } else { Some(account.data) };
		let r = f(&mut some);
		if Self::providers(k) > 0 || account.sufficients > 0 {
			Account::<T>::mutate(k, |a| a.data = some.unwrap_or_default());
		} else {
			Account::<T>::remove(k)
		}
		Ok(r)
	}
}
pub struct GenesisConfig<T>(PhantomData<T>);
impl<T> Default for GenesisConfig<T> {
	fn default() -> Self {
		GenesisConfig(PhantomData)
	}
}
impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
	fn build(&self) {}
}
pub mod mocking {
	use super::*;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, rt::BlakeTwo256>, PhantomData<T>>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, rt::BlakeTwo256>, PhantomData<T>>;
	pub type MockUncheckedExtrinsic<T> = PhantomData<T>;
}
pub mod pallet_prelude {
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	pub type BlockNumberFor<T> = <<<T as super::Config>::Block as crate::runtime::traits::Block>::Header as crate::runtime::traits::Header>::Number;
	pub type HeaderFor<T> = <<T as super::Config>::Block as crate::runtime::traits::Block>::Header;
}
pub mod pallet {
	pub use super::*;
}
pub mod extrinsics_root {}

/// Signed extensions of the SDK. `CheckNonZeroSender` is exact; the ones that check the signed
/// payload (versions, genesis, era) and the block's weight always pass here.
macro_rules! passing {
	($($n:ident => $pre:expr),*) => { $(
		pub struct $n<T>(PhantomData<T>);
		impl<T> Default for $n<T> { fn default() -> Self { $n(PhantomData) } }
		impl<T> Clone for $n<T> { fn clone(&self) -> Self { $n(PhantomData) } }
		impl<T> PartialEq for $n<T> { fn eq(&self, _: &Self) -> bool { true } }
		impl<T> Eq for $n<T> {}
		impl<T> Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(stringify!($n)) } }
		impl<T> Encode for $n<T> { fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {} }
		impl<T> EncodeLike for $n<T> {}
		impl<T> Decode for $n<T> { fn decode<I: Input>(_: &mut I) -> Result<Self, Error> { Ok($n(PhantomData)) } }
		impl<T: Config> rt::SignedExtension for $n<T> {
			const IDENTIFIER: &'static str = stringify!($n);
			type AccountId = T::AccountId;
			type Call = T::RuntimeCall;
			type AdditionalSigned = ();
			type Pre = ();
			fn additional_signed(&self) -> Result<(), transaction_validity::TransactionValidityError> { Ok(()) }
			fn validate(&self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &rt::DispatchInfoOf<T::RuntimeCall>, _l: usize) -> transaction_validity::TransactionValidity {
				let f: fn(Vec<u8>) -> bool = $pre;
				if f(who.encode()) { Ok(Default::default()) } else { transaction_validity::InvalidTransaction::BadSigner.into() }
			}
			fn pre_dispatch(self, who: &T::AccountId, c: &T::RuntimeCall, i: &rt::DispatchInfoOf<T::RuntimeCall>, l: usize) -> Result<(), transaction_validity::TransactionValidityError> {
				self.validate(who, c, i, l).map(|_| ())
			}
		}
	)* };
}
passing!(CheckNonZeroSender => |w| w.iter().any(|b| *b != 0), CheckSpecVersion => |_| true, CheckTxVersion => |_| true, CheckGenesis => |_| true, CheckEra => |_| true, CheckWeight => |_| true);
