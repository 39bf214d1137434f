//! Runtime configuration shared by the drivers.
pub use common_primitives;
pub use frame_support;
pub use frame_system;
pub use mini;
pub use parity_scale_codec;
pub use sp_core;
pub use sp_runtime;
use sp_core::crypto::AccountId32;
use sp_runtime::MultiSignature;
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! { static PARAMS: RefCell<HashMap<&'static str, u64>> = RefCell::new(HashMap::new()); }
pub fn set_param(k: &'static str, v: u64) {
	PARAMS.with(|p| p.borrow_mut().insert(k, v));
}
pub fn param(k: &'static str) -> u64 {
	PARAMS.with(|p| *p.borrow().get(k).unwrap_or_else(|| panic!("param {k} unset")))
}
/// `param!(Name, u32)` defines `struct Name` with `Get<u32>` reading the parameter "Name".
#[macro_export]
macro_rules! param {
	($($n:ident : $t:ty),* $(,)?) => { $(
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $n;
		impl $crate::frame_support::traits::Get<$t> for $n {
			fn get() -> $t { $crate::param(stringify!($n)) as $t }
		}
	)* };
}
#[macro_export]
macro_rules! opt_param {
	($n:ident : $t:ty) => {
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $n;
		impl $crate::frame_support::traits::Get<Option<$t>> for $n {
			fn get() -> Option<$t> { Some($crate::param(stringify!($n)) as $t) }
		}
	};
}
/// The account called `name`.
pub fn acc(name: &str) -> AccountId32 {
	let mut b = [0u8; 32];
	let n = name.as_bytes();
	b[..n.len().min(31)].copy_from_slice(&n[..n.len().min(31)]);
	b[31] = 0xA5;
	AccountId32::from(b)
}
pub fn acc_name(a: &AccountId32) -> String {
	let b: &[u8; 32] = a.as_ref();
	String::from_utf8_lossy(&b[..31]).trim_end_matches('\0').to_string()
}
/// Signature of `msg` by the account called `name`.
pub fn sign(name: &str, msg: &[u8]) -> MultiSignature {
	let a = acc(name);
	let b: &[u8; 32] = a.as_ref();
	MultiSignature::Sr25519(sp_core::sr25519::Signature::from_raw(sp_runtime::crypto_impl::sign64(b"sr", b, msg)))
}
/// Signature over the wallet-wrapped payload, as the chain expects for MSA, handle and storage payloads.
pub fn sign_wrapped(name: &str, payload: &[u8]) -> MultiSignature {
	let mut m = b"<Bytes>".to_vec();
	m.extend_from_slice(payload);
	m.extend_from_slice(b"</Bytes>");
	sign(name, &m)
}

#[macro_export]
macro_rules! system_config {
	($rt:ty, data = $d:ty, filter = $f:ty) => {
		impl frame_system::Config for $rt {
			type BaseCallFilter = $f;
			type BlockWeights = ();
			type BlockLength = ();
			type DbWeight = ();
			type RuntimeOrigin = RuntimeOrigin;
			type RuntimeCall = RuntimeCall;
			type Nonce = u32;
			type Hash = $crate::sp_core::H256;
			type Hashing = $crate::sp_runtime::traits::BlakeTwo256;
			type AccountId = $crate::sp_core::crypto::AccountId32;
			type Lookup = $crate::sp_runtime::traits::IdentityLookup<Self::AccountId>;
			type Block = $crate::frame_system::mocking::MockBlockU32<$rt>;
			type RuntimeEvent = RuntimeEvent;
			type RuntimeTask = RuntimeTask;
			type BlockHashCount = $crate::frame_support::traits::ConstU32<250>;
			type Version = ();
			type PalletInfo = PalletInfo;
			type AccountData = $d;
			type OnNewAccount = ();
			type OnKilledAccount = ();
			type SystemWeightInfo = ();
			type SS58Prefix = $crate::frame_support::traits::ConstU16<42>;
			type OnSetCode = ();
			type MaxConsumers = $crate::frame_support::traits::ConstU32<16>;
		}
	};
	($rt:ty) => { $crate::system_config!($rt, data = (), filter = $crate::frame_support::traits::Everything); };
}
/// Governance stand-in: records the proposal, refuses nothing.
#[macro_export]
macro_rules! proposals {
	() => {
		pub struct Proposals;
		thread_local! { pub static PROPOSED: std::cell::RefCell<Vec<(u32, RuntimeCall)>> = std::cell::RefCell::new(vec![]); }
		impl $crate::common_primitives::node::ProposalProvider<$crate::sp_core::crypto::AccountId32, RuntimeCall> for Proposals {
			fn propose(_w: $crate::sp_core::crypto::AccountId32, t: u32, p: Box<RuntimeCall>) -> Result<(u32, u32), $crate::sp_runtime::DispatchError> {
				PROPOSED.with(|v| v.borrow_mut().push((t, *p)));
				Ok((0, 0))
			}
			fn propose_with_simple_majority(_w: $crate::sp_core::crypto::AccountId32, p: Box<RuntimeCall>) -> Result<(u32, u32), $crate::sp_runtime::DispatchError> {
				PROPOSED.with(|v| v.borrow_mut().push((0, *p)));
				Ok((0, 0))
			}
		}
	};
}
#[macro_export]
macro_rules! msa_config {
	($rt:ty, schemas = $s:ty, handles = $h:ty) => {
		$crate::param!(MaxPublicKeysPerMsa: u8, MaxSchemaGrantsPerDelegation: u32, MaxProviderNameSize: u32, MsaMortality: u32);
		$crate::opt_param!(MaxSignaturesStored: u32);
		$crate::proposals!();
		impl pallet_msa::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type WeightInfo = ();
			type ConvertIntoAccountId32 = $crate::sp_runtime::traits::ConvertInto;
			type MaxPublicKeysPerMsa = MaxPublicKeysPerMsa;
			type MaxSchemaGrantsPerDelegation = MaxSchemaGrantsPerDelegation;
			type MaxProviderNameSize = MaxProviderNameSize;
			type SchemaValidator = $s;
			type HandleProvider = $h;
			type MortalityWindowSize = MsaMortality;
			type MaxSignaturesStored = MaxSignaturesStored;
			type Proposal = RuntimeCall;
			type ProposalProvider = Proposals;
			type CreateProviderViaGovernanceOrigin = frame_system::EnsureRoot<$crate::sp_core::crypto::AccountId32>;
		}
		pub fn msa_defaults() {
			$crate::set_param("MaxPublicKeysPerMsa", 25);
			$crate::set_param("MaxSchemaGrantsPerDelegation", 30);
			$crate::set_param("MaxProviderNameSize", 16);
			$crate::set_param("MsaMortality", 100);
			$crate::set_param("MaxSignaturesStored", 50000);
		}
	};
}
#[macro_export]
macro_rules! handles_config {
	($rt:ty, msa = $m:ty) => {
		$crate::param!(HandleSuffixMin: u16, HandleSuffixMax: u16, HandleMortality: u32);
		impl pallet_handles::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type WeightInfo = ();
			type ConvertIntoAccountId32 = $crate::sp_runtime::traits::ConvertInto;
			type MsaInfoProvider = $m;
			type HandleSuffixMin = HandleSuffixMin;
			type HandleSuffixMax = HandleSuffixMax;
			type MortalityWindowSize = HandleMortality;
		}
		pub fn handles_defaults() {
			$crate::set_param("HandleSuffixMin", 10);
			$crate::set_param("HandleSuffixMax", 99);
			$crate::set_param("HandleMortality", 100);
		}
	};
}

#[macro_export]
macro_rules! balances_config {
	($rt:ty) => {
		$crate::param!(ExistentialDeposit: u128);
		impl pallet_balances::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type Balance = u128;
			type ExistentialDeposit = ExistentialDeposit;
			type FreezeIdentifier = RuntimeFreezeReason;
			type MaxFreezes = $crate::frame_support::traits::ConstU32<10>;
			type MaxLocks = $crate::frame_support::traits::ConstU32<10>;
			type AccountStore = System;
			type DustRemoval = ();
			type WeightInfo = ();
			type MaxReserves = ();
			type ReserveIdentifier = ();
			type MaxHolds = ();
			type RuntimeHoldReason = ();
			type RuntimeFreezeReason = ();
		}
	};
}
#[macro_export]
macro_rules! capacity_config {
	($rt:ty, validator = $v:ty) => {
		$crate::param!(MinimumStakingAmount: u128, MinimumTokenBalance: u128, MaxUnlockingChunks: u32, UnstakingThawPeriod: u16, MaxEpochLength: u32);
		pub struct CapacityPerToken;
		impl $crate::frame_support::traits::Get<$crate::sp_runtime::Perbill> for CapacityPerToken {
			fn get() -> $crate::sp_runtime::Perbill {
				$crate::sp_runtime::Perbill::from_parts($crate::param("CapacityPerToken") as u32)
			}
		}
		impl pallet_capacity::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type RuntimeFreezeReason = RuntimeFreezeReason;
			type WeightInfo = ();
			type Currency = pallet_balances::Pallet<$rt>;
			type TargetValidator = $v;
			type MinimumStakingAmount = MinimumStakingAmount;
			type MinimumTokenBalance = MinimumTokenBalance;
			type MaxUnlockingChunks = MaxUnlockingChunks;
			type UnstakingThawPeriod = UnstakingThawPeriod;
			type MaxEpochLength = MaxEpochLength;
			type EpochNumber = u32;
			type CapacityPerToken = CapacityPerToken;
		}
		pub fn capacity_defaults() {
			$crate::set_param("MinimumStakingAmount", 10);
			$crate::set_param("MinimumTokenBalance", 10);
			$crate::set_param("MaxUnlockingChunks", 4);
			$crate::set_param("UnstakingThawPeriod", 2);
			$crate::set_param("MaxEpochLength", 100);
			$crate::set_param("CapacityPerToken", 20_000_000);
			$crate::set_param("ExistentialDeposit", 1);
		}
	};
}
/// `proposals!` (or a macro that includes it) must be in scope
#[macro_export]
macro_rules! schemas_config {
	($rt:ty) => {
		$crate::param!(MinSchemaModelSizeBytes: u32, MaxSchemaRegistrations: u16, MaxSchemaSettings: u32);
		impl pallet_schemas::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type WeightInfo = ();
			type MinSchemaModelSizeBytes = MinSchemaModelSizeBytes;
			type SchemaModelMaxBytesBoundedVecLimit = $crate::Limit;
			type MaxSchemaRegistrations = MaxSchemaRegistrations;
			type CreateSchemaViaGovernanceOrigin = frame_system::EnsureRoot<$crate::sp_core::crypto::AccountId32>;
			type Proposal = RuntimeCall;
			type ProposalProvider = Proposals;
			type MaxSchemaSettingsPerSchema = MaxSchemaSettings;
		}
		pub fn schemas_defaults() {
			$crate::set_param("MinSchemaModelSizeBytes", 8);
			$crate::set_param("MaxSchemaRegistrations", 65000);
			$crate::set_param("MaxSchemaSettings", 2);
			$crate::set_param("SchemaModelLimit", 65500);
		}
	};
}
/// Hard limit of a schema model, as a parameter
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct Limit;
impl frame_support::traits::Get<u32> for Limit {
	fn get() -> u32 {
		param("SchemaModelLimit") as u32
	}
}
/// Stand-ins for what a driver does not exercise.
pub struct AnySchema;
impl common_primitives::schema::SchemaValidator<common_primitives::schema::SchemaId> for AnySchema {
	fn are_all_schema_ids_valid(_: &Vec<common_primitives::schema::SchemaId>) -> bool {
		true
	}
	fn set_schema_count(_: common_primitives::schema::SchemaId) {}
}
/// Number of entries stored under a map of a pallet.
pub fn entries(pallet: &str, item: &str) -> usize {
	let mut p = mini::hashing::twox_128(pallet.as_bytes()).to_vec();
	p.extend_from_slice(&mini::hashing::twox_128(item.as_bytes()));
	mini::ext::keys_with_prefix(&p).len()
}
#[macro_export]
macro_rules! stateful_config {
	($rt:ty, msa = $m:ty, schemas = $s:ty) => {
		#[derive(Default)]
		pub struct MaxItemizedPageSizeBytes;
		#[derive(Default)]
		pub struct MaxPaginatedPageSizeBytes;
		impl $crate::frame_support::traits::Get<u32> for MaxItemizedPageSizeBytes {
			fn get() -> u32 { $crate::param("MaxItemizedPageSizeBytes") as u32 }
		}
		impl $crate::frame_support::traits::Get<u32> for MaxPaginatedPageSizeBytes {
			fn get() -> u32 { $crate::param("MaxPaginatedPageSizeBytes") as u32 }
		}
		$crate::param!(MaxItemizedBlobSizeBytes: u32, MaxPaginatedPageId: u16, MaxItemizedActionsCount: u32, StatefulMortality: u32);
		impl pallet_stateful_storage::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type WeightInfo = ();
			type MaxItemizedPageSizeBytes = MaxItemizedPageSizeBytes;
			type MaxPaginatedPageSizeBytes = MaxPaginatedPageSizeBytes;
			type MaxItemizedBlobSizeBytes = MaxItemizedBlobSizeBytes;
			type MaxPaginatedPageId = MaxPaginatedPageId;
			type MaxItemizedActionsCount = MaxItemizedActionsCount;
			type MsaInfoProvider = $m;
			type SchemaGrantValidator = $m;
			type SchemaProvider = $s;
			type KeyHasher = $crate::frame_support::Twox128;
			type ConvertIntoAccountId32 = $crate::sp_runtime::traits::ConvertInto;
			type MortalityWindowSize = StatefulMortality;
		}
	};
}
