//! Conformance driver for spec/MigrateEval.tla: the storage migrations, each run on a state in the old format.
use cfgs::*;
use common_primitives::schema::*;
use drv::*;
use frame_support::traits::tokens::fungible::{InspectFreeze, MutateFreeze};
use frame_support::traits::{GetStorageVersion, LockableCurrency, OnRuntimeUpgrade, StorageVersion, UnfilteredDispatchable, WithdrawReasons};
use frame_support::{storage_alias, BoundedVec, Twox64Concat};
use frame_support::pallet_prelude::*;
use pallet_messages::migration::v2::old::OldMessage;
use pallet_time_release::{ReleaseSchedule, ReleaseSchedules};
use sp_runtime::traits::BlockNumberProvider;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Msa: pallet_msa,
		Handles: pallet_handles,
		Schemas: pallet_schemas,
		Messages: pallet_messages,
		Capacity: pallet_capacity,
		TimeRelease: pallet_time_release,
	}
);
system_config!(Rt, data = pallet_balances::AccountData<u128>, filter = frame_support::traits::Everything);
balances_config!(Rt);
msa_config!(Rt, schemas = Schemas, handles = Handles);
handles_config!(Rt, msa = Msa);
schemas_config!(Rt);
capacity_config!(Rt, validator = Msa);
#[derive(Clone, Debug, Default, PartialEq, Eq, parity_scale_codec::Encode, parity_scale_codec::MaxEncodedLen)]
pub struct MaxPayload;
impl frame_support::traits::Get<u32> for MaxPayload {
	fn get() -> u32 {
		64
	}
}
impl pallet_messages::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Msa;
	type SchemaGrantValidator = Msa;
	type SchemaProvider = Schemas;
	type MessagesMaxPayloadSizeBytes = MaxPayload;
}
param!(MinReleaseTransfer: u128, MaxReleaseSchedules: u32);
pub struct Clock;
impl BlockNumberProvider for Clock {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		param("clock") as u32
	}
}
impl pallet_time_release::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type Balance = u128;
	type Currency = Balances;
	type MinReleaseTransfer = MinReleaseTransfer;
	type TransferOrigin = frame_system::EnsureSigned<sp_core::crypto::AccountId32>;
	type WeightInfo = ();
	type MaxReleaseSchedules = MaxReleaseSchedules;
	type BlockNumberProvider = Clock;
	type RuntimeFreezeReason = RuntimeFreezeReason;
}
mod old {
	use super::*;
	#[storage_alias]
	pub type Messages<T: pallet_messages::Config> = StorageDoubleMap<
		pallet_messages::Pallet<T>,
		Twox64Concat,
		u32,
		Twox64Concat,
		SchemaId,
		BoundedVec<OldMessage<MaxPayload>, ConstU32<200>>,
		ValueQuery,
	>;
}
const STAKING: RuntimeFreezeReason = RuntimeFreezeReason::Capacity(pallet_capacity::FreezeReason::CapacityStaking);
const VESTING: RuntimeFreezeReason = RuntimeFreezeReason::TimeRelease(pallet_time_release::FreezeReason::TimeReleaseVesting);
type Old = pallet_balances::Pallet<Rt>;
fn n(v: &Value) -> u64 {
	v.as_u64().unwrap_or_else(|| panic!("driver: number {v}"))
}
fn arr(v: &Value) -> &Vec<Value> {
	v.as_array().unwrap_or_else(|| panic!("driver: list {v}"))
}
fn name(b: &[u8; 8]) -> String {
	String::from_utf8_lossy(b).into_owned()
}
/// the accounts as anyone sees them
fn accounts(r: &Value) -> Value {
	let mut m = Map::new();
	for w in r["accs"].as_object().unwrap().keys() {
		let a = acc(w);
		let mut locks: Vec<Value> = Balances::locks(&a).iter().map(|l| json!([name(&l.id), l.amount as u64])).collect();
		locks.sort_by_key(|x| x.to_string());
		m.insert(
			w.clone(),
			json!({
				"free": Balances::free_balance(&a) as u64, "locks": locks,
				"stk": Balances::balance_frozen(&STAKING, &a) as u64, "vst": Balances::balance_frozen(&VESTING, &a) as u64,
				"sch": ReleaseSchedules::<Rt>::get(&a).iter().map(|s| json!([s.start, s.period, s.period_count, s.per_period as u64])).collect::<Vec<_>>(),
			}),
		);
	}
	Value::Object(m)
}
fn set_accounts(r: &Value) {
	for (w, x) in r["accs"].as_object().unwrap() {
		let a = acc(w);
		pallet_balances::Call::<Rt>::force_set_balance { who: a.clone(), new_free: n(&x["free"]) as u128 }
			.dispatch_bypass_filter(RuntimeOrigin::root())
			.expect("balance");
		if !arr(&x["sch"]).is_empty() {
			let s: Vec<_> = arr(&x["sch"])
				.iter()
				.map(|s| ReleaseSchedule { start: n(&s[0]) as u32, period: n(&s[1]) as u32, period_count: n(&s[2]) as u32, per_period: n(&s[3]) as u128 })
				.collect();
			ReleaseSchedules::<Rt>::insert(&a, BoundedVec::try_from(s).expect("schedules"));
		}
		for l in arr(&x["locks"]) {
			let id: [u8; 8] = l[0].as_str().unwrap().as_bytes().try_into().expect("eight bytes");
			Old::set_lock(id, &a, n(&l[1]) as u128, WithdrawReasons::all());
		}
		for (why, f) in [(STAKING, "stk"), (VESTING, "vst")] {
			if n(&x[f]) > 0 {
				Balances::set_freeze(&why, &a, n(&x[f]) as u128).expect("freeze");
			}
		}
	}
}
fn messages(r: &Value) -> Value {
	let mut out = vec![];
	for g in arr(&r["groups"]) {
		let (b, s) = (n(&g["b"]) as u32, n(&g["s"]) as u16);
		let l: Vec<Value> = Messages::get_messages_by_schema_and_block(s, PayloadLocation::OnChain, b)
			.iter()
			.map(|m| json!([m.index, m.provider_msa_id, m.msa_id.map_or(json!([]), |x| json!([x])), m.payload.clone().unwrap_or_default(), m.block_number]))
			.collect();
		out.push(json!(l));
	}
	json!({"answers": out, "old": entries("Messages", "Messages"), "new": entries("Messages", "MessagesV2")})
}
fn set_messages(r: &Value) {
	for g in arr(&r["groups"]) {
		let l: Vec<_> = arr(&g["m"])
			.iter()
			.map(|m| OldMessage::<MaxPayload> {
				index: n(&m[0]) as u16,
				provider_msa_id: n(&m[1]),
				msa_id: arr(&m[2]).first().map(n),
				payload: BoundedVec::try_from(arr(&m[3]).iter().map(|x| n(x) as u8).collect::<Vec<u8>>()).expect("payload"),
			})
			.collect();
		if !l.is_empty() {
			old::Messages::<Rt>::insert(n(&g["b"]) as u32, n(&g["s"]) as u16, BoundedVec::try_from(l).expect("messages"));
		}
	}
}
fn schemas(r: &Value) -> Value {
	let max = Schemas::get_current_schema_identifier_maximum();
	let info: Vec<Value> = (1..=max)
		.map(|i| {
			let (x, p) = (Schemas::get_schema_info(i).expect("schema"), Schemas::get_schema_payload(i).expect("payload"));
			json!([x.has_name, format!("{:?}/{:?}/{:?}", x.model_type, x.payload_location, x.settings), String::from_utf8_lossy(&p)])
		})
		.collect();
	let names: Map<String, Value> = arr(&r["names"])
		.iter()
		.map(|x| {
			let l = Schemas::get_schema_versions(x.as_str().unwrap().as_bytes().to_vec()).expect("name");
			(x.as_str().unwrap().to_string(), json!(l.iter().map(|v| v.schema_id).collect::<Vec<_>>()))
		})
		.collect();
	json!({"info": info, "names": names})
}
fn set_schemas(r: &Value) {
	pallet_schemas::Call::<Rt>::set_max_schema_model_bytes { max_size: 1000 }.dispatch_bypass_filter(RuntimeOrigin::root()).expect("size");
	for (i, x) in arr(&r["schemas"]).iter().enumerate() {
		let nm = x.as_str().unwrap();
		let c = pallet_schemas::Call::<Rt>::create_schema_via_governance_v2 {
			creator_key: acc("k"),
			model: BoundedVec::try_from(format!("{{\"type\":\"string\",\"doc\":\"{i}\"}}").into_bytes()).expect("model"),
			model_type: ModelType::AvroBinary,
			payload_location: [PayloadLocation::OnChain, PayloadLocation::Paginated, PayloadLocation::Itemized][i % 3].clone(),
			settings: Default::default(),
			schema_name: if nm.is_empty() { None } else { Some(BoundedVec::try_from(nm.as_bytes().to_vec()).expect("name")) },
		};
		c.dispatch_bypass_filter(RuntimeOrigin::root()).expect("schema");
	}
}
fn genesis(net: &str) -> <Rt as frame_system::Config>::Hash {
	let h: [u8; 32] = match net {
		"mainnet" => common_primitives::utils::MAINNET_GENESIS_HASH.try_into().unwrap(),
		"paseo" => common_primitives::utils::TESTNET_ON_PASEO_GENESIS_HASH.try_into().unwrap(),
		_ => [9; 32],
	};
	h.into()
}
fn main() {
	eval_lines(|r| {
		mini::ext::reset();
		capacity_defaults();
		schemas_defaults();
		set_param("MaxReleaseSchedules", 50);
		set_param("MinReleaseTransfer", 1);
		set_param("ExistentialDeposit", 1);
		System::set_block_number(10);
		let ver = StorageVersion::new(n(&r["ver"]) as u16);
		let (set, look, run, version): (fn(&Value), fn(&Value) -> Value, fn() -> frame_support::weights::Weight, fn() -> StorageVersion) = match st(r, "op") {
			"rel" => {
				ver.put::<TimeRelease>();
				set_param("clock", n(&r["clock"]));
				(set_accounts, accounts, pallet_time_release::migration::v2::MigrationToV2::<Rt, Old>::on_runtime_upgrade, TimeRelease::on_chain_storage_version)
			},
			"msg" => {
				ver.put::<Messages>();
				(set_messages, messages, pallet_messages::migration::v2::MigrateToV2::<Rt>::on_runtime_upgrade, Messages::on_chain_storage_version)
			},
			"sch" => {
				ver.put::<Schemas>();
				frame_system::BlockHash::<Rt>::insert(0, genesis(st(r, "net")));
				(set_schemas, schemas, pallet_schemas::migration::v4::MigrateToV4::<Rt>::on_runtime_upgrade, Schemas::on_chain_storage_version)
			},
			k => panic!("driver: op {k}"),
		};
		set(r);
		let show = |f: fn(&Value) -> Value, v: fn() -> StorageVersion| {
			let v = v();
			json!({"is": f(r), "ver": (0..100).find(|i| v == *i as u16).unwrap()})
		};
		let before = show(look, version);
		run();
		let once = show(look, version);
		run();
		let twice = show(look, version);
		json!({"before": before, "once": once, "twice": twice})
	});
}
