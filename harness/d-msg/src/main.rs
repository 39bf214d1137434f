//! Conformance driver for spec/Messages.tla and spec/CidEval.tla: pallet-messages and its RPC with the real msa and schemas pallets.
use cfgs::*;
use common_primitives::messages::*;
use common_primitives::msa::*;
use common_primitives::schema::*;
use drv::*;
use frame_support::traits::{Hooks, UnfilteredDispatchable};
use pallet_messages_rpc::{MessagesApiServer, MessagesHandler};
use pallet_messages_runtime_api::MessagesRuntimeApi;
use sp_api::{ApiError, ApiRef, ProvideRuntimeApi};
use sp_blockchain::{HeaderBackend, Info};
use std::collections::BTreeMap;
use std::sync::Arc;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Msa: pallet_msa,
		Handles: pallet_handles,
		Schemas: pallet_schemas,
		Messages: pallet_messages,
	}
);
system_config!(Rt);
msa_config!(Rt, schemas = Schemas, handles = Handles);
handles_config!(Rt, msa = Msa);
schemas_config!(Rt);
#[derive(Clone, Debug, parity_scale_codec::Encode, parity_scale_codec::MaxEncodedLen)]
pub struct MaxPayload;
impl frame_support::traits::Get<u32> for MaxPayload {
	fn get() -> u32 {
		param("MaxPayload") as u32
	}
}
impl pallet_messages::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Msa;
	type SchemaGrantValidator = Msa;
	type SchemaProvider = Schemas;
	type MessagesMaxPayloadSizeBytes = MaxPayload;
}
type Call = pallet_messages::Call<Rt>;
type Block = sp_runtime::generic::Block<sp_runtime::generic::Header<u32, sp_runtime::traits::BlakeTwo256>, ()>;
type Hash = <Block as sp_runtime::traits::Block>::Hash;

/// The node's side: the runtime API as the runtime implements it.
struct Client;
struct Api;
impl ProvideRuntimeApi<Block> for Client {
	type Api = Api;
	fn runtime_api(&self) -> ApiRef<Api> {
		Api.into()
	}
}
impl HeaderBackend<Block> for Client {
	fn info(&self) -> Info<Block> {
		Info { best_hash: Default::default(), best_number: System::block_number(), finalized_hash: Default::default(), finalized_number: System::block_number() }
	}
}
impl MessagesRuntimeApi<Block> for Api {
	fn get_messages_by_schema_and_block(&self, _: Hash, s: SchemaId, l: PayloadLocation, b: u32) -> Result<Vec<MessageResponse>, ApiError> {
		Ok(Messages::get_messages_by_schema_and_block(s, l, b))
	}
	fn get_schema_by_id(&self, _: Hash, s: SchemaId) -> Result<Option<SchemaResponse>, ApiError> {
		Ok(Schemas::get_schema_by_id(s))
	}
}

#[derive(Default)]
struct D {
	cfg: Value,
	cids: BTreeMap<String, Vec<u8>>,
}
fn codes(v: &Value) -> Vec<u8> {
	v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn blob(v: &Value) -> Vec<u8> {
	vec![v[0].as_str().unwrap().bytes().next().unwrap_or(0); v[1].as_u64().unwrap() as usize]
}
fn name(b: &[u8]) -> Value {
	let c = match b.first() {
		None => "".to_string(),
		Some(c) if b.iter().all(|x| x == c) => (*c as char).to_string(),
		_ => "?".to_string(),
	};
	json!([c, b.len()])
}
fn location(s: &str) -> PayloadLocation {
	match s {
		"chain" => PayloadLocation::OnChain,
		"ipfs" => PayloadLocation::IPFS,
		"items" => PayloadLocation::Itemized,
		_ => PayloadLocation::Paginated,
	}
}
fn atomically(f: impl FnOnce() -> Result<(), sp_runtime::DispatchError>) -> Value {
	if frame_support::storage::with_storage_layer(f).is_ok() { json!({"r": "ok"}) } else { err() }
}
impl D {
	fn keys(&self) -> Vec<String> {
		self.cfg["keys"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
	}
	fn names(&self) -> Vec<String> {
		self.cfg["msas"].as_object().unwrap().keys().cloned().collect()
	}
	fn msa(&self, n: &str) -> u64 {
		self.cfg["msas"].get(n).map_or(999, |v| v.as_str().unwrap().parse().unwrap())
	}
	fn msa_name(&self, id: u64) -> String {
		self.names().into_iter().find(|n| self.msa(n) == id).unwrap_or("?".into())
	}
	fn key_msa(&self, k: &str) -> String {
		Msa::get_owner_of(&acc(k)).map_or("-".into(), |i| self.msa_name(i))
	}
	fn go(&self, c: Call, by: &str) -> Value {
		mini::ext::clear_events();
		if RuntimeCall::from(c).dispatch_bypass_filter(RuntimeOrigin::signed(acc(by))).is_err() {
			return err();
		}
		let ev: Vec<&str> = System::events()
			.into_iter()
			.filter_map(|e| match e.event {
				RuntimeEvent::Messages(pallet_messages::Event::MessagesInBlock) => Some("messages"),
				RuntimeEvent::Messages(_) => Some("other"),
				_ => None,
			})
			.collect();
		json!({"r": "ok", "ev": ev})
	}
	fn shown(&self, s: u16, m: &MessageResponse) -> Value {
		let (of, c) = match (&m.payload, &m.cid) {
			(Some(p), None) => (m.msa_id.map_or("nobody".into(), |i| self.msa_name(i)), if m.payload_length.is_some() { json!("?") } else { name(p) }),
			(None, Some(c)) => (m.msa_id.map_or("".into(), |i| self.msa_name(i)), json!([String::from_utf8_lossy(c), m.payload_length])),
			_ => ("?".into(), json!("?")),
		};
		json!({"b": m.block_number, "s": s, "i": m.index, "by": self.msa_name(m.provider_msa_id), "of": of, "c": c})
	}
	fn page(s: u16, p: BlockPaginationRequest) -> Option<BlockPaginationResponse<MessageResponse>> {
		MessagesHandler::<Client, Block>::new(Arc::new(Client)).get_messages_by_schema_id(s, p).ok()
	}
}
fn request(a: &Value, from_block: u32, from_index: u32) -> BlockPaginationRequest {
	BlockPaginationRequest { from_block, from_index, to_block: int(a, "to") as u32, page_size: int(a, "size") as u32 }
}
impl Sut for D {
	type Extra = ();
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.cids = cfg["cids"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), codes(v))).collect();
		mini::ext::reset();
		defaults();
		set_param("MaxPayload", int(cfg, "maxpayload") as u64);
		for sc in cfg["schemas"].as_array().unwrap() {
			schema(int(sc, "id") as u16, location(st(sc, "loc")));
		}
		for a in cfg["pre"].as_array().unwrap() {
			self.apply(a);
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		let dp = |d: &D| (DelegatorId(d.msa(st(a, "d"))), ProviderId(d.msa(st(a, "p"))));
		match st(a, "k") {
			"key" => {
				let m = self.msa(st(a, "m"));
				atomically(|| Msa::add_key(m, &acc(st(a, "key")), |_| Ok(())))
			},
			"unkey" => match Msa::get_owner_of(&acc(st(a, "key"))) {
				Some(m) => atomically(|| Msa::delete_key_for_msa(m, &acc(st(a, "key")))),
				None => err(),
			},
			"allow" => {
				let (d, p) = dp(self);
				let l = a["schemas"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
				atomically(|| Msa::upsert_schema_permissions(p, d, l))
			},
			"deny" => {
				let (d, p) = dp(self);
				atomically(|| Msa::revoke_permissions_for_schemas(d, p, vec![int(a, "s") as u16]))
			},
			"cut" => {
				let (d, p) = dp(self);
				atomically(|| Msa::revoke_provider(p, d))
			},
			"block" => {
				for _ in 0..int(a, "n") {
					let b = System::block_number();
					AllPalletsWithSystem::on_finalize(b);
					System::set_block_number(b + 1);
					AllPalletsWithSystem::on_initialize(b + 1);
				}
				ok()
			},
			"full" => {
				// as many messages of another schema (or a shortcut to that index)
				let k = [sp_core::hashing::twox_128(b"Messages"), sp_core::hashing::twox_128(b"BlockMessageIndex")].concat();
				frame_support::storage::unhashed::put(&k, &(int(a, "n") as u16));
				assert_eq!(Messages::get_message_index() as i64, int(a, "n"));
				ok()
			},
			"onchain" => {
				let of = st(a, "of");
				let on_behalf_of = if of.is_empty() { None } else { Some(self.msa(of)) };
				self.go(Call::add_onchain_message { on_behalf_of, schema_id: int(a, "s") as u16, payload: blob(&a["c"]) }, st(a, "by"))
			},
			"ipfs" => self.go(Call::add_ipfs_message { schema_id: int(a, "s") as u16, cid: self.cids[st(a, "cid")].clone(), payload_length: int(a, "len") as u32 }, st(a, "by")),
			"page" => {
				let s = int(a, "s") as u16;
				match Self::page(s, request(a, int(a, "from") as u32, int(a, "at") as u32)) {
					None => err(),
					Some(r) => {
						let next = match (r.has_next, r.next_block, r.next_index) {
							(false, None, None) => json!([]),
							(true, Some(b), Some(i)) => json!([b, i]),
							_ => json!("?"),
						};
						json!({"r": "ok", "got": r.content.iter().map(|m| self.shown(s, m)).collect::<Vec<_>>(), "next": next})
					},
				}
			},
			"walk" => {
				let s = int(a, "s") as u16;
				let (mut b, mut i, mut got) = (int(a, "from") as u32, 0, vec![]);
				for _ in 0..10000 {
					let Some(r) = Self::page(s, request(a, b, i)) else { return err() };
					if r.content.len() as i64 > int(a, "size") {
						return json!({"r": "ok", "got": "too many at once"});
					}
					got.extend(r.content.iter().map(|m| self.shown(s, m)));
					if !r.has_next {
						return json!({"r": "ok", "got": got});
					}
					(b, i) = (r.next_block.unwrap_or(0), r.next_index.unwrap_or(0));
				}
				json!({"r": "ok", "got": "no end"})
			},
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let key: Map<String, Value> = self.keys().into_iter().map(|k| { let m = self.key_msa(&k); (k, json!(m)) }).collect();
		let mut del = vec![];
		for (d, p, i) in pallet_msa::DelegatorAndProviderToDelegation::<Rt>::iter() {
			let sch: Vec<Value> = i.schema_permissions.iter().map(|(s, b)| json!([s, b])).collect();
			del.push(json!({"d": self.msa_name(d.0), "p": self.msa_name(p.0), "rev": i.revoked_at, "sch_set": sch}));
		}
		let (mut set, mut odd) = (vec![], false);
		let now = System::block_number();
		for sc in self.cfg["schemas"].as_array().unwrap() {
			let s = int(sc, "id") as u16;
			let l = location(st(sc, "loc"));
			for b in 0..=now + 1 {
				let q = Messages::get_messages_by_schema_and_block(s, l, b);
				odd |= q.windows(2).any(|w| w[0].index >= w[1].index) || q.iter().any(|m| m.block_number != b);
				set.extend(q.iter().map(|m| self.shown(s, m)));
			}
		}
		let mut out = json!({"block": now, "idx": Messages::get_message_index(), "key": key, "del_set": del, "msg_set": set});
		if odd {
			out["reads"] = json!("out of order");
		}
		out
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let (names, keys) = (self.names(), self.keys());
		let schemas: Vec<(i64, String)> = self.cfg["schemas"].as_array().unwrap().iter().map(|s| (int(s, "id"), st(s, "loc").to_string())).collect();
		let now = System::block_number() as i64;
		let (d, p) = (rng.pick(&names).clone(), rng.pick(&names).clone());
		let with = |l: &str| -> Vec<i64> { schemas.iter().filter(|s| s.1 == l).map(|s| s.0).collect() };
		let any = if rng.chance(92) { rng.pick(&schemas).0 } else { *rng.pick(&[0, 3000, 65535]) };
		let by = rng.pick(&keys).clone();
		// now and then a block that already has many messages
		if rng.chance(1) {
			let at = Messages::get_message_index() as i64;
			let n = *rng.pick(&[254, 255, 256, 511, 4095, 32767, 65534]);
			if n > at {
				return json!({"k": "full", "n": n});
			}
		}
		match rng.weighted(&[4, 2, 8, 4, 2, 10, 30, 16, 10, 10]) {
			0 => json!({"k": "key", "key": by, "m": d}),
			1 => json!({"k": "unkey", "key": by}),
			2 => {
				let n = rng.range(0, 3);
				let l: Vec<i64> = (0..n).map(|_| rng.pick(&schemas).0).collect();
				let mut l2: Vec<i64> = vec![];
				for x in l {
					if !l2.contains(&x) {
						l2.push(x);
					}
				}
				json!({"k": "allow", "d": d, "p": p, "schemas": l2})
			},
			3 => json!({"k": "deny", "d": d, "p": p, "s": any}),
			4 => json!({"k": "cut", "d": d, "p": p}),
			5 => json!({"k": "block", "n": *rng.pick(&[1, 1, 1, 1, 2, 3])}),
			6 => {
				let s = if rng.chance(90) { *rng.pick(&with("chain")) } else { any };
				let max = int(&self.cfg, "maxpayload");
				let n = if rng.chance(85) { rng.range(0, 5) } else { *rng.pick(&[max - 1, max, max + 1]) };
				let c = *rng.pick(&["a", "b", "c", "d"]);
				// someone's delegate, when there is one
				let dels: Vec<(u64, u64)> = pallet_msa::DelegatorAndProviderToDelegation::<Rt>::iter().map(|(d, p, _)| (d.0, p.0)).collect();
				let (mut by, mut of) = (by, if rng.chance(50) { "".to_string() } else { d });
				if !dels.is_empty() && rng.chance(40) {
					let (d, p) = *rng.pick(&dels);
					of = self.msa_name(d);
					let k: Vec<String> = keys.iter().filter(|k| Msa::get_owner_of(&acc(k)) == Some(p)).cloned().collect();
					if !k.is_empty() {
						by = rng.pick(&k).clone();
					}
				}
				json!({"k": "onchain", "by": by, "of": of, "s": s, "c": if n == 0 { json!(["", 0]) } else { json!([c, n]) }})
			},
			7 => {
				let s = if rng.chance(90) { *rng.pick(&with("ipfs")) } else { any };
				let cids: Vec<String> = self.cids.keys().cloned().collect();
				let good: Vec<String> = cids.iter().filter(|c| c.starts_with("ok")).cloned().collect();
				let c = if rng.chance(75) { rng.pick(&good).clone() } else { rng.pick(&cids).clone() };
				json!({"k": "ipfs", "by": by, "s": s, "cid": c, "len": *rng.pick(&[0, 1, 255, 256, 65536, 2147483647])})
			},
			c => {
				let from = rng.range(0, now + 1);
				let to = *rng.pick(&[from, from + 1, from + 2, now, now + 1, now + 2, from + 50000, from + 50001]);
				let size = *rng.pick(&[0, 1, 1, 2, 2, 3, 4, 7, 10000, 10001]);
				let l = if rng.chance(60) { "chain" } else { "ipfs" };
				let s = if rng.chance(80) { *rng.pick(&with(l)) } else { any };
				if c == 8 {
					json!({"k": "page", "s": s, "from": from, "at": *rng.pick(&[0, 0, 0, 1, 2, 9]), "to": to, "size": size})
				} else {
					json!({"k": "walk", "s": s, "from": from, "to": to, "size": size})
				}
			},
		}
	}
	fn save(&self) {}
	fn load(&mut self, _: &()) {}
}
fn defaults() {
	msa_defaults();
	handles_defaults();
	schemas_defaults();
	set_param("MinSchemaModelSizeBytes", 2);
	System::set_block_number(1);
	RuntimeCall::from(pallet_schemas::Call::<Rt>::set_max_schema_model_bytes { max_size: 65000 }).dispatch_bypass_filter(RuntimeOrigin::root()).expect("size");
}
fn schema(id: u16, payload_location: PayloadLocation) {
	Schemas::set_schema_count(id - 1);
	let model_type = if payload_location == PayloadLocation::IPFS { ModelType::Parquet } else { ModelType::AvroBinary };
	let model = if model_type == ModelType::Parquet { b"[]".to_vec() } else { b"{}".to_vec() };
	let c = pallet_schemas::Call::<Rt>::create_schema_v3 { model: model.try_into().unwrap(), model_type, payload_location, settings: Default::default(), schema_name: None };
	RuntimeCall::from(c).dispatch_bypass_filter(RuntimeOrigin::signed(acc("x"))).expect("schema");
}
fn eval() {
	mini::ext::reset();
	defaults();
	set_param("MaxPayload", 3072);
	schema(1, PayloadLocation::IPFS);
	Msa::add_key(5, &acc("k1"), |_| Ok(())).expect("key");
	let base = mini::ext::snapshot();
	eval_lines(move |v| {
		mini::ext::restore(&base);
		let ok = RuntimeCall::from(Call::add_ipfs_message { schema_id: 1, cid: codes(&v["d"]), payload_length: 77 }).dispatch_bypass_filter(RuntimeOrigin::signed(acc("k1"))).is_ok();
		let q = Messages::get_messages_by_schema_and_block(1, PayloadLocation::IPFS, 1);
		let mut out = json!({"ok": ok});
		if ok {
			out["text"] = match q.as_slice() {
				[m] if m.payload_length == Some(77) => json!(m.cid),
				_ => json!([]),
			};
		} else if !q.is_empty() {
			out["ok"] = json!("stored");
		}
		out
	});
}
fn main() {
	if std::env::args().nth(1).as_deref() == Some("eval") {
		return eval();
	}
	drv::main(D::default());
}
