//! Conformance driver for spec/Query.tla: the real runtime (testnet), its runtime interfaces and the node's RPC handlers over it.
use cfgs::{acc, acc_name, sign_wrapped};
use common_primitives::handles::ClaimHandlePayload;
use common_primitives::messages::*;
use common_primitives::msa::*;
use common_primitives::offchain::get_msa_account_storage_key_name;
use common_primitives::schema::*;
use common_primitives::stateful_storage::*;
use d_runtime::testnet as rt;
use drv::*;
use frame_support::storage::with_storage_layer;
use frame_support::traits::{Hooks, UnfilteredDispatchable};
use pallet_handles_rpc::{HandlesApiServer, HandlesHandler};
use pallet_messages_rpc::{MessagesApiServer, MessagesHandler};
use pallet_msa_rpc::{MsaApiServer, MsaHandler};
use pallet_schemas_rpc::{SchemasApiServer, SchemasHandler};
use pallet_stateful_storage_rpc::{StatefulStorageApiServer, StatefulStorageHandler};
use parity_scale_codec::Encode;
use rt::rt::{extensions, MakeFree};
use common_primitives::node::AccountId;
use rt::{Handles, Messages, Msa, Runtime, RuntimeCall, RuntimeOrigin, Schemas, StatefulStorage, System};
use sp_api::{ApiError, ApiRef, ProvideRuntimeApi};
use sp_blockchain::{HeaderBackend, Info};
use sp_runtime::traits::{Dispatchable, SignedExtension};
use sp_runtime::DispatchError;
use frame_support::dispatch::GetDispatchInfo;
use std::collections::BTreeMap;
use std::sync::Arc;

type Block = rt::Block;
type Hash = <Block as sp_runtime::traits::Block>::Hash;
/// The node: the runtime's interfaces and the database of the off-chain worker.
struct Client;
struct Api;
impl ProvideRuntimeApi<Block> for Client {
	type Api = Api;
	fn runtime_api(&self) -> ApiRef<Api> {
		Api.into()
	}
}
impl HeaderBackend<Block> for Client {
	fn info(&self) -> Info<Block> {
		Info { best_hash: Default::default(), best_number: System::block_number(), finalized_hash: Default::default(), finalized_number: System::block_number() }
	}
}
type Api_<T> = Result<T, ApiError>;
impl pallet_handles_runtime_api::HandlesRuntimeApi<Block> for Api {
	fn get_handle_for_msa(&self, _: Hash, m: u64) -> Api_<Option<common_primitives::handles::HandleResponse>> {
		Ok(rt::HandlesRuntimeApi::get_handle_for_msa(m))
	}
	fn get_next_suffixes(&self, _: Hash, b: common_primitives::handles::BaseHandle, n: u16) -> Api_<common_primitives::handles::PresumptiveSuffixesResponse> {
		Ok(rt::HandlesRuntimeApi::get_next_suffixes(b, n))
	}
	fn get_msa_for_handle(&self, _: Hash, d: common_primitives::handles::DisplayHandle) -> Api_<Option<u64>> {
		Ok(rt::HandlesRuntimeApi::get_msa_for_handle(d))
	}
	fn validate_handle(&self, _: Hash, b: common_primitives::handles::BaseHandle) -> Api_<bool> {
		Ok(rt::HandlesRuntimeApi::validate_handle(b))
	}
}
impl pallet_msa_runtime_api::MsaRuntimeApi<Block, AccountId> for Api {
	fn has_delegation(&self, _: Hash, d: DelegatorId, p: ProviderId, b: u32, s: Option<u16>) -> Api_<bool> {
		Ok(rt::MsaRuntimeApi::has_delegation(d, p, b, s))
	}
	fn get_granted_schemas_by_msa_id(&self, _: Hash, d: DelegatorId, p: ProviderId) -> Api_<Option<Vec<SchemaGrant<u16, u32>>>> {
		Ok(rt::MsaRuntimeApi::get_granted_schemas_by_msa_id(d, p))
	}
	fn get_all_granted_delegations_by_msa_id(&self, _: Hash, d: DelegatorId) -> Api_<Vec<DelegationResponse<u16, u32>>> {
		Ok(rt::MsaRuntimeApi::get_all_granted_delegations_by_msa_id(d))
	}
}
impl pallet_schemas_runtime_api::SchemasRuntimeApi<Block> for Api {
	fn get_by_schema_id(&self, _: Hash, s: u16) -> Api_<Option<SchemaResponse>> {
		Ok(rt::SchemasRuntimeApi::get_by_schema_id(s))
	}
	fn get_schema_versions_by_name(&self, _: Hash, n: Vec<u8>) -> Api_<Option<Vec<SchemaVersionResponse>>> {
		Ok(rt::SchemasRuntimeApi::get_schema_versions_by_name(n))
	}
}
impl pallet_stateful_storage_runtime_api::StatefulStorageRuntimeApi<Block> for Api {
	fn get_paginated_storage(&self, _: Hash, m: u64, s: u16) -> Api_<Result<Vec<PaginatedStorageResponse>, DispatchError>> {
		Ok(rt::StatefulStorageRuntimeApi::get_paginated_storage(m, s))
	}
	fn get_itemized_storage(&self, _: Hash, m: u64, s: u16) -> Api_<Result<ItemizedStoragePageResponse, DispatchError>> {
		Ok(rt::StatefulStorageRuntimeApi::get_itemized_storage(m, s))
	}
}
impl pallet_messages_runtime_api::MessagesRuntimeApi<Block> for Api {
	fn get_messages_by_schema_and_block(&self, _: Hash, s: u16, l: PayloadLocation, b: u32) -> Api_<Vec<MessageResponse>> {
		Ok(rt::MessagesRuntimeApi::get_messages_by_schema_and_block(s, l, b))
	}
	fn get_schema_by_id(&self, _: Hash, s: u16) -> Api_<Option<SchemaResponse>> {
		Ok(rt::MessagesRuntimeApi::get_schema_by_id(s))
	}
}
/// The off-chain database as the node opens it
#[derive(Clone, Default)]
struct Db(BTreeMap<Vec<u8>, Vec<u8>>);
fn db_key(prefix: &[u8], key: &[u8]) -> Vec<u8> {
	[prefix, b"/", key].concat()
}
impl sp_core::offchain::OffchainStorage for Db {
	fn set(&mut self, p: &[u8], k: &[u8], v: &[u8]) {
		self.0.insert(db_key(p, k), v.to_vec());
	}
	fn remove(&mut self, p: &[u8], k: &[u8]) {
		self.0.remove(&db_key(p, k));
	}
	fn get(&self, p: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		self.0.get(&db_key(p, k)).cloned()
	}
}

#[derive(Clone, Default)]
struct X {
	db: Db,
	/// message source accounts whose keys the database was given, with the keys or "bad"
	known: BTreeMap<u64, Value>,
	calls: u32,
}
#[derive(Default)]
struct D {
	cfg: Value,
	x: X,
	models: Vec<(String, Vec<u8>)>,
}
fn codes(v: &Value) -> Vec<u8> {
	v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn cps(s: &str) -> Value {
	json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn text(v: &Value) -> String {
	v.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect()
}
fn ids(v: &Value) -> Vec<u16> {
	v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect()
}
fn blob(v: &Value) -> Vec<u8> {
	vec![v[0].as_str().unwrap().bytes().next().unwrap_or(0); v[1].as_u64().unwrap() as usize]
}
fn label(b: &[u8]) -> Value {
	let c = match b.first() {
		None => "".to_string(),
		Some(c) if b.iter().all(|x| x == c) => (*c as char).to_string(),
		_ => "?".to_string(),
	};
	json!([c, b.len()])
}
/// The bytes a hexadecimal text stands for
fn unhex(v: &Value) -> Value {
	let bytes = v.as_str().and_then(|s| s.strip_prefix("0x")).filter(|s| s.len() % 2 == 0 && s.is_ascii()).and_then(|s| (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).ok()).collect::<Option<Vec<u8>>>());
	bytes.map_or(json!(["no hexadecimal text", 0]), |b| label(&b))
}
fn loc_name(l: PayloadLocation) -> &'static str {
	match l {
		PayloadLocation::OnChain => "OnChain",
		PayloadLocation::IPFS => "IPFS",
		PayloadLocation::Itemized => "Itemized",
		PayloadLocation::Paginated => "Paginated",
	}
}
fn location(s: &str) -> PayloadLocation {
	match s {
		"OnChain" => PayloadLocation::OnChain,
		"IPFS" => PayloadLocation::IPFS,
		"Itemized" => PayloadLocation::Itemized,
		_ => PayloadLocation::Paginated,
	}
}
/// What the client reads: the answer as JSON, which must also be read back as the same answer.
fn answer<T, E>(r: Result<T, E>) -> Option<Value>
where
	T: serde::Serialize + serde::de::DeserializeOwned + PartialEq,
{
	let x = r.ok()?;
	let Ok(v) = serde_json::to_value(&x) else { return Some(json!("unreadable")) };
	match serde_json::from_value::<T>(v.clone()) {
		Ok(y) if y == x => Some(v),
		_ => Some(json!("unreadable")),
	}
}
fn each(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
	match v.as_array() {
		Some(a) => Value::Array(a.iter().map(f).collect()),
		None => v.clone(),
	}
}
fn with(v: &Value, k: &str, f: impl Fn(&Value) -> Value) -> Value {
	let mut v = v.clone();
	if let Some(x) = v.get(k).cloned() {
		v[k] = f(&x);
	}
	v
}
fn rename(v: &Value, k: &str, to: &str) -> Value {
	let mut v = v.clone();
	if let Some(x) = v.as_object_mut().and_then(|m| m.remove(k)) {
		v[to] = x;
	}
	v
}
fn hash_text(v: &Value) -> Value {
	with(v, "content_hash", |h| json!(h.to_string()))
}
fn got(v: Option<Value>) -> Value {
	match v {
		None => err(),
		Some(Value::Null) => json!({"r": "none"}),
		Some(Value::String(_)) => json!({"r": "unreadable"}),
		Some(v) => json!({"r": "ok", "got": v}),
	}
}
fn got_set(v: Option<Value>) -> Value {
	rename(&got(v), "got", "got_set")
}
impl D {
	fn keys(&self) -> Vec<String> {
		self.cfg["keys"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
	}
	fn model_name(&self, b: &[u8]) -> String {
		self.models.iter().find(|m| m.1 == b).map_or("?".into(), |m| m.0.clone())
	}
	/// A signed transaction through the runtime's own checks and payment
	fn tx(&mut self, by: &str, c: RuntimeCall) -> Value {
		let who = acc(by);
		let nonce = frame_system::Account::<Runtime>::get(&who).nonce;
		let (info, len) = (c.get_dispatch_info(), 200);
		let ext = extensions(nonce, 0);
		let mut out = err();
		let _: Result<(), DispatchError> = with_storage_layer(|| {
			let pre = ext.pre_dispatch(&who, &c, &info, len).map_err(|_| DispatchError::Other("refused"))?;
			let r = c.dispatch(RuntimeOrigin::signed(who.clone()));
			let post = match &r {
				Ok(p) => p.clone(),
				Err(e) => e.post_info.clone(),
			};
			let res = r.map(|_| ()).map_err(|e| e.error);
			rt::SignedExtra::post_dispatch(Some(pre), &info, &post, len, &res).map_err(|_| DispatchError::Other("post dispatch"))?;
			if res.is_ok() {
				out = ok();
			}
			Ok(())
		});
		out
	}
	fn exp(&mut self) -> u32 {
		self.x.calls += 1;
		System::block_number() + 5 + self.x.calls % 80
	}
	fn root(&self, c: RuntimeCall) -> Value {
		if with_storage_layer(|| c.dispatch_bypass_filter(RuntimeOrigin::root()).map_err(|e| e.error)).is_ok() { ok() } else { err() }
	}
	fn handler(&self) -> (HandlesHandler<Client, Block>, MsaHandler<Client, Block, Db>, SchemasHandler<Client, Block>, StatefulStorageHandler<Client, Block>, MessagesHandler<Client, Block>) {
		let c = Arc::new(Client);
		let db = if self.cfg["offchain"] == false { None } else { Some(self.x.db.clone()) };
		(HandlesHandler::new(c.clone()), MsaHandler::new(c.clone(), db), SchemasHandler::new(c.clone()), StatefulStorageHandler::new(c.clone()), MessagesHandler::new(c))
	}
	fn ask(&mut self, a: &Value) -> Value {
		let (handles, msa, schemas, stateful, messages) = self.handler();
		match st(a, "k") {
			"q_deleg" => {
				let l = a["list"].as_array().unwrap().iter().map(|x| DelegatorId(x.as_u64().unwrap())).collect();
				let s = Some(int(a, "s") as u16).filter(|s| *s != 0 || a["zero"] == true);
				got(answer(msa.check_delegations(l, ProviderId(int(a, "p") as u64), int(a, "b") as u32, s)))
			},
			"q_grants" => got_set(answer(msa.get_granted_schemas_by_msa_id(DelegatorId(int(a, "d") as u64), ProviderId(int(a, "p") as u64)))),
			"q_all" => got_set(answer(msa.get_all_granted_delegations_by_msa_id(DelegatorId(int(a, "d") as u64))).map(|v| each(&v, |e| rename(e, "permissions", "permissions_set")))),
			"q_keys" => match msa.get_keys_by_msa_id(int(a, "m") as u64) {
				Err(_) => err(),
				Ok(None) => json!({"r": "none"}),
				Ok::<Option<KeyInfoResponse<AccountId>>, _>(Some(k)) => json!({"r": "ok", "m": k.msa_id, "keys": k.msa_keys.iter().map(acc_name).collect::<Vec<_>>()}),
			},
			"q_handle" => got(answer(handles.get_handle_for_msa(int(a, "m") as u64)).map(|v| with(&with(&v, "base_handle", |s| cps(s.as_str().unwrap_or("?"))), "canonical_base", |s| cps(s.as_str().unwrap_or("?"))))),
			"q_next" => {
				let n = Some(int(a, "n")).filter(|n| *n >= 0).map(|n| n as u16);
				got(answer(handles.get_next_suffixes(text(&self.cfg["bases"][st(a, "base")]), n)).map(|v| with(&v, "base_handle", |s| cps(s.as_str().unwrap_or("?")))))
			},
			"q_msa" => got(answer(handles.get_msa_for_handle(text(&a["name"])))),
			"q_valid" => got(answer(handles.validate_handle(text(&self.cfg["bases"][st(a, "base")])))),
			"q_schema" => got(answer(schemas.get_by_schema_id(int(a, "s") as u16)).map(|v| {
				let v = with(&v, "model", |m| json!(self.model_name(m.as_str().unwrap_or("?").as_bytes())));
				rename(&v, "settings", "settings_set")
			})),
			"q_vers" => got_set(answer(schemas.get_versions(text(&a["name"]))).map(|v| each(&v, |e| with(e, "schema_name", |s| cps(s.as_str().unwrap_or("?")))))),
			"q_check" => {
				let m = self.models.iter().find(|m| m.0 == st(a, "model")).unwrap().1.clone();
				got(answer(schemas.check_schema_validity(m, None)))
			},
			"q_items" => got(answer(stateful.get_itemized_storage(int(a, "m") as u64, int(a, "s") as u16)).map(|v| hash_text(&with(&v, "items", |l| each(l, |e| with(e, "payload", unhex)))))),
			"q_pages" => got_set(answer(stateful.get_paginated_storage(int(a, "m") as u64, int(a, "s") as u16)).map(|v| each(&v, |e| hash_text(&with(e, "payload", unhex))))),
			"q_msgs" => {
				let p = BlockPaginationRequest { from_block: int(a, "from") as u32, from_index: int(a, "at") as u32, to_block: int(a, "to") as u32, page_size: int(a, "size") as u32 };
				match messages.get_messages_by_schema_id(int(a, "s") as u16, p) {
					Err(_) => err(),
					Ok(r) => {
						let v = answer(Ok::<_, ()>(r.content)).unwrap();
						if v.is_string() {
							return json!({"r": "unreadable"});
						}
						let content = each(&v, |e| with(&with(e, "payload", unhex), "payload_length", |n| json!(n.to_string())));
						json!({"r": "ok", "content": content, "has_next": r.has_next, "next": r.next_block.iter().map(|b| *b).chain(r.next_index.iter().map(|i| *i)).collect::<Vec<u32>>()})
					},
				}
			},
			k => panic!("ask {k}"),
		}
	}
}
impl Sut for D {
	type Extra = X;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.x = X::default();
		self.models = cfg["models"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), codes(v))).collect();
		mini::ext::reset();
		System::set_block_number(1);
		self.root(pallet_schemas::Call::<Runtime>::set_max_schema_model_bytes { max_size: 1000 }.into());
		for k in self.keys() {
			pallet_balances::Pallet::<Runtime>::make_free(&acc(&k), 1_000_000_000_000_000);
		}
		for a in cfg["pre"].as_array().unwrap() {
			self.apply(a);
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		use pallet_msa::types::{AddKeyData, AddProvider};
		use pallet_stateful_storage::types::ItemAction;
		let of = |k: &str| Msa::get_owner_of(&acc(k)).unwrap_or(77);
		let by = a["by"].as_str().unwrap_or("").to_string();
		let by = by.as_str();
		match st(a, "k") {
			k if k.starts_with("q_") => self.ask(a),
			"create" => self.tx(by, pallet_msa::Call::create {}.into()),
			"provider" => self.tx(by, pallet_msa::Call::create_provider { provider_name: b"prov".to_vec() }.into()),
			k @ ("grant" | "sponsor") => {
				let add = AddProvider::new(of(by), Some(ids(&a["list"])), self.exp());
				let (key, proof) = (acc(st(a, "key")), sign_wrapped(st(a, "key"), &add.encode()));
				self.tx(by, if k == "grant" { pallet_msa::Call::grant_delegation { delegator_key: key, proof, add_provider_payload: add }.into() } else { pallet_msa::Call::create_sponsored_account_with_delegation { delegator_key: key, proof, add_provider_payload: add }.into() })
			},
			"revd" => self.tx(by, pallet_msa::Call::revoke_delegation_by_delegator { provider_msa_id: int(a, "m") as u64 }.into()),
			"revp" => self.tx(by, pallet_msa::Call::revoke_delegation_by_provider { delegator: int(a, "m") as u64 }.into()),
			"addkey" => {
				let key = st(a, "key");
				let d = AddKeyData { msa_id: of(by), expiration: self.exp(), new_public_key: acc(key) };
				self.tx(by, pallet_msa::Call::add_public_key_to_msa { msa_owner_public_key: acc(by), msa_owner_proof: sign_wrapped(by, &d.encode()), new_key_owner_proof: sign_wrapped(key, &d.encode()), add_key_payload: d }.into())
			},
			"delkey" => self.tx(by, pallet_msa::Call::delete_msa_public_key { public_key_to_delete: acc(st(a, "key")) }.into()),
			"retire" => self.tx(by, pallet_msa::Call::retire_msa {}.into()),
			"schema" => {
				let settings: Vec<SchemaSetting> = a["settings"].as_array().unwrap().iter().map(|s| if s == "AppendOnly" { SchemaSetting::AppendOnly } else { SchemaSetting::SignatureRequired }).collect();
				let Ok(model) = self.models.iter().find(|m| m.0 == st(a, "model")).unwrap().1.clone().try_into() else { return err() };
				let name = text(&a["name"]).into_bytes();
				let Ok(settings) = settings.try_into() else { return err() };
				let schema_name = if name.is_empty() {
					None
				} else {
					match name.try_into() {
						Ok(n) => Some(n),
						Err(_) => return err(),
					}
				};
				let t = if st(a, "type") == "AvroBinary" { ModelType::AvroBinary } else { ModelType::Parquet };
				self.root(pallet_schemas::Call::<Runtime>::create_schema_via_governance_v2 { creator_key: acc("k1"), model, model_type: t, payload_location: location(st(a, "loc")), settings, schema_name }.into())
			},
			k @ ("claim" | "change") => {
				let p = ClaimHandlePayload::<u32>::new(text(&self.cfg["bases"][st(a, "base")]).into_bytes(), self.exp());
				let (msa_owner_key, proof) = (acc(by), sign_wrapped(by, &p.encode()));
				self.tx(by, if k == "claim" { pallet_handles::Call::claim_handle { msa_owner_key, proof, payload: p }.into() } else { pallet_handles::Call::change_handle { msa_owner_key, proof, payload: p }.into() })
			},
			"hretire" => self.tx(by, pallet_handles::Call::retire_handle {}.into()),
			"items" => {
				let (m, s) = (int(a, "m") as u64, int(a, "s") as u16);
				let h = StatefulStorage::get_itemized_storage(m, s).map_or(0, |p| p.content_hash);
				let actions: Vec<ItemAction<_>> = a["acts"].as_array().unwrap().iter().map(|x| if x[0] == "del" { ItemAction::Delete { index: x[1].as_u64().unwrap() as u16 } } else { ItemAction::Add { data: blob(x).try_into().expect("blob") } }).collect();
				let Ok(actions) = actions.try_into() else { return err() };
				self.tx(by, pallet_stateful_storage::Call::apply_item_actions { state_owner_msa_id: m, schema_id: s, target_hash: h, actions }.into())
			},
			k @ ("page" | "drop") => {
				let (m, s, p) = (int(a, "m") as u64, int(a, "s") as u16, int(a, "p") as u16);
				let h = StatefulStorage::get_paginated_storage(m, s).unwrap_or_default().iter().find(|x| x.page_id == p).map_or(0, |x| x.content_hash);
				self.tx(by, if k == "page" { pallet_stateful_storage::Call::upsert_page { state_owner_msa_id: m, schema_id: s, page_id: p, target_hash: h, payload: blob(&a["c"]).try_into().expect("page") }.into() } else { pallet_stateful_storage::Call::delete_page { state_owner_msa_id: m, schema_id: s, page_id: p, target_hash: h }.into() })
			},
			"msg" => {
				let on_behalf_of = Some(int(a, "of") as u64).filter(|m| *m != 0);
				self.tx(by, pallet_messages::Call::add_onchain_message { on_behalf_of, schema_id: int(a, "s") as u16, payload: blob(&a["c"]) }.into())
			},
			"ipfs" => self.tx(by, pallet_messages::Call::add_ipfs_message { schema_id: int(a, "s") as u16, cid: codes(&self.cfg["cids"][st(a, "cid")]), payload_length: int(a, "len") as u32 }.into()),
			"block" => {
				for _ in 0..int(a, "n") {
					let b = System::block_number();
					Messages::on_finalize(b);
					System::set_block_number(b + 1);
					Messages::on_initialize(b + 1);
				}
				ok()
			},
			"okeys" => {
				use sp_core::offchain::OffchainStorage;
				let m = int(a, "m") as u64;
				let k = get_msa_account_storage_key_name(m);
				if a["list"].is_array() {
					let l: Vec<AccountId> = a["list"].as_array().unwrap().iter().map(|x| acc(x.as_str().unwrap())).collect();
					self.x.db.set(sp_offchain::STORAGE_PREFIX, &k, &l.encode());
				} else {
					self.x.db.set(sp_offchain::STORAGE_PREFIX, &k, &[255, 255, 7]);
				}
				self.x.known.insert(m, a["list"].clone());
				ok()
			},
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let now = System::block_number();
		let max = pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get();
		let key: Map<String, Value> = self.keys().into_iter().map(|k| { let m = Msa::get_owner_of(&acc(&k)).unwrap_or(0); (k, json!(m)) }).collect();
		let prov: Vec<u64> = pallet_msa::ProviderToRegistryEntry::<Runtime>::iter().map(|(p, _)| p.0).collect();
		let del: Vec<Value> = pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::iter()
			.map(|(d, p, i)| json!({"d": d.0, "p": p.0, "rev": i.revoked_at, "sch_set": i.schema_permissions.iter().map(|(s, b)| json!([s, b])).collect::<Vec<_>>()}))
			.collect();
		let smax = Schemas::get_current_schema_identifier_maximum();
		let mut sch = Map::new();
		for s in 0..=smax + 1 {
			if let (Some(i), Some(p)) = (Schemas::get_schema_info(s), Schemas::get_schema_payload(s)) {
				let set: Vec<&str> = i.settings.0.iter().map(|x| match x { SchemaSetting::AppendOnly => "AppendOnly", SchemaSetting::SignatureRequired => "SignatureRequired" }).collect();
				let t = if i.model_type == ModelType::AvroBinary { "AvroBinary" } else { "Parquet" };
				sch.insert(s.to_string(), json!({"model": self.model_name(&p), "type": t, "loc": loc_name(i.payload_location), "set_set": set}));
			}
		}
		let mut names: BTreeMap<String, Vec<u16>> = BTreeMap::new();
		for s in self.cfg["spaces"].as_array().unwrap() {
			for v in Schemas::get_schema_versions(s.as_str().unwrap().as_bytes().to_vec()).unwrap_or_default() {
				names.entry(String::from_utf8(v.schema_name).unwrap()).or_default().push(v.schema_id);
			}
		}
		let name: Vec<Value> = names.iter().map(|(n, l)| { let (a, b) = n.split_once('.').unwrap(); json!({"ns": cps(a), "ds": cps(b), "ids": l}) }).collect();
		let hdl: Vec<Value> = pallet_handles::MSAIdToDisplayName::<Runtime>::iter().map(|(m, (h, _))| {
			let s = String::from_utf8(h.to_vec()).unwrap();
			let (b, x) = s.rsplit_once('.').unwrap();
			json!({"m": m, "base": cps(b), "sfx": x.parse::<u16>().unwrap()})
		}).collect();
		let own: Vec<Value> = pallet_handles::CanonicalBaseHandleAndSuffixToMSAId::<Runtime>::iter().map(|(c, s, m)| json!({"canon": cps(std::str::from_utf8(&c).unwrap()), "sfx": s, "m": m})).collect();
		let idx: Vec<Value> = pallet_handles::CanonicalBaseHandleToSuffixIndex::<Runtime>::iter().map(|(c, (i, m))| json!({"canon": cps(std::str::from_utf8(&c).unwrap()), "i": i, "min": m})).collect();
		let (mut items, mut pages, mut msgs) = (vec![], vec![], vec![]);
		for s in 0..=smax + 1 {
			for m in 1..=max + 1 {
				if let Ok(p) = StatefulStorage::get_itemized_storage(m, s) {
					if p.content_hash != 0 || p.nonce != 0 || !p.items.is_empty() {
						let v: Vec<Value> = p.items.iter().map(|x| label(&x.payload)).collect();
						items.push(json!({"m": m, "s": s, "n": p.nonce, "h": p.content_hash.to_string(), "v": v}));
					}
				}
				for p in StatefulStorage::get_paginated_storage(m, s).unwrap_or_default() {
					pages.push(json!({"m": m, "s": s, "p": p.page_id, "n": p.nonce, "h": p.content_hash.to_string(), "v": label(&p.payload)}));
				}
			}
			let Some(i) = Schemas::get_schema_info(s) else { continue };
			for b in 0..=now + 1 {
				for x in Messages::get_messages_by_schema_and_block(s, i.payload_location, b) {
					let c = match (&x.payload, &x.cid) {
						(Some(p), _) => label(p),
						(_, Some(c)) => json!([String::from_utf8_lossy(c), x.payload_length.map_or("".into(), |n| n.to_string())]),
						_ => json!([]),
					};
					msgs.push(json!({"b": b, "s": s, "i": x.index, "by": x.provider_msa_id, "of": x.msa_id.unwrap_or(0), "c": c}));
				}
			}
		}
		let okey: Vec<Value> = self.x.known.iter().map(|(m, l)| json!({"m": m, "bad": !l.is_array(), "l": if l.is_array() { l.clone() } else { json!([]) }})).collect();
		json!({"block": now, "max": max, "key": key, "prov_set": prov, "del_set": del, "sch": if sch.is_empty() { json!([]) } else { json!(sch) }, "name_set": name, "hdl_set": hdl, "own_set": own, "idx_set": idx,
			"item_set": items, "page_set": pages, "msg_set": msgs, "okey_set": okey})
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let keys = self.keys();
		let max = pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get() as i64;
		let smax = Schemas::get_current_schema_identifier_maximum() as i64;
		let now = System::block_number() as i64;
		let pick = |rng: &mut Rng, v: &Vec<String>| if v.is_empty() { rng.pick(&keys).clone() } else { rng.pick(v).clone() };
		let bound: Vec<String> = keys.iter().filter(|k| Msa::get_owner_of(&acc(k)).is_some()).cloned().collect();
		let free: Vec<String> = keys.iter().filter(|k| Msa::get_owner_of(&acc(k)).is_none()).cloned().collect();
		let provs: Vec<String> = bound.iter().filter(|k| pallet_msa::ProviderToRegistryEntry::<Runtime>::get(ProviderId(Msa::get_owner_of(&acc(k)).unwrap())).is_some()).cloned().collect();
		let of = |k: &str| Msa::get_owner_of(&acc(k)).unwrap_or(0) as i64;
		let (lo, more) = (if rng.chance(95) { 1.min(max) } else { 0 }, rng.chance(8) as i64);
		let m = rng.range(lo, max + more);
		let by = if rng.chance(90) { pick(rng, &bound) } else { rng.pick(&keys).clone() };
		let prov = if rng.chance(93) { pick(rng, &provs) } else { by.clone() };
		let any_s = |rng: &mut Rng| if rng.chance(95) { rng.range(1.min(smax), smax) } else { *rng.pick(&[0, smax + 1, 65535]) };
		let at = |l: &str, rng: &mut Rng| -> i64 {
			let v: Vec<i64> = (1..=smax).filter(|s| Schemas::get_schema_info(*s as u16).map_or(false, |i| loc_name(i.payload_location) == l)).collect();
			if v.is_empty() || rng.chance(4) { rng.range(0, smax + 1) } else { *rng.pick(&v) }
		};
		let bases: Vec<String> = self.cfg["bases"].as_object().unwrap().keys().cloned().collect();
		let okb: Vec<String> = bases.iter().filter(|b| b.starts_with("ok")).cloned().collect();
		let base = if rng.chance(85) { pick(rng, &okb) } else { rng.pick(&bases).clone() };
		let models: Vec<String> = self.models.iter().map(|m| m.0.clone()).collect();
		let nm: Vec<Value> = self.cfg["names"].as_array().unwrap().clone();
		let dels: Vec<(i64, i64)> = pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::iter().map(|(d, p, _)| (d.0 as i64, p.0 as i64)).collect();
		let blobs = |rng: &mut Rng| json!([*rng.pick(&["a", "b", "c"]), *rng.pick(&[1i64, 2, 3, 40])]);
		if rng.chance(44) {
			match rng.weighted(&[if free.is_empty() { 1 } else { 14 }, 6, 14, 3, 3, 5, 4, 2, if smax < 8 { 12 } else { 2 }, 9, 3, 3, 12, 10, 3, 14, 8, 10, 4]) {
				0 => json!({"k": "create", "by": pick(rng, &free)}),
				1 => json!({"k": "provider", "by": by}),
				2 => {
					let n = rng.range(0, 4);
					let l: Vec<i64> = (0..n).map(|_| any_s(rng)).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
					if rng.chance(12) { json!({"k": "sponsor", "by": prov, "key": pick(rng, &free), "list": l}) } else { json!({"k": "grant", "by": prov, "key": by, "list": l}) }
				},
				3 => match dels.is_empty() { true => json!({"k": "revd", "by": by, "m": m}), _ => { let (d, p) = *rng.pick(&dels); let o: Vec<String> = bound.iter().filter(|k| of(k) == d).cloned().collect(); json!({"k": "revd", "by": pick(rng, &o), "m": p}) } },
				4 => match dels.is_empty() { true => json!({"k": "revp", "by": by, "m": m}), _ => { let (d, p) = *rng.pick(&dels); let o: Vec<String> = bound.iter().filter(|k| of(k) == p).cloned().collect(); json!({"k": "revp", "by": pick(rng, &o), "m": d}) } },
				5 => json!({"k": "addkey", "by": by, "key": pick(rng, &free)}),
				6 => { let same: Vec<String> = bound.iter().filter(|k| of(k) == of(&by) && **k != by).cloned().collect(); json!({"k": "delkey", "by": by, "key": pick(rng, &same)}) },
				7 => json!({"k": "retire", "by": by}),
				8 => {
					let loc = *rng.pick(&["OnChain", "IPFS", "Itemized", "Itemized", "Paginated", "Paginated"]);
					let set: Vec<&str> = if rng.chance(75) { vec![] } else { vec![*rng.pick(&["AppendOnly", "SignatureRequired"])] };
					let name = if rng.chance(55) { rng.pick(&nm).clone() } else { json!([]) };
					let model = rng.pick(&models).clone();
					json!({"k": "schema", "model": model, "type": if rng.chance(75) { "AvroBinary" } else { "Parquet" }, "loc": loc, "settings": set, "name": name})
				},
				9 => json!({"k": "claim", "by": by, "base": base}),
				10 => json!({"k": "change", "by": by, "base": base}),
				11 => json!({"k": "hretire", "by": by}),
				12 => {
					let s = at("Itemized", rng);
					let n = rng.range(1, 3);
					let acts: Vec<Value> = (0..n).map(|_| if rng.chance(25) { json!(["del", rng.range(0, 3)]) } else { blobs(rng) }).collect();
					json!({"k": "items", "by": by, "m": if rng.chance(70) { of(&by) } else { m }, "s": s, "acts": acts})
				},
				13 => json!({"k": "page", "by": by, "m": if rng.chance(70) { of(&by) } else { m }, "s": at("Paginated", rng), "p": *rng.pick(&[0i64, 1, 2, 32]), "c": blobs(rng)}),
				14 => json!({"k": "drop", "by": by, "m": if rng.chance(85) { of(&by) } else { m }, "s": at("Paginated", rng), "p": *rng.pick(&[0i64, 1, 2]), "c": ["a", 0]}),
				15 => json!({"k": "msg", "by": prov, "of": if rng.chance(50) { 0 } else { m }, "s": at("OnChain", rng), "c": blobs(rng)}),
				16 => json!({"k": "ipfs", "by": prov, "s": at("IPFS", rng), "cid": "c1", "len": *rng.pick(&[0i64, 1, 4294967295])}),
				17 => json!({"k": "block", "n": *rng.pick(&[1i64, 1, 1, 2, 3])}),
				_ => json!({"k": "okeys", "m": m, "list": if rng.chance(85) { let n = rng.range(0, 3); json!((0..n).map(|_| rng.pick(&keys).clone()).collect::<Vec<_>>()) } else { json!("bad") }}),
			}
		} else {
			let near = |rng: &mut Rng| *rng.pick(&[0, 1, now - 2, now - 1, now, now, now, now + 1, 4_000]).max(&0);
			let (d, p) = if !dels.is_empty() && rng.chance(85) { *rng.pick(&dels) } else { (m, rng.range(0, max + 1)) };
			match rng.weighted(&[16, 8, 7, 5, 8, 6, 9, 4, 9, 8, 2, 10, 10, 14]) {
				0 => {
					let n = rng.range(0, 4);
					let mut l: Vec<i64> = (0..n).map(|_| rng.range(0, max + 1)).collect();
					l.push(d);
					let s = if rng.chance(40) { 0 } else { any_s(rng) };
					json!({"k": "q_deleg", "list": l, "p": p, "b": near(rng), "s": s, "zero": s == 0 && rng.chance(10)})
				},
				1 => json!({"k": "q_grants", "d": d, "p": p}),
				2 => json!({"k": "q_all", "d": d}),
				3 => json!({"k": "q_keys", "m": m}),
				4 => json!({"k": "q_handle", "m": m}),
				5 => json!({"k": "q_next", "base": base, "n": *rng.pick(&[-1i64, -1, 0, 1, 2, 5, 90, 100, 101, 65535])}),
				6 => {
					let hd: Vec<(String, u16)> = pallet_handles::MSAIdToDisplayName::<Runtime>::iter().map(|(_, (h, _))| { let s = String::from_utf8(h.to_vec()).unwrap(); let (b, x) = s.rsplit_once('.').unwrap(); (b.to_string(), x.parse().unwrap()) }).collect();
					let (b, x) = if hd.is_empty() || rng.chance(20) { (text(&self.cfg["bases"][&base]), rng.range(8, 100) as u16) } else { rng.pick(&hd).clone() };
					// now and then another spelling of it
					let b = match rng.below(6) { 0 => b.to_uppercase(), 1 => format!("{b}a"), _ => b };
					let t = match rng.below(14) { 0 => format!("{b}{x}"), 1 => format!("{b}.{x}.1"), 2 => format!("{b}.+{x}"), 3 => format!("{b}.0{x}"), 4 => format!("{b}.{}", x as u32 + 65536), 5 => format!("{b}.-{x}"), 6 => format!("{b}.0000{x}"), _ => format!("{b}.{x}") };
					json!({"k": "q_msa", "name": cps(&t)})
				},
				7 => json!({"k": "q_valid", "base": rng.pick(&bases).clone()}),
				8 => json!({"k": "q_schema", "s": any_s(rng)}),
				9 => {
					let n: Vec<Value> = self.cfg["asks"].as_array().unwrap().clone();
					json!({"k": "q_vers", "name": rng.pick(&n).clone()})
				},
				10 => json!({"k": "q_check", "model": rng.pick(&models).clone()}),
				11 => json!({"k": "q_items", "m": m, "s": at("Itemized", rng)}),
				12 => json!({"k": "q_pages", "m": m, "s": at("Paginated", rng)}),
				_ => {
					let from = rng.range(0, now);
					let to = *rng.pick(&[from, from + 1, now, now + 1, now + 1, now + 2, from + 50000, from + 50001]);
					let s = if rng.chance(60) { at("OnChain", rng) } else { at("IPFS", rng) };
					json!({"k": "q_msgs", "s": s, "from": from, "at": *rng.pick(&[0i64, 0, 0, 1, 2]), "to": to, "size": *rng.pick(&[0i64, 1, 1, 2, 3, 10, 10000, 10001])})
				},
			}
		}
	}
	fn save(&self) -> X {
		self.x.clone()
	}
	fn load(&mut self, x: &X) {
		self.x = x.clone();
	}
}
fn main() {
	drv::main(D::default())
}
