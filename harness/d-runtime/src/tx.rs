// Transactions through the runtime's own signed extensions (spec/Tx.tla) and the charge cases (spec/FeesEval.tla).
use common_primitives::msa::MsaValidator;
use drv::{Rng, Sut};
use frame_support::storage::with_storage_layer;
use frame_support::traits::Hooks as _;
use pallet_frequency_tx_payment::ChargeFrqTransactionPayment;
use serde_json::Map;
use sp_runtime::traits::ValidateUnsigned as _;
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};

const READY: u128 = 100_000_000; // balances at least this large can pay any fee
const SLACK: u128 = 80_000_000;
fn limbs(v: &Value) -> u128 {
	v.as_array().expect("limbs").iter().rev().fold(0u128, |a, d| a * 10_000 + d.as_u64().unwrap() as u128)
}
fn to_limbs(mut n: u128) -> Value {
	let mut v = vec![];
	while n > 0 {
		v.push(json!((n % 10_000) as u64));
		n /= 10_000;
	}
	Value::Array(v)
}
/// A call that may be paid with capacity, of size `s`.
pub fn elig(n: &str, s: usize) -> RuntimeCall {
	use pallet_msa::types::{AddKeyData, AddProvider};
	use pallet_stateful_storage::types::*;
	let key = || acc("k");
	let proof = || cfgs::sign("k", b"?");
	let add = || AddProvider { authorized_msa_id: 1, schema_ids: vec![1; s], expiration: 1 };
	let actions = || {
		let mut v = vec![ItemAction::Delete { index: 0 }];
		let mut left = s;
		while left > 0 {
			let k = left.min(1024);
			v.push(ItemAction::Add { data: vec![7u8; k].try_into().expect("item") });
			left -= k;
		}
		v.try_into().expect("actions")
	};
	let handle = || common_primitives::handles::ClaimHandlePayload::<BlockNumber>::new(vec![b'a'; s], 1);
	match n {
		"create_sponsored_account_with_delegation" => pallet_msa::Call::create_sponsored_account_with_delegation { delegator_key: key(), proof: proof(), add_provider_payload: add() }.into(),
		"grant_delegation" => pallet_msa::Call::grant_delegation { delegator_key: key(), proof: proof(), add_provider_payload: add() }.into(),
		"add_public_key_to_msa" => pallet_msa::Call::add_public_key_to_msa {
			msa_owner_public_key: key(),
			msa_owner_proof: proof(),
			new_key_owner_proof: proof(),
			add_key_payload: AddKeyData { msa_id: 1, expiration: 1, new_public_key: key() },
		}
		.into(),
		"add_onchain_message" => pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id: 1, payload: vec![7; s] }.into(),
		"add_ipfs_message" => pallet_messages::Call::add_ipfs_message { schema_id: 1, cid: vec![7; s], payload_length: 9 }.into(),
		"apply_item_actions" => pallet_stateful_storage::Call::apply_item_actions { state_owner_msa_id: 1, schema_id: 1, target_hash: 0, actions: actions() }.into(),
		"upsert_page" => pallet_stateful_storage::Call::upsert_page { state_owner_msa_id: 1, schema_id: 1, page_id: 1, target_hash: 0, payload: vec![7; s].try_into().expect("page") }.into(),
		"delete_page" => pallet_stateful_storage::Call::delete_page { state_owner_msa_id: 1, schema_id: 1, page_id: 1, target_hash: 0 }.into(),
		"apply_item_actions_with_signature" => pallet_stateful_storage::Call::apply_item_actions_with_signature {
			delegator_key: key(),
			proof: proof(),
			payload: ItemizedSignaturePayload { msa_id: 1, schema_id: 1, target_hash: 0, expiration: 1, actions: actions() },
		}
		.into(),
		"apply_item_actions_with_signature_v2" => pallet_stateful_storage::Call::apply_item_actions_with_signature_v2 {
			delegator_key: key(),
			proof: proof(),
			payload: ItemizedSignaturePayloadV2 { schema_id: 1, target_hash: 0, expiration: 1, actions: actions() },
		}
		.into(),
		"upsert_page_with_signature" => pallet_stateful_storage::Call::upsert_page_with_signature {
			delegator_key: key(),
			proof: proof(),
			payload: PaginatedUpsertSignaturePayload { msa_id: 1, schema_id: 1, page_id: 1, target_hash: 0, expiration: 1, payload: vec![7; s].try_into().expect("page") },
		}
		.into(),
		"upsert_page_with_signature_v2" => pallet_stateful_storage::Call::upsert_page_with_signature_v2 {
			delegator_key: key(),
			proof: proof(),
			payload: PaginatedUpsertSignaturePayloadV2 { schema_id: 1, page_id: 1, target_hash: 0, expiration: 1, payload: vec![7; s].try_into().expect("page") },
		}
		.into(),
		"delete_page_with_signature" => pallet_stateful_storage::Call::delete_page_with_signature {
			delegator_key: key(),
			proof: proof(),
			payload: PaginatedDeleteSignaturePayload { msa_id: 1, schema_id: 1, page_id: 1, target_hash: 0, expiration: 1 },
		}
		.into(),
		"delete_page_with_signature_v2" => pallet_stateful_storage::Call::delete_page_with_signature_v2 {
			delegator_key: key(),
			proof: proof(),
			payload: PaginatedDeleteSignaturePayloadV2 { schema_id: 1, page_id: 1, target_hash: 0, expiration: 1 },
		}
		.into(),
		"claim_handle" => pallet_handles::Call::claim_handle { msa_owner_key: key(), proof: proof(), payload: handle() }.into(),
		"change_handle" => pallet_handles::Call::change_handle { msa_owner_key: key(), proof: proof(), payload: handle() }.into(),
		n => table(|t| t.get(n).unwrap_or_else(|| panic!("no call {n}")).clone()),
	}
}
/// The runtime's extensions for a transaction: of those only the nonce check and the payment hold data.
pub fn extensions(nonce: u32, tip: u128) -> SignedExtra {
	use parity_scale_codec::{Compact, Encode as _};
	let b = (Compact(nonce), Compact(tip)).encode();
	SignedExtra::decode(&mut &b[..]).expect("extensions")
}

fn stake_capacity(msa: u64, issued: u128) {
	let who = acc("staker");
	let v = issued * 50;
	if v > 0 {
		pallet_balances::Pallet::<Runtime>::make_free(&who, v + 10 * READY);
		pallet_capacity::Call::<Runtime>::stake { target: msa, amount: v }.dispatch_bypass_filter(RuntimeOrigin::signed(who)).expect("stake");
	}
}
pub trait MakeFree {
	fn make_free(who: &AccountId, v: u128);
}
impl MakeFree for pallet_balances::Pallet<Runtime> {
	fn make_free(who: &AccountId, v: u128) {
		let now = pallet_balances::Pallet::<Runtime>::free_balance(who);
		pallet_balances::Call::<Runtime>::force_set_balance { who: MultiAddress::Id(who.clone()), new_free: now + v }
			.dispatch_bypass_filter(RuntimeOrigin::root())
			.expect("balance");
	}
}
pub fn new_msa(key: &str) -> u64 {
	pallet_msa::Call::<Runtime>::create {}.dispatch_bypass_filter(RuntimeOrigin::signed(acc(key))).expect("msa");
	Msa::get_owner_of(&acc(key)).expect("owner")
}
pub fn provider(key: &str) {
	pallet_msa::Call::<Runtime>::create_provider { provider_name: key.as_bytes().to_vec() }.dispatch_bypass_filter(RuntimeOrigin::signed(acc(key))).expect("provider");
}
pub fn eval_tx(j: &Value) -> Value {
	match st(j, "op") {
		// may the call be paid with capacity at all?
		"eligible" => {
			json!(CapacityEligibleCalls::get_stable_weight(&build(&j["call"])).is_some())
		},
		// a transaction that pays with capacity, through the payment extension
		"charge" => {
			mini::ext::reset();
			System::set_block_number(1);
			let id = new_msa("k");
			provider("k");
			if j["ledger"] == true {
				let (rem, iss) = (limbs(&j["rem"]), limbs(&j["iss"]));
				pallet_capacity::CapacityLedger::<Runtime>::insert(
					id,
					pallet_capacity::CapacityDetails { remaining_capacity: rem, total_tokens_staked: iss, total_capacity_issued: iss, last_replenished_epoch: int(j, "last") as u32 },
				);
			}
			pallet_capacity::CurrentEpoch::<Runtime>::put(int(j, "epoch") as u32);
			let who = acc(st(j, "who"));
			let bal = int(j, "bal") as u128;
			if bal > 0 {
				pallet_balances::Pallet::<Runtime>::make_free(&who, bal);
			}
			let calls: Vec<RuntimeCall> = j["calls"].as_array().unwrap().iter().map(|c| elig(st(c, "n"), int(c, "s") as usize)).collect();
			let c: RuntimeCall = if j["batch"] == true {
				pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls }.into()
			} else {
				pallet_frequency_tx_payment::Call::pay_with_capacity { call: Box::new(calls[0].clone()) }.into()
			};
			let ext = ChargeFrqTransactionPayment::<Runtime>::from(int(j, "tip") as u128);
			let (info, len) = (c.get_dispatch_info(), int(j, "len") as usize);
			let had = Balances::free_balance(&who);
			let good = if st(j, "via") == "validate" {
				let mut g = false;
				let _: Result<(), DispatchError> = with_storage_layer(|| {
					g = ext.validate(&who, &c, &info, len).is_ok();
					Err(DispatchError::Other("undo"))
				});
				g
			} else {
				with_storage_layer(|| {
					let pre = ext.pre_dispatch(&who, &c, &info, len).map_err(|_| DispatchError::Other("refused"))?;
					let post = Default::default();
					ChargeFrqTransactionPayment::<Runtime>::post_dispatch(Some(pre), &info, &post, len, &Ok(())).map_err(|_| DispatchError::Other("refused"))
				})
				.is_ok()
			};
			let d = pallet_capacity::CapacityLedger::<Runtime>::get(id);
			let z = Value::Array(vec![]);
			json!({"ok": good, "rem": d.as_ref().map_or(z.clone(), |d| to_limbs(d.remaining_capacity)), "iss": d.as_ref().map_or(z, |d| to_limbs(d.total_capacity_issued)),
				"last": d.as_ref().map_or(0, |d| d.last_replenished_epoch), "same": Balances::free_balance(&who) == had})
		},
		// what the node tells a client the transaction will cost in capacity
		"quote" => {
			let calls: Vec<RuntimeCall> = j["calls"].as_array().unwrap().iter().map(|c| elig(st(c, "n"), int(c, "s") as usize)).collect();
			let function: RuntimeCall = match st(j, "how") {
				"batch" => pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls }.into(),
				"pay" => pallet_frequency_tx_payment::Call::pay_with_capacity { call: Box::new(calls[0].clone()) }.into(),
				_ => calls[0].clone(),
			};
			quote(function, int(j, "len") as usize, j["garble"] == true, j["given"] == true)
		},
		op => panic!("op {op}"),
	}
}

// The transaction a wallet sends for a quote: bytes of the given length, which stand for one call.
thread_local! { static AT: std::cell::Cell<bool> = std::cell::Cell::new(false); }
struct Client;
struct Api;
type Hash_ = <Block as sp_runtime::traits::Block>::Hash;
fn given() -> Hash_ {
	Hash_::repeat_byte(9)
}
impl sp_api::ProvideRuntimeApi<Block> for Client {
	type Api = Api;
	fn runtime_api(&self) -> sp_api::ApiRef<Api> {
		Api.into()
	}
}
impl sp_blockchain::HeaderBackend<Block> for Client {
	fn info(&self) -> sp_blockchain::Info<Block> {
		sp_blockchain::Info { best_hash: Default::default(), best_number: System::block_number(), finalized_hash: Hash_::repeat_byte(1), finalized_number: 0 }
	}
}
impl pallet_frequency_tx_payment_runtime_api::CapacityTransactionPaymentRuntimeApi<Block, u128> for Api {
	fn compute_capacity_fee(&self, at: Hash_, uxt: Uxt, len: u32) -> Result<pallet_transaction_payment::FeeDetails<u128>, sp_api::ApiError> {
		if at != (if AT.with(|a| a.get()) { given() } else { Hash_::default() }) {
			return Err(sp_api::ApiError::StateBackendIsNotTrie);
		}
		Ok(CapacityTransactionPaymentRuntimeApi::compute_capacity_fee(uxt, len))
	}
}
fn quote(function: RuntimeCall, len: usize, garble: bool, at: bool) -> Value {
	use pallet_frequency_tx_payment_rpc::{CapacityPaymentApiServer, CapacityPaymentHandler};
	use sp_rpc::number::NumberOrHex;
	ASKED.with(|c| *c.borrow_mut() = Some(function));
	AT.with(|a| a.set(at));
	let mut bytes = vec![0u8; len];
	if len > 0 && !garble {
		bytes[0] = 4;
	}
	let h: CapacityPaymentHandler<Client, Block> = CapacityPaymentHandler::new(std::sync::Arc::new(Client));
	let n = |x: &NumberOrHex| to_limbs(match x { NumberOrHex::Number(n) => *n as u128, NumberOrHex::Hex(n) => *n });
	match CapacityPaymentApiServer::<Hash_, u128>::compute_capacity_fee_details(&h, bytes.into(), Some(given()).filter(|_| at)) {
		Err(_) => json!({"err": true}),
		Ok(d) => match &d.inclusion_fee {
			None => json!({"some": false, "base": [], "len": [], "weight": [], "tip": n(&d.tip)}),
			Some(f) => json!({"some": true, "base": n(&f.base_fee), "len": n(&f.len_fee), "weight": n(&f.adjusted_weight_fee), "tip": n(&d.tip)}),
		},
	}
}
#[derive(Clone, Default)]
pub struct X {
	/// fees paid in tokens minus what the driver gave back, per account
	adj: BTreeMap<String, i128>,
	rich: BTreeMap<String, bool>,
}
#[derive(Default)]
pub struct Tx {
	cfg: Value,
	x: X,
}
fn why(e: &TransactionValidityError) -> &'static str {
	match e {
		TransactionValidityError::Invalid(InvalidTransaction::Stale) => "stale",
		TransactionValidityError::Invalid(InvalidTransaction::Future) => "future",
		_ => "no",
	}
}
impl Tx {
	fn accs(&self) -> Vec<String> {
		self.cfg["accs"].as_object().unwrap().keys().cloned().collect()
	}
	fn msas(&self) -> Vec<String> {
		self.cfg["cap"].as_object().unwrap().keys().cloned().collect()
	}
	fn nominal(&self, w: &str) -> i128 {
		Balances::free_balance(acc(w)) as i128 + self.x.adj.get(w).unwrap()
	}
	/// every account that is or was rich can pay fees
	fn refill(&mut self) {
		for w in self.accs() {
			let n = self.nominal(&w);
			if n >= READY as i128 {
				self.x.rich.insert(w.clone(), true);
			}
			if self.x.rich[&w] {
				let slack = Balances::free_balance(acc(&w)) as i128 - n;
				if slack < 30_000_000 {
					let give = (SLACK as i128 - slack) as u128;
					pallet_balances::Pallet::<Runtime>::make_free(&acc(&w), give);
					*self.x.adj.get_mut(&w).unwrap() -= give as i128;
				}
			}
		}
	}
	fn call(&self, j: &Value) -> RuntimeCall {
		let inner: Vec<RuntimeCall> = j["in"].as_array().map(|v| v.iter().map(|c| self.call(c)).collect()).unwrap_or_default();
		let s = int(j, "s");
		let dest = || MultiAddress::Id(acc(st(j, "to")));
		match st(j, "c") {
			"msg" => pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id: 1, payload: vec![7; s as usize] }.into(),
			// no such schema
			"bad" => pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id: 9, payload: vec![7; s as usize] }.into(),
			"remark" => frame_system::Call::remark { remark: vec![1; s as usize] }.into(),
			"xfer" => pallet_balances::Call::transfer_keep_alive { dest: dest(), value: s as u128 }.into(),
			"xferd" => pallet_balances::Call::transfer_allow_death { dest: dest(), value: s as u128 }.into(),
			"revoke" => pallet_msa::Call::revoke_delegation_by_delegator { provider_msa_id: Msa::get_owner_of(&acc("p")).unwrap() }.into(),
			"pay" => pallet_frequency_tx_payment::Call::pay_with_capacity { call: Box::new(inner[0].clone()) }.into(),
			"paybatch" => pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls: inner }.into(),
			"batch_all" => pallet_utility::Call::batch_all { calls: inner }.into(),
			c => panic!("call {c}"),
		}
	}
	fn charge(&mut self, w: &str, fee: u128) {
		*self.x.adj.get_mut(w).unwrap() += fee as i128;
	}
	fn signed(&mut self, a: &Value) -> Value {
		let w = st(a, "who");
		let (who, c) = (acc(w), self.call(&a["call"]));
		let (info, len, tip) = (c.get_dispatch_info(), int(a, "len") as usize, int(a, "tip") as u128);
		let ext = extensions(int(a, "nonce") as u32, tip);
		if st(a, "k") == "check" {
			let mut out = json!({});
			let _: Result<(), DispatchError> = with_storage_layer(|| {
				out = match ext.validate(&who, &c, &info, len) {
					Ok(v) => json!({"r": "valid", "wait": !v.requires.is_empty()}),
					Err(e) => json!({"r": "invalid", "e": why(&e)}),
				};
				Err(DispatchError::Other("undo"))
			});
			return out;
		}
		let mut out = json!({});
		let mut fee = 0u128;
		let r: Result<(), DispatchError> = with_storage_layer(|| {
			let pre = match ext.pre_dispatch(&who, &c, &info, len) {
				Ok(p) => p,
				Err(e) => {
					out = json!({"r": "invalid", "e": why(&e)});
					return Err(DispatchError::Other("refused"));
				},
			};
			let r = c.clone().dispatch(RuntimeOrigin::signed(who.clone()));
			let post = match &r {
				Ok(p) => p.clone(),
				Err(e) => e.post_info.clone(),
			};
			let res = r.map(|_| ()).map_err(|e| e.error);
			if !matches!(c, RuntimeCall::FrequencyTxPayment(_)) {
				fee = pallet_transaction_payment::Pallet::<Runtime>::compute_actual_fee(len as u32, &info, &post, tip);
			}
			SignedExtra::post_dispatch(Some(pre), &info, &post, len, &res).map_err(|_| DispatchError::Other("post dispatch"))?;
			out = json!({"r": if res.is_ok() { "ok" } else { "fail" }});
			Ok(())
		});
		if r.is_ok() {
			self.charge(w, fee);
		} else if out["r"] != "invalid" {
			out = json!({"r": "post dispatch failed"});
		}
		out
	}
	fn passkey(&mut self, a: &Value) -> Value {
		use pallet_passkey::*;
		let w = st(a, "who");
		let key = [5u8; 33];
		let proof = match st(a, "sig") {
			"ok" => cfgs::sign_wrapped(w, &key),
			"raw" => cfgs::sign(w, &key),
			"key" => cfgs::sign_wrapped(w, &[6u8; 33]),
			o => cfgs::sign_wrapped(o, &key),
		};
		let payload = PasskeyPayload {
			passkey_public_key: key,
			verifiable_passkey_signature: VerifiablePasskeySignature { signature: Default::default(), authenticator_data: Default::default(), client_data_json: Default::default() },
			passkey_call: PasskeyCall { account_id: acc(w), account_nonce: int(a, "nonce") as u32, account_ownership_proof: proof, call: Box::new(self.call(&a["call"])) },
		};
		let pc = pallet_passkey::Call::<Runtime>::proxy { payload };
		let c: RuntimeCall = pc.clone().into();
		let mut out = json!({});
		if st(a, "k") == "pkcheck" {
			let _: Result<(), DispatchError> = with_storage_layer(|| {
				out = match Passkey::validate_unsigned(sp_runtime::transaction_validity::TransactionSource::External, &pc) {
					Ok(v) => json!({"r": "valid", "wait": !v.requires.is_empty()}),
					Err(e) => json!({"r": "invalid", "e": why(&e)}),
				};
				Err(DispatchError::Other("undo"))
			});
			return out;
		}
		mini::ext::clear_events();
		let r: Result<(), DispatchError> = with_storage_layer(|| {
			if let Err(e) = <Passkey as sp_runtime::traits::ValidateUnsigned>::pre_dispatch(&pc) {
				out = json!({"r": "invalid", "e": why(&e)});
				return Err(DispatchError::Other("refused"));
			}
			let r = c.clone().dispatch(RuntimeOrigin::none());
			let said = System::events().iter().filter(|e| matches!(&e.event, RuntimeEvent::Passkey(Event::TransactionExecutionSuccess { account_id }) if *account_id == acc(w))).count();
			out = json!({"r": if r.is_ok() { "ok" } else { "fail" }, "said": said});
			Ok(())
		});
		if r.is_ok() {
			let fee = pallet_transaction_payment::Pallet::<Runtime>::compute_fee(32, &c.get_dispatch_info(), 0);
			self.charge(w, fee);
		}
		out
	}
}
impl Sut for Tx {
	type Extra = X;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.x = X::default();
		System::set_block_number(1);
		pallet_capacity::Call::<Runtime>::set_epoch_length { length: int(cfg, "elen") as u32 }.dispatch_bypass_filter(RuntimeOrigin::root()).expect("epoch length");
		pallet_schemas::Call::<Runtime>::set_max_schema_model_bytes { max_size: 1000 }
			.dispatch_bypass_filter(RuntimeOrigin::root())
			.expect("schema size");
		// schema 1 holds messages on chain
		pallet_schemas::Call::<Runtime>::create_schema_via_governance {
			creator_key: acc("p"),
			model: br#"{"type":"record"}"#.to_vec().try_into().expect("model"),
			model_type: common_primitives::schema::ModelType::AvroBinary,
			payload_location: common_primitives::schema::PayloadLocation::OnChain,
			settings: Default::default(),
		}
		.dispatch_bypass_filter(RuntimeOrigin::root())
		.expect("schema");
		let accs = cfg["accs"].as_object().unwrap();
		for (m, c) in cfg["cap"].as_object().unwrap() {
			let keys: Vec<&String> = accs.iter().filter(|(_, v)| v["m"] == json!(m)).map(|x| x.0).collect();
			let id = new_msa(c["first"].as_str().unwrap());
			assert_eq!(id.to_string(), *m);
			for k in keys {
				if Msa::get_owner_of(&acc(k)).is_none() {
					Msa::add_key(id, &acc(k), |_| Ok(())).expect("key");
				}
			}
			if c["iss"].as_u64().unwrap() > 0 || c["first"] == "p" {
				provider(c["first"].as_str().unwrap());
			}
		}
		for (w, v) in accs {
			let tok = v["tok"].as_u64().unwrap() as u128;
			self.x.adj.insert(w.clone(), 0);
			self.x.rich.insert(w.clone(), tok >= READY);
			if tok > 0 {
				pallet_balances::Pallet::<Runtime>::make_free(&acc(w), tok);
			}
			if v["del"] == true {
				let add = pallet_msa::types::AddProvider::new(1, None, System::block_number() + 1);
				pallet_msa::Call::<Runtime>::grant_delegation { delegator_key: acc(w), proof: cfgs::sign_wrapped(w, &parity_scale_codec::Encode::encode(&add)), add_provider_payload: add }
					.dispatch_bypass_filter(RuntimeOrigin::signed(acc("p")))
					.expect("grant");
			}
		}
		for (m, c) in cfg["cap"].as_object().unwrap() {
			stake_capacity(m.parse().unwrap(), c["iss"].as_u64().unwrap() as u128);
		}
		self.refill();
	}
	fn apply(&mut self, a: &Value) -> Value {
		let r = match st(a, "k") {
			"tx" | "check" => self.signed(a),
			"pk" | "pkcheck" => self.passkey(a),
			"block" => {
				for _ in 0..int(a, "n") {
					let b = System::block_number();
					Messages::on_finalize(b);
					Capacity::on_finalize(b);
					System::set_block_number(b + 1);
					Messages::on_initialize(b + 1);
					Capacity::on_initialize(b + 1);
				}
				ok()
			},
			k => panic!("action {k}"),
		};
		self.refill();
		r
	}
	fn project(&mut self) -> Value {
		let (mut ac, mut tok, mut cap) = (Map::new(), Map::new(), Map::new());
		for w in self.accs() {
			let i = frame_system::Account::<Runtime>::get(acc(&w));
			let own = Msa::get_owner_of(&acc(&w)).unwrap_or(0);
			let del = pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::get(common_primitives::msa::DelegatorId(own), common_primitives::msa::ProviderId(1)).map_or(false, |d| d.revoked_at == 0);
			ac.insert(w.clone(), json!({"ex": i.providers > 0 || i.consumers > 0 || i.sufficients > 0, "n": i.nonce, "rich": self.x.rich[&w], "del": del}));
			tok.insert(w.clone(), json!(self.nominal(&w) as i64));
		}
		for m in self.msas() {
			let d = pallet_capacity::CapacityLedger::<Runtime>::get(m.parse::<u64>().unwrap());
			cap.insert(m, d.map_or(json!({"rem": -1, "iss": 0, "last": 0}), |d| json!({"rem": d.remaining_capacity as i64, "iss": d.total_capacity_issued as i64, "last": d.last_replenished_epoch})));
		}
		let loc = common_primitives::schema::PayloadLocation::OnChain;
		let msgs: usize = (1..=System::block_number()).map(|b| Messages::get_messages_by_schema_and_block(1, loc, b).len()).sum();
		json!({"block": System::block_number(), "epoch": Capacity::get_current_epoch(), "estart": Capacity::get_current_epoch_info().epoch_start, "acc": ac, "tok": tok, "cap": cap, "msgs": msgs})
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let accs = self.accs();
		let w = rng.pick(&accs).clone();
		let now = frame_system::Account::<Runtime>::get(acc(&w)).nonce as i64;
		let nonce = match rng.below(10) {
			0 => now + 1,
			1 => (now - 1).max(0),
			2 => rng.range(0, now + 3),
			_ => now,
		};
		let sizes = [0i64, 1, 100, 1000, 1024];
		fn leaf(rng: &mut Rng, accs: &[String], sizes: &[i64]) -> Value {
			match rng.weighted(&[50, 12, 6, 14, 6, 12]) {
				0 => json!({"c": "msg", "s": *rng.pick(sizes), "to": "", "in": []}),
				1 => json!({"c": "bad", "s": *rng.pick(sizes), "to": "", "in": []}),
				2 => json!({"c": "remark", "s": rng.range(0, 9), "to": "", "in": []}),
				3 => json!({"c": "xfer", "s": *rng.pick(&[100_000_000i64, 200_000_000, 700_000_000]), "to": rng.pick(accs).clone(), "in": []}),
				4 => json!({"c": "xferd", "s": *rng.pick(&[100_000_000i64, 200_000_000, 700_000_000]), "to": rng.pick(accs).clone(), "in": []}),
				_ => json!({"c": "revoke", "s": 0, "to": "", "in": []}),
			}
		}
		let msgs = |rng: &mut Rng, n: i64, sizes: &[i64]| -> Vec<Value> {
			(0..n).map(|_| json!({"c": if rng.chance(95) { "msg" } else { "bad" }, "s": *rng.pick(sizes), "to": "", "in": []})).collect()
		};
		let call = match rng.weighted(&[30, 36, 18, 8]) {
			0 => leaf(rng, &accs, &sizes),
			1 => {
				let l = if rng.chance(80) { msgs(rng, 1, &sizes).remove(0) } else { leaf(rng, &accs, &sizes) };
				json!({"c": "pay", "s": 0, "to": "", "in": [l]})
			},
			2 => {
				let n = if rng.chance(80) { rng.range(0, 4) } else { rng.range(9, 12) };
				let mut v = msgs(rng, n, &sizes);
				if rng.chance(20) {
					v.push(leaf(rng, &accs, &sizes));
				}
				json!({"c": "paybatch", "s": 0, "to": "", "in": v})
			},
			_ => {
				let n = rng.range(0, 3);
				let v: Vec<Value> = (0..n).map(|_| leaf(rng, &accs, &sizes)).collect();
				json!({"c": "batch_all", "s": 0, "to": "", "in": v})
			},
		};
		match rng.weighted(&[62, 12, 14, 3, 9]) {
			k @ (0 | 1) => json!({"k": if k == 0 { "tx" } else { "check" }, "who": w, "nonce": nonce, "call": call, "len": *rng.pick(&[0i64, 100, 300, 5000]), "tip": if rng.chance(80) { 0 } else { 7 }}),
			k @ (2 | 3) => {
				let call = if rng.chance(75) { json!({"c": if rng.chance(60) { "xfer" } else { "xferd" }, "s": *rng.pick(&[100_000_000i64, 200_000_000, 700_000_000]), "to": rng.pick(&accs).clone(), "in": []}) } else { call };
				let other = rng.pick(&accs).clone();
				let sig = if rng.chance(85) || other == w { "ok".to_string() } else { rng.pick(&["raw".to_string(), "key".to_string(), other]).clone() };
				json!({"k": if k == 2 { "pk" } else { "pkcheck" }, "who": w, "nonce": nonce, "sig": sig, "call": call})
			},
			_ => json!({"k": "block", "n": rng.range(1, 4)}),
		}
	}
	fn save(&self) -> X {
		self.x.clone()
	}
	fn load(&mut self, e: &X) {
		self.x = e.clone();
	}
}
