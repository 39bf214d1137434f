//! Conformance driver for spec/Offchain.tla: the node-local index of every MSA's keys.
use cfgs::*;
use common_primitives::msa::*;
use common_primitives::offchain::{get_index_value, get_msa_account_storage_key_name};
use drv::*;
use frame_support::dispatch::GetDispatchInfo;
use frame_support::storage::with_storage_layer;
use frame_support::traits::UnfilteredDispatchable;
use pallet_msa::types::{AddKeyData, AddProvider};
use parity_scale_codec::Encode;
use sp_runtime::traits::SignedExtension;
use sp_runtime::DispatchError;
use std::collections::BTreeMap;
use std::rc::Rc;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Msa: pallet_msa,
		Handles: pallet_handles,
		Schemas: pallet_schemas,
	}
);
system_config!(Rt);
msa_config!(Rt, schemas = Schemas, handles = Handles);
handles_config!(Rt, msa = Msa);
schemas_config!(Rt);
type Call = pallet_msa::Call<Rt>;

#[derive(Clone, Default)]
struct X {
	/// a transaction ran in the block that is open
	open: bool,
	/// the chain's own record: [block, "add" | "del", msa, key]
	evs: Vec<(u32, String, u64, String)>,
	fin: u32,
	tick: u32,
}
#[derive(Default)]
struct D {
	cfg: Value,
	x: X,
}
fn hash_of(n: u32) -> <Rt as frame_system::Config>::Hash {
	let mut h = [7u8; 32];
	h[..4].copy_from_slice(&n.to_le_bytes());
	h.into()
}
fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
impl D {
	fn keys(&self) -> Vec<String> {
		self.cfg["keys"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
	}
	fn owners(&self) -> BTreeMap<String, u64> {
		self.keys().into_iter().filter_map(|k| Msa::get_owner_of(&acc(&k)).map(|m| (k, m))).collect()
	}
	fn open(&mut self) {
		if !self.x.open {
			let b = System::block_number();
			frame_system::BlockHash::<Rt>::insert(b, hash_of(b));
			System::set_block_number(b + 1);
			AllPalletsWithSystem::on_initialize(b + 1);
			self.x.open = true;
		}
	}
	fn seal(&mut self) {
		self.open();
		AllPalletsWithSystem::on_finalize(System::block_number());
		mini::ext::persist_index();
		mini::ext::set_now_ms(mini::ext::now_ms() + 12_000);
		self.x.open = false;
	}
	fn tx(&mut self, c: Call, who: &str, free: bool) -> Value {
		self.open();
		let c: RuntimeCall = c.into();
		let was = self.owners();
		let good = {
			let info = c.get_dispatch_info();
			let w = acc(who);
			let pass = !free || pallet_msa::CheckFreeExtrinsicUse::<Rt>::new().pre_dispatch(&w, &c, &info, 100).is_ok();
			pass && c.dispatch_bypass_filter(RuntimeOrigin::signed(w)).is_ok()
		};
		let now = self.owners();
		let b = System::block_number();
		for (k, m) in &was {
			if now.get(k) != Some(m) {
				self.x.evs.push((b, "del".into(), *m, k.clone()));
			}
		}
		for (k, m) in &now {
			if was.get(k) != Some(m) {
				self.x.evs.push((b, "add".into(), *m, k.clone()));
			}
		}
		if good { ok() } else { err() }
	}
	fn exp(&mut self) -> u32 {
		self.x.tick += 1;
		System::block_number() + 2 + self.x.tick
	}
	fn last(&self) -> i64 {
		get_index_value::<u32>(&pallet_msa::LAST_PROCESSED_BLOCK_STORAGE_NAME[..]).unwrap_or(None).map_or(-1, |x| x as i64)
	}
	fn initd(&self) -> bool {
		get_index_value::<bool>(&pallet_msa::MSA_INITIAL_INDEXED_STORAGE_NAME[..]).unwrap_or(None).unwrap_or(false)
	}
	/// the worker of the last sealed block, with the node reporting block `fin` as finalized
	fn work(&mut self, a: &Value) {
		let b = System::block_number();
		let how = st(a, "rpc");
		let fin = int(a, "fin") as u32;
		let good = format!("{{\"jsonrpc\":\"2.0\",\"id\":10,\"result\":\"0x{}\"}}", hex(&hash_of(fin).encode()));
		let reply: Result<(u16, Vec<u8>), ()> = match how {
			"ok" => Ok((200, good.into_bytes())),
			"down" => Err(()),
			"500" => Ok((500, good.into_bytes())),
			"junk" => Ok((200, b"no json".to_vec())),
			"binary" => Ok((200, vec![0xff, 0xfe])),
			"hex" => Ok((200, br#"{"result":"0xzz"}"#.to_vec())),
			"short" => Ok((200, br#"{"result":"0x12"}"#.to_vec())),
			"null" => Ok((200, br#"{"result":null}"#.to_vec())),
			"other" => Ok((200, format!("{{\"result\":\"0x{}\"}}", "ee".repeat(32)).into_bytes())),
			h => panic!("rpc {h}"),
		};
		mini::ext::set_http(Some(Rc::new(move |url, body| {
			assert!(url == "http://localhost:9944" && body == br#"{"id": 10, "jsonrpc": "2.0", "method": "chain_getFinalizedHead", "params": []}"#, "request");
			reply.clone()
		})));
		if how == "ok" {
			self.x.fin = self.x.fin.max(fin);
		}
		// what a worker does to the chain's state is dropped
		let _: Result<(), DispatchError> = with_storage_layer(|| {
			use frame_support::traits::Hooks;
			Msa::offchain_worker(b);
			Err(DispatchError::Other("undo"))
		});
	}
}
impl Sut for D {
	type Extra = X;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.x = X::default();
		msa_defaults();
		handles_defaults();
		schemas_defaults();
		set_param("MsaMortality", 1_000_000);
		mini::ext::set_now_ms(1_000_000);
		System::set_block_number(1);
		// keys that are there before any indexing
		for k in cfg["quiet"].as_array().unwrap() {
			Msa::create_account(acc(k.as_str().unwrap()), |_| Ok(())).expect("account");
		}
		Call::create_provider { provider_name: b"p".to_vec() }.dispatch_bypass_filter(RuntimeOrigin::signed(acc("p"))).expect("provider");
		mini::ext::persist_index();
	}
	fn apply(&mut self, a: &Value) -> Value {
		match st(a, "k") {
			"create" => self.tx(Call::create {}, st(a, "key"), false),
			"sponsor" => {
				self.open();
				let p = AddProvider::new(1, None, self.exp());
				let key = st(a, "key");
				self.tx(Call::create_sponsored_account_with_delegation { delegator_key: acc(key), proof: sign_wrapped(key, &p.encode()), add_provider_payload: p }, "p", false)
			},
			"add" => {
				self.open();
				let (by, key) = (st(a, "by"), st(a, "key"));
				let p = AddKeyData::<Rt> { msa_id: Msa::get_owner_of(&acc(by)).unwrap_or(0), expiration: self.exp(), new_public_key: acc(key) };
				let (o, n) = (sign_wrapped(by, &p.encode()), sign_wrapped(key, &p.encode()));
				self.tx(Call::add_public_key_to_msa { msa_owner_public_key: acc(by), msa_owner_proof: o, new_key_owner_proof: n, add_key_payload: p }, "relayer", false)
			},
			"del" => self.tx(Call::delete_msa_public_key { public_key_to_delete: acc(st(a, "key")) }, st(a, "by"), true),
			// adds the key, takes it out, adds it again ... all in one block
			"churn" => {
				for _ in 0..int(a, "n") {
					let there = Msa::get_owner_of(&acc(st(a, "key"))).is_some();
					let mut b = a.clone();
					b["k"] = json!(if there { "del" } else { "add" });
					if self.apply(&b)["r"] != "ok" {
						return err();
					}
				}
				ok()
			},
			"retire" => self.tx(Call::retire_msa {}, st(a, "key"), true),
			"seal" => {
				for _ in 0..int(a, "n") {
					self.seal();
				}
				ok()
			},
			"work" => {
				for _ in 0..int(a, "n") {
					self.work(a);
				}
				ok()
			},
			// the node dies after so many writes of the worker and is back 50 blocks later
			"crash" => {
				mini::ext::local_fuse(Some(int(a, "cut") as u64));
				let hook = std::panic::take_hook();
				std::panic::set_hook(Box::new(|_| {}));
				let died = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.work(a))).is_err();
				std::panic::set_hook(hook);
				mini::ext::unwind();
				mini::ext::local_fuse(None);
				for _ in 0..50 {
					self.seal();
				}
				json!({"r": "ok", "died": died})
			},
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let n = int(&self.cfg, "msas") as u64;
		let last = self.last();
		self.x.evs.retain(|e| e.0 as i64 > last);
		let (mut keys, mut idx) = (Map::new(), Map::new());
		let own = self.owners();
		for m in 1..=n {
			let k: Vec<&String> = own.iter().filter(|x| *x.1 == m).map(|x| x.0).collect();
			keys.insert(format!("m{m}"), json!({"v_set": k}));
			let l = get_index_value::<Vec<<Rt as frame_system::Config>::AccountId>>(&get_msa_account_storage_key_name(m)).expect("list").unwrap_or_default();
			idx.insert(format!("m{m}"), json!({"v_set": l.iter().map(acc_name).collect::<Vec<_>>()}));
		}
		let dels: Vec<u64> = (1..=n).filter(|m| pallet_msa::DelegatorAndProviderToDelegation::<Rt>::get(DelegatorId(*m), ProviderId(1)).is_some()).collect();
		json!({"b": System::block_number(), "open": self.x.open, "max": Msa::get_current_msa_identifier_maximum(), "keys": keys, "dels_set": dels,
			"evs": self.x.evs.iter().map(|e| json!([e.0, e.1, e.2, e.3])).collect::<Vec<_>>(), "idx": idx, "last": last, "initd": self.initd(), "fin": self.x.fin})
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let keys = self.keys();
		let (k, by) = (rng.pick(&keys).clone(), rng.pick(&keys).clone());
		let b = System::block_number() as i64;
		let room = Msa::get_current_msa_identifier_maximum() < int(&self.cfg, "msas") as u64;
		let crashes = self.cfg["crashes"] == true;
		let early = crashes && !self.initd();
		match rng.weighted(&[if room { 8 } else { 0 }, if room { 4 } else { 0 }, 16, 12, 3, 24, if early { 3 } else { 22 }, if early { 14 } else if crashes { 4 } else { 0 }]) {
			0 => json!({"k": "create", "key": k}),
			1 => json!({"k": "sponsor", "key": k}),
			2 if rng.chance(if self.x.open { 14 } else { 3 }) => {
				let own = self.owners();
				let o: Vec<&String> = own.keys().filter(|x| **x != k).collect();
				let by = if o.is_empty() { by } else { (*rng.pick(&o)).clone() };
				let n = if rng.chance(40) { rng.range(2, 9) } else { rng.range(256, 300) };
				json!({"k": "churn", "by": by, "key": k, "n": n})
			},
			2 => json!({"k": "add", "by": by, "key": k}),
			3 => json!({"k": "del", "by": by, "key": k}),
			4 => json!({"k": "retire", "key": k}),
			5 => json!({"k": "seal", "n": if rng.chance(85) { 1 } else { rng.range(2, 9) }}),
			n => {
				if self.x.open {
					return json!({"k": "seal", "n": 1});
				}
				let lag = if rng.chance(70) { rng.range(0, 3) } else { rng.range(0, 12) };
				let fin = (b - lag).max(self.x.fin as i64);
				if n == 7 {
					return json!({"k": "crash", "fin": fin, "rpc": "ok", "n": 1, "cut": rng.range(0, if early { 24 } else { 14 })});
				}
				let rpc = if rng.chance(85) { "ok" } else { *rng.pick(&["down", "500", "junk", "binary", "hex", "short", "null", "other"]) };
				json!({"k": "work", "fin": fin, "rpc": rpc, "n": if rng.chance(90) { 1 } else { 2 }})
			},
		}
	}
	fn save(&self) -> X {
		self.x.clone()
	}
	fn load(&mut self, e: &X) {
		self.x = e.clone();
	}
}
fn main() {
	drv::main(D::default())
}
