//! Conformance driver for spec/Handles.tla: pallet-handles on top of pallet-msa.
use cfgs::*;
use frame_support::traits::UnfilteredDispatchable;
use common_primitives::handles::*;
use common_primitives::schema::{SchemaId, SchemaValidator};
use drv::*;
use frame_support::dispatch::GetDispatchInfo;
use parity_scale_codec::Encode;
use sp_runtime::traits::{Dispatchable, SignedExtension};
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Msa: pallet_msa,
		Handles: pallet_handles,
	}
);
system_config!(Rt);
pub struct AllSchemas;
impl SchemaValidator<SchemaId> for AllSchemas {
	fn are_all_schema_ids_valid(_: &Vec<SchemaId>) -> bool {
		true
	}
	fn set_schema_count(_: SchemaId) {}
}
msa_config!(Rt, schemas = AllSchemas, handles = Handles);
handles_config!(Rt, msa = Msa);

#[derive(Clone, Default)]
struct X {
	range: usize,
	cnt: BTreeMap<String, Vec<u64>>,
	last_exp: i64,
	used: Vec<(String, String, i64)>,
}
#[derive(Default)]
struct D {
	cfg: Value,
	all: Vec<u16>,
	x: X,
}
fn text(v: &Value) -> Vec<u8> {
	if let Some(b) = v["bytes"].as_array() {
		return b.iter().map(|x| x.as_u64().unwrap() as u8).collect();
	}
	v["cps"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect::<String>().into_bytes()
}
impl D {
	fn base(&self, b: &str) -> Vec<u8> {
		text(&self.cfg["bases"][b])
	}
	fn token(&self, bytes: &[u8]) -> String {
		self.cfg["bases"].as_object().unwrap().iter().find(|(_, v)| text(v) == bytes).map(|(k, _)| k.clone()).unwrap_or("?".into())
	}
	fn set_range(&mut self, r: usize) {
		self.x.range = r;
		let p = &self.cfg["ranges"][r - 1];
		set_param("HandleSuffixMin", p[0].as_u64().unwrap());
		set_param("HandleSuffixMax", p[1].as_u64().unwrap());
	}
	fn canons(&self) -> Vec<String> {
		let mut v: Vec<String> = self.cfg["bases"].as_object().unwrap().values().filter(|b| b["ok"] == true).map(|b| b["canon"].as_str().unwrap().to_string()).collect();
		v.sort();
		v.dedup();
		v
	}
	/// the last listed spelling of a canonical base
	fn spelling(&self, canon: &str) -> Vec<u8> {
		self.cfg["bases"].as_object().unwrap().values().filter(|b| b["ok"] == true && b["canon"] == canon).last().map(text).unwrap()
	}
	fn claim(&mut self, a: &Value, change: bool) -> Value {
		let payload = ClaimHandlePayload::<u32>::new(self.base(st(a, "base")), int(a, "exp") as u32);
		let mut signed = payload.clone();
		match st(a, "tamper") {
			"none" => {},
			"base" => signed.base_handle.push(b'x'),
			"exp" => signed.expiration += 1,
			t => panic!("tamper {t}"),
		}
		let proof = sign_wrapped(st(a, "signer"), &signed.encode());
		let key = acc(st(a, "key"));
		let call: RuntimeCall = if change {
			pallet_handles::Call::<Rt>::change_handle { msa_owner_key: key.clone(), proof, payload }.into()
		} else {
			pallet_handles::Call::<Rt>::claim_handle { msa_owner_key: key.clone(), proof, payload }.into()
		};
		mini::ext::clear_events();
		// anybody may submit
		let r = call.dispatch(RuntimeOrigin::signed(acc("relayer")));
		if r.is_err() {
			return err();
		}
		let mut claimed = None;
		for e in System::events() {
			if let RuntimeEvent::Handles(pallet_handles::Event::HandleClaimed { handle, .. }) = e.event {
				claimed = Some(handle);
			}
		}
		let Some(h) = claimed else { return json!({"r": "ok", "suffix": -1}) };
		let s = String::from_utf8(h).unwrap();
		let (b, n) = s.rsplit_once('.').unwrap();
		let n: u16 = n.parse().unwrap();
		let tok = self.token(b.as_bytes());
		let canon = self.cfg["bases"][&tok]["canon"].as_str().unwrap_or("?").to_string();
		if let Some(p) = self.all.iter().position(|x| *x == n) {
			if let Some(v) = self.x.cnt.get_mut(&canon) {
				v[p] += 1;
			}
		}
		json!({"r": "ok", "suffix": n})
	}
}
impl Sut for D {
	type Extra = X;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.x = X::default();
		msa_defaults();
		handles_defaults();
		set_param("HandleMortality", cfg["window"].as_u64().unwrap());
		self.set_range(1);
		self.all = vec![];
		for r in cfg["ranges"].as_array().unwrap() {
			self.all.extend(r[0].as_u64().unwrap() as u16..=r[1].as_u64().unwrap() as u16);
		}
		let n = self.all.len();
		self.x.cnt = self.canons().into_iter().map(|c| (c, vec![0; n])).collect();
		System::set_block_number(1);
		// MSAs in order; the first key of each creates it, the others are bound to it
		let keys = cfg["keys"].as_object().unwrap();
		let msas: Vec<String> = cfg["msas"].as_object().unwrap().keys().cloned().collect();
		for m in &msas {
			for (i, (k, _)) in keys.iter().filter(|(_, v)| v.as_str().unwrap() == m).enumerate() {
				if i == 0 {
					pallet_msa::Call::<Rt>::create {}.dispatch_bypass_filter(RuntimeOrigin::signed(acc(k))).expect("create");
				} else {
					Msa::add_key(m.parse().unwrap(), &acc(k), |_| Ok(())).expect("add key");
				}
			}
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		match st(a, "k") {
			"claim" => self.claim(a, false),
			"change" => self.claim(a, true),
			"retire" => {
				let call: RuntimeCall = pallet_handles::Call::<Rt>::retire_handle {}.into();
				class(&call.dispatch(RuntimeOrigin::signed(acc(st(a, "key")))))
			},
			"retiretx" => {
				let call: RuntimeCall = pallet_handles::Call::<Rt>::retire_handle {}.into();
				let who = acc(st(a, "key"));
				let info = call.get_dispatch_info();
				let ext = pallet_handles::handles_signed_extension::HandlesSignedExtension::<Rt>::new();
				let v = ext.validate(&who, &call, &info, 100).is_ok();
				let p = ext.pre_dispatch(&who, &call, &info, 100).is_ok();
				if v != p {
					return json!({"r": "validate/pre_dispatch differ"});
				}
				if !v {
					return err();
				}
				match call.dispatch(RuntimeOrigin::signed(who)) {
					Ok(_) => ok(),
					Err(_) => json!({"r": "admitted but failed"}),
				}
			},
			"block" => {
				for _ in 0..int(a, "n") {
					let b = System::block_number();
					AllPalletsWithSystem::on_finalize(b);
					System::set_block_number(b + 1);
					AllPalletsWithSystem::on_initialize(b + 1);
				}
				ok()
			},
			"reconf" => {
				self.set_range(int(a, "to") as usize);
				ok()
			},
			"preview" => {
				let b: BaseHandle = self.base(st(a, "base")).try_into().unwrap();
				let r = Handles::get_next_suffixes(b, int(a, "n") as u16);
				json!({"r": "ok", "suffixes": r.suffixes})
			},
			"validate" => json!({"r": "ok", "v": Handles::validate_handle(self.base(st(a, "base")))}),
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let mut disp = Map::new();
		for m in self.cfg["msas"].as_object().unwrap().keys() {
			let id: u64 = m.parse().unwrap();
			let v = match pallet_handles::MSAIdToDisplayName::<Rt>::get(id) {
				None => json!({"base": "-", "suffix": 0, "exp": 0}),
				Some((h, exp)) => {
					let resp = Handles::get_handle_for_msa(id).expect("query of an existing handle");
					let s = String::from_utf8(h.to_vec()).unwrap();
					let (b, n) = s.rsplit_once('.').unwrap();
					// the query must describe the stored display name
					if resp.base_handle.to_vec() != b.as_bytes() || resp.suffix.to_string() != n {
						json!({"base": "query disagrees", "suffix": resp.suffix, "exp": exp})
					} else {
						json!({"base": self.token(b.as_bytes()), "suffix": resp.suffix, "exp": exp})
					}
				},
			};
			disp.insert(m.clone(), v);
		}
		let (mut idx, mut own) = (Map::new(), Map::new());
		for c in self.canons() {
			let sp = self.spelling(&c);
			let cb: CanonicalBase = handles_utils::convert_to_canonical(std::str::from_utf8(&sp).unwrap()).into_bytes().try_into().unwrap();
			let i = match pallet_handles::CanonicalBaseHandleToSuffixIndex::<Rt>::get(&cb) {
				None => json!({"i": -1, "min": 0}),
				Some((i, m)) => json!({"i": i, "min": m}),
			};
			idx.insert(c.clone(), i);
			let mut v = vec![];
			for s in &self.all {
				let mut d = sp.clone();
				d.extend_from_slice(format!(".{s}").as_bytes());
				let by_name = d.try_into().ok().and_then(|d: DisplayHandle| Handles::get_msa_id_for_handle(d));
				v.push(by_name.unwrap_or(0).to_string());
			}
			own.insert(c, json!(v));
		}
		let mut out = json!({"block": System::block_number(), "range": self.x.range, "disp": disp, "idx": idx, "own": own, "cnt": self.x.cnt});
		// anything stored beyond what the cases above explain
		let entries = pallet_handles::CanonicalBaseHandleAndSuffixToMSAId::<Rt>::iter().count();
		let shown: usize = own_count(&out["own"]);
		if entries != shown {
			out["extra_entries"] = json!(entries as i64 - shown as i64);
		}
		out
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let keys: Vec<String> = self.cfg["keys"].as_object().unwrap().keys().cloned().collect();
		let bases: Vec<String> = self.cfg["bases"].as_object().unwrap().keys().cloned().collect();
		let okb: Vec<String> = bases.iter().filter(|b| self.cfg["bases"][*b]["ok"] == true).cloned().collect();
		let w = self.cfg["window"].as_i64().unwrap();
		let blk = System::block_number() as i64;
		match rng.weighted(&[40, 25, 8, 10, 20, 6, 6, 1]) {
			c @ (0 | 1) => {
				let key = rng.pick(&keys).clone();
				let signer = if rng.chance(90) { key.clone() } else { rng.pick(&keys).clone() };
				let exp = if rng.chance(70) { blk + rng.range(1, w - 1) } else { blk + rng.range(-1, w + 1) };
				let base = if rng.chance(85) { rng.pick(&okb).clone() } else { rng.pick(&bases).clone() };
				let tamper = if rng.chance(93) { "none" } else if rng.chance(50) { "base" } else { "exp" };
				json!({"k": if c == 0 { "claim" } else { "change" }, "key": key, "signer": signer, "base": base, "exp": exp.max(0), "tamper": tamper})
			},
			2 => json!({"k": "retire", "key": rng.pick(&keys)}),
			3 => json!({"k": "retiretx", "key": rng.pick(&keys)}),
			4 => json!({"k": "block", "n": if rng.chance(70) { 1 } else { rng.range(1, w + 2) }}),
			5 => json!({"k": "preview", "base": rng.pick(&okb), "n": rng.range(1, 100)}),
			6 => json!({"k": "validate", "base": rng.pick(&bases)}),
			_ => {
				let n = self.cfg["ranges"].as_array().unwrap().len();
				if self.x.range < n {
					json!({"k": "reconf", "to": self.x.range + 1})
				} else {
					json!({"k": "block", "n": 1})
				}
			},
		}
	}
	fn save(&self) -> X {
		self.x.clone()
	}
	fn load(&mut self, e: &X) {
		self.set_range(e.range);
		self.x = e.clone();
	}
}
fn own_count(v: &Value) -> usize {
	v.as_object().unwrap().values().flat_map(|a| a.as_array().unwrap()).filter(|x| *x != "0").count()
}
/// One byte string offered as base handle to the query and to both calls, on a fresh state.
fn offer(d: &mut D, v: &Value) -> Value {
	let bytes: Vec<u8> = v["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
	mini::ext::reset();
	d.init(&json!({"window": 100, "ranges": [[10, 99]], "keys": {"k1": "1", "k2": "2"}, "msas": {"1": 1, "2": 2}, "bases": {}}));
	let valid = Handles::validate_handle(bytes.clone());
	let mut put = |k: &str, b: &[u8], change: bool| {
		let payload = ClaimHandlePayload::<u32>::new(b.to_vec(), 50);
		let proof = sign_wrapped(k, &payload.encode());
		let call: RuntimeCall = if change {
			pallet_handles::Call::<Rt>::change_handle { msa_owner_key: acc(k), proof, payload }.into()
		} else {
			pallet_handles::Call::<Rt>::claim_handle { msa_owner_key: acc(k), proof, payload }.into()
		};
		if call.dispatch(RuntimeOrigin::signed(acc("relayer"))).is_ok() { "ok" } else { "err" }
	};
	let claim = put("k1", &bytes, false);
	put("k2", b"other one", false);
	let change = put("k2", &bytes, true);
	json!({"v": valid, "claim": claim, "change": change})
}
fn main() {
	if std::env::args().nth(1).as_deref() == Some("eval") {
		let mut d = D::default();
		return drv::eval_lines(|v| offer(&mut d, v));
	}
	drv::main(D::default());
}
