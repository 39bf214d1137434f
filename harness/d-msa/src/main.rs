//! Conformance driver for spec/Msa.tla: pallet-msa with the real handles and schemas pallets.
use cfgs::*;
use common_primitives::handles::*;
use common_primitives::capacity::TargetValidator;
use common_primitives::msa::*;
use drv::*;
use frame_support::dispatch::GetDispatchInfo;
use frame_support::traits::UnfilteredDispatchable;
use parity_scale_codec::Encode;
use sp_runtime::traits::SignedExtension;
use sp_runtime::MultiSignature;
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Msa: pallet_msa,
		Handles: pallet_handles,
		Schemas: pallet_schemas,
	}
);
system_config!(Rt);
msa_config!(Rt, schemas = Schemas, handles = Handles);
handles_config!(Rt, msa = Msa);
schemas_config!(Rt);
type Call = pallet_msa::Call<Rt>;
type Event = pallet_msa::Event<Rt>;

#[derive(Clone, Default)]
struct X {
	labels: BTreeMap<Vec<u8>, String>,
	used: Vec<(String, u32)>,
	base: u64,
}
#[derive(Default)]
struct D {
	cfg: Value,
	x: X,
}
fn ints(v: &Value) -> Vec<i64> {
	v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn tla_seq(v: &[i64]) -> String {
	format!("<<{}>>", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}
impl D {
	fn id(&self, rel: i64) -> u64 {
		if rel == 0 { 0 } else { self.x.base.wrapping_add(rel as u64) }
	}
	fn rel(&self, id: u64) -> i64 {
		if id == 0 { 0 } else { id.wrapping_sub(self.x.base) as i64 }
	}
	fn keys(&self) -> Vec<String> {
		self.cfg["keys"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
	}
	fn max(&self) -> i64 {
		self.rel(Msa::get_current_msa_identifier_maximum().max(self.x.base)).max(0)
	}
	fn sig(&mut self, signer: &str, label: &str, bytes: Vec<u8>, tamper: &str) -> MultiSignature {
		let s = if tamper == "unwrapped" { sign(signer, &bytes) } else { sign_wrapped(signer, &bytes) };
		if tamper == "none" {
			self.x.labels.insert(s.encode(), format!("{signer}|{label}"));
		}
		s
	}
	fn label(&self, s: &MultiSignature) -> String {
		self.x.labels.get(&s.encode()).cloned().unwrap_or("?".into())
	}
	fn go(&self, call: Call, who: &str) -> bool {
		mini::ext::clear_events();
		RuntimeCall::from(call).dispatch_bypass_filter(RuntimeOrigin::signed(acc(who))).is_ok()
	}
	fn events(&self) -> Value {
		System::events()
			.into_iter()
			.filter_map(|e| match e.event {
				RuntimeEvent::Msa(e) => Some(match e {
					Event::MsaCreated { msa_id, key } => json!(["created", self.rel(msa_id), acc_name(&key)]),
					Event::PublicKeyAdded { msa_id, key } => json!(["added", self.rel(msa_id), acc_name(&key)]),
					Event::PublicKeyDeleted { key } => json!(["deleted", 0, acc_name(&key)]),
					Event::DelegationGranted { provider_id, delegator_id } => json!(["granted", self.rel(delegator_id.0), self.rel(provider_id.0).to_string()]),
					Event::ProviderCreated { provider_id } => json!(["provider", self.rel(provider_id.0), ""]),
					Event::DelegationRevoked { provider_id, delegator_id } => json!(["revoked", self.rel(delegator_id.0), self.rel(provider_id.0).to_string()]),
					Event::MsaRetired { msa_id } => json!(["retired", self.rel(msa_id), ""]),
					Event::DelegationUpdated { provider_id, delegator_id } => json!(["updated", self.rel(delegator_id.0), self.rel(provider_id.0).to_string()]),
					_ => json!(["other", 0, ""]),
				}),
				_ => None,
			})
			.collect::<Vec<_>>()
			.into()
	}
	fn done(&self, good: bool) -> Value {
		if good { json!({"r": "ok", "ev": self.events()}) } else { err() }
	}
	/// through the transaction extension ("free") or dispatched by some wrapping call
	fn tx(&self, call: Call, who: &str, free: bool) -> Value {
		if !free {
			let g = self.go(call, who);
			return self.done(g);
		}
		let c: RuntimeCall = call.into();
		let info = c.get_dispatch_info();
		if info.pays_fee != frame_support::dispatch::Pays::No {
			return json!({"r": "not free"});
		}
		let w = acc(who);
		let ext = pallet_msa::CheckFreeExtrinsicUse::<Rt>::new();
		let v = ext.validate(&w, &c, &info, 100).is_ok();
		if v != ext.clone().pre_dispatch(&w, &c, &info, 100).is_ok() {
			return json!({"r": "validate and pre_dispatch differ"});
		}
		if !v {
			return err();
		}
		mini::ext::clear_events();
		match c.dispatch_bypass_filter(RuntimeOrigin::signed(w)) {
			Ok(p) if p.pays_fee == frame_support::dispatch::Pays::No || true => {
				let _ = p;
				self.done(true)
			},
			_ => json!({"r": "failed"}),
		}
	}
	fn add_provider(&mut self, a: &Value) -> (AddProvider, MultiSignature, String) {
		let (auth, sch, exp) = (int(a, "auth"), ints(&a["schemas"]), int(a, "exp"));
		let payload = AddProvider::new(self.id(auth), Some(sch.iter().map(|s| *s as u16).collect()), exp as u32);
		let mut signed = payload.clone();
		match st(a, "tamper") {
			"auth" => signed.authorized_msa_id ^= 1 << 40,
			"exp" => signed.expiration += 1,
			"schemas" => signed.schema_ids.push(77),
			_ => {},
		}
		let label = format!("prov|{auth}|{}|{exp}", tla_seq(&sch));
		let s = self.sig(st(a, "signer"), &label, signed.encode(), st(a, "tamper"));
		(payload, s, format!("{}|{label}", st(a, "signer")))
	}
	fn use_sig(&mut self, l: String, exp: i64) {
		self.x.used.push((l, exp as u32));
	}
	fn hcall(&self, a: &Value, retire: bool) -> Value {
		let key = st(a, "key");
		let call: RuntimeCall = if retire {
			pallet_handles::Call::<Rt>::retire_handle {}.into()
		} else {
			let payload = ClaimHandlePayload::<u32>::new(format!("han{}", self.rel(Msa::get_owner_of(&acc(key)).unwrap_or(0))).into_bytes(), System::block_number() + 1);
			let proof = sign_wrapped(key, &payload.encode());
			pallet_handles::Call::<Rt>::claim_handle { msa_owner_key: acc(key), proof, payload }.into()
		};
		class(&call.dispatch_bypass_filter(RuntimeOrigin::signed(acc(key))))
	}
}
use pallet_msa::types::{AddKeyData, AddProvider};
impl Sut for D {
	type Extra = X;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.x = X::default();
		msa_defaults();
		handles_defaults();
		schemas_defaults();
		for (k, p) in [("maxkeys", "MaxPublicKeysPerMsa"), ("maxgrants", "MaxSchemaGrantsPerDelegation"), ("namelen", "MaxProviderNameSize"), ("window", "MsaMortality"), ("maxsigs", "MaxSignaturesStored")] {
			set_param(p, cfg[k].as_u64().unwrap());
		}
		System::set_block_number(1);
		Schemas::set_schema_count(cfg["nschemas"].as_u64().unwrap() as u16);
		self.x.base = cfg["idbase"].as_str().unwrap().parse().unwrap();
		if self.x.base > 0 {
			Msa::set_msa_identifier(self.x.base).expect("base");
		}
		for a in cfg["pre"].as_array().unwrap() {
			self.apply(a);
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		match st(a, "k") {
			"create" => {
				let g = self.go(Call::create {}, st(a, "key"));
				self.done(g)
			},
			k @ ("sponsor" | "grant") => {
				let (add_provider_payload, proof, label) = self.add_provider(a);
				let delegator_key = acc(st(a, "key"));
				let c = if k == "sponsor" {
					Call::create_sponsored_account_with_delegation { delegator_key, proof, add_provider_payload }
				} else {
					Call::grant_delegation { delegator_key, proof, add_provider_payload }
				};
				let g = self.go(c, st(a, "by"));
				if g {
					self.use_sig(label, int(a, "exp"));
				}
				self.done(g)
			},
			"addkey" => {
				let (msa, exp, key) = (int(a, "msa"), int(a, "exp"), st(a, "key"));
				let payload = AddKeyData::<Rt> { msa_id: self.id(msa), expiration: exp as u32, new_public_key: acc(key) };
				let label = format!("key|{msa}|{exp}|{key}");
				let mut proof = |t: &str, s: &str| {
					let mut p = payload.clone();
					match t {
						"msa" => p.msa_id ^= 1 << 40,
						"exp" => p.expiration += 1,
						"key" => p.new_public_key = acc("zz"),
						_ => {},
					}
					self.sig(s, &label, p.encode(), t)
				};
				let msa_owner_proof = proof(st(a, "otamper"), st(a, "osigner"));
				let new_key_owner_proof = proof(st(a, "ntamper"), st(a, "nsigner"));
				let c = Call::add_public_key_to_msa { msa_owner_public_key: acc(st(a, "owner")), msa_owner_proof, new_key_owner_proof, add_key_payload: payload };
				let g = self.go(c, "relayer");
				if g {
					self.use_sig(format!("{}|{label}", st(a, "osigner")), exp);
					self.use_sig(format!("{}|{label}", st(a, "nsigner")), exp);
				}
				self.done(g)
			},
			"del" => self.tx(Call::delete_msa_public_key { public_key_to_delete: acc(st(a, "del")) }, st(a, "key"), a["free"] == true),
			"retire" => self.tx(Call::retire_msa {}, st(a, "key"), a["free"] == true),
			"revd" => self.tx(Call::revoke_delegation_by_delegator { provider_msa_id: self.id(int(a, "id")) }, st(a, "key"), a["free"] == true),
			"revp" => self.tx(Call::revoke_delegation_by_provider { delegator: self.id(int(a, "id")) }, st(a, "key"), a["free"] == true),
			"revs" => {
				let c = Call::revoke_schema_permissions { provider_msa_id: self.id(int(a, "id")), schema_ids: ints(&a["schemas"]).iter().map(|s| *s as u16).collect() };
				let g = self.go(c, st(a, "key"));
				self.done(g)
			},
			"provider" => {
				let g = self.go(Call::create_provider { provider_name: st(a, "name").into() }, st(a, "key"));
				self.done(g)
			},
			"propose" => {
				PROPOSED.with(|p| p.borrow_mut().clear());
				if !self.go(Call::propose_to_be_provider { provider_name: st(a, "name").into() }, st(a, "key")) {
					return err();
				}
				let ps = PROPOSED.with(|p| p.borrow().clone());
				if ps.len() != 1 || ps[0].0 != 1 {
					return json!({"r": "not one proposal of threshold one"});
				}
				// the council enacts it
				mini::ext::clear_events();
				let g = ps[0].1.clone().dispatch_bypass_filter(RuntimeOrigin::root()).is_ok();
				json!({"r": "ok", "enacted": if g { "ok" } else { "err" }, "ev": if g { self.events() } else { json!([]) }})
			},
			"govern" => {
				let o = if a["root"] == true { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(st(a, "key"))) };
				let c = Call::create_provider_via_governance { provider_key: acc(st(a, "key")), provider_name: st(a, "name").into() };
				mini::ext::clear_events();
				let g = RuntimeCall::from(c).dispatch_bypass_filter(o).is_ok();
				self.done(g)
			},
			"hclaim" => self.hcall(a, false),
			"hretire" => self.hcall(a, true),
			"block" => {
				for _ in 0..int(a, "n") {
					let b = System::block_number();
					AllPalletsWithSystem::on_finalize(b);
					System::set_block_number(b + 1);
					AllPalletsWithSystem::on_initialize(b + 1);
				}
				let b = System::block_number();
				self.x.used.retain(|u| u.1 > b);
				ok()
			},
			"ask" => {
				let b = match int(a, "b") {
					-1 => None,
					b => Some(b as u32),
				};
				let max = self.max();
				let (mut valid, mut grants, mut perms) = (vec![], vec![], vec![]);
				let mut phantom = false;
				for d in 1..=max {
					let (dd, mut all) = (DelegatorId(self.id(d)), vec![]);
					for p in 1..=max {
						let pp = ProviderId(self.id(p));
						let exists = Msa::get_delegation(dd, pp).is_some();
						match Msa::ensure_valid_delegation(pp, dd, b) {
							Ok(i) => {
								valid.push(json!([d, p]));
								phantom |= Some(i) != Msa::get_delegation_of(dd, pp);
							},
							Err(_) => {},
						}
						if !exists {
							phantom |= Msa::ensure_valid_delegation(pp, dd, b).is_ok() || Msa::get_granted_schemas_by_msa_id(dd, Some(pp)).is_ok();
							continue;
						}
						for s in 0..=(int(&self.cfg, "nschemas") + 1) {
							if Msa::ensure_valid_schema_grant(pp, dd, s as u16, b.unwrap_or(System::block_number())).is_ok() {
								grants.push(json!([d, p, s]));
							}
						}
						match Msa::get_granted_schemas_by_msa_id(dd, Some(pp)) {
							Ok(r) => {
								phantom |= r.len() != 1 || r[0].permissions.is_empty();
								all.extend(r);
							},
							Err(_) => all.push(DelegationResponse { provider_id: pp, permissions: vec![] }),
						}
					}
					let mut every = Msa::get_granted_schemas_by_msa_id(dd, None).unwrap_or_default();
					every.sort_by_key(|r| r.provider_id.0);
					all.sort_by_key(|r| r.provider_id.0);
					phantom |= every != all;
					for r in every {
						for g in r.permissions {
							perms.push(json!([d, self.rel(r.provider_id.0), g.schema_id, g.revoked_at]));
						}
					}
				}
				json!({"r": if phantom { "queries disagree" } else { "ok" }, "valid_set": valid, "grants_set": grants, "perms_set": perms})
			},
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let max = self.max();
		let mut key = Map::new();
		let mut bound = 0;
		for k in self.keys() {
			let v = Msa::get_owner_of(&acc(&k));
			bound += v.is_some() as usize;
			let same = v == <Msa as MsaLookup>::get_msa_id(&acc(&k)) && v == <Msa as MsaValidator>::ensure_valid_msa_key(&acc(&k)).ok() && v != Some(0);
			key.insert(k, if same { json!(v.map_or(0, |i| self.rel(i))) } else { json!(-1) });
		}
		let ids: Vec<u64> = (1..=max).map(|r| self.id(r)).collect();
		let cnt: Vec<u8> = ids.iter().map(|i| Msa::get_public_key_count_by_msa_id(*i)).collect();
		let prov: Vec<String> = ids
			.iter()
			.map(|i| {
				let e = Msa::get_provider_registry_entry(ProviderId(*i));
				if e.is_some() != Msa::is_registered_provider(*i) || e.is_some() != <Msa as TargetValidator>::validate(*i) {
					return "registry disagrees".into();
				}
				e.map_or("-".into(), |e| String::from_utf8_lossy(&e.provider_name).to_string())
			})
			.collect();
		let hdl: Vec<bool> = ids.iter().map(|i| Handles::get_handle_for_msa(*i).is_some()).collect();
		let mut del = vec![];
		for (d, p, i) in pallet_msa::DelegatorAndProviderToDelegation::<Rt>::iter() {
			let sch: Vec<Value> = i.schema_permissions.iter().map(|(s, b)| json!([s, b])).collect();
			del.push(json!({"d": self.rel(d.0), "p": self.rel(p.0), "rev": i.revoked_at, "sch_set": sch}));
		}
		let mut reg = vec![];
		if let Some(p) = Msa::get_payload_signature_pointer() {
			let mut s = p.oldest.clone();
			while s != p.newest && reg.len() < p.count as usize {
				match Msa::get_payload_signature_registry(s.clone()) {
					None => {
						reg.push(json!(["broken link", 0]));
						break;
					},
					Some((e, n)) => {
						reg.push(json!([self.label(&s), e]));
						s = n;
					},
				}
			}
			reg.push(json!([self.label(&s), p.newest_expires_at]));
			if reg.len() != p.count as usize || entries("Msa", "PayloadSignatureRegistryList") + 1 != p.count as usize {
				reg.push(json!(["count disagrees", p.count]));
			}
		}
		let used: Vec<Value> = self.x.used.iter().map(|(l, e)| json!([l, e])).collect();
		let mut out = json!({"block": System::block_number(), "key": key, "max": max, "cnt": cnt, "prov": prov, "hdl": hdl, "del_set": del, "reg": reg, "used_set": used});
		let counted = cnt.iter().filter(|c| **c > 0).count();
		if pallet_msa::PublicKeyToMsaId::<Rt>::iter().count() != bound || entries("Msa", "PublicKeyCountForMsaId") != counted {
			out["extra"] = json!("stray key entries");
		}
		if pallet_msa::ProviderToRegistryEntry::<Rt>::iter().count() != prov.iter().filter(|p| *p != "-").count() {
			out["extra"] = json!("stray registry entries");
		}
		out
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let keys = self.keys();
		let max = self.max();
		let n = System::block_number() as i64;
		let w = int(&self.cfg, "window");
		let bound: Vec<String> = keys.iter().filter(|k| Msa::get_owner_of(&acc(k)).is_some()).cloned().collect();
		let unbound: Vec<String> = keys.iter().filter(|k| Msa::get_owner_of(&acc(k)).is_none()).cloned().collect();
		let of = |k: &String| self.rel(Msa::get_owner_of(&acc(k)).unwrap_or(0));
		let some = |v: &Vec<String>, rng: &mut Rng| if v.is_empty() || rng.chance(8) { rng.pick(&keys).clone() } else { rng.pick(v).clone() };
		let provs: Vec<String> = bound.iter().filter(|k| Msa::is_registered_provider(Msa::get_owner_of(&acc(k)).unwrap())).cloned().collect();
		let exp = |rng: &mut Rng| (if rng.chance(85) { n + rng.range(1, w - 1) } else { n + rng.range(-1, w + 1) }).max(0);
		let schemas = |rng: &mut Rng| -> Vec<i64> {
			let top = int(&self.cfg, "nschemas") + (rng.chance(6) as i64);
			let mut v = vec![];
			let more = if rng.chance(10) { 1 } else { -1 };
			for _ in 0..rng.range(0, int(&self.cfg, "maxgrants") + more) {
				let s = rng.range(1, top);
				if !v.contains(&s) || rng.chance(10) {
					v.push(s)
				}
			}
			v
		};
		let names = ["P", "Provider", "0123456789abcdef", "0123456789abcdefg", ""];
		let free = rng.chance(80);
		match rng.weighted(&[9, 14, 22, 14, 8, 5, 8, 8, 7, 6, 3, 2, 4, 4, 22, 8]) {
			0 => json!({"k": "create", "key": some(&unbound, rng)}),
			c @ (1 | 2) => {
				let key = if c == 1 { some(&unbound, rng) } else { some(&bound, rng) };
				let by = some(&provs, rng);
				let auth = if rng.chance(93) { of(&by) } else { rng.range(0, max + 1) };
				json!({"k": if c == 1 { "sponsor" } else { "grant" }, "by": by, "key": key, "signer": if rng.chance(95) { key.clone() } else { rng.pick(&keys).clone() },
					"tamper": if rng.chance(94) { "none" } else { *rng.pick(&["auth", "exp", "schemas", "unwrapped"]) }, "auth": auth, "schemas": schemas(rng), "exp": exp(rng)})
			},
			3 => {
				let owner = some(&bound, rng);
				let key = some(&unbound, rng);
				let msa = if rng.chance(93) { of(&owner) } else { rng.range(0, max + 1) };
				let t = |rng: &mut Rng| if rng.chance(95) { "none" } else { *rng.pick(&["msa", "exp", "key", "unwrapped"]) };
				json!({"k": "addkey", "owner": owner, "key": key, "osigner": if rng.chance(95) { owner.clone() } else { rng.pick(&keys).clone() }, "nsigner": if rng.chance(95) { key.clone() } else { rng.pick(&keys).clone() },
					"otamper": t(rng), "ntamper": t(rng), "msa": msa, "exp": exp(rng)})
			},
			4 => {
				let key = some(&bound, rng);
				let same: Vec<String> = bound.iter().filter(|k| of(k) == of(&key)).cloned().collect();
				json!({"k": "del", "key": key, "del": if rng.chance(70) { some(&same, rng) } else { some(&bound, rng) }, "free": free})
			},
			5 => json!({"k": "retire", "key": some(&bound, rng), "free": true}),
			c @ (6 | 7) => {
				let key = some(&bound, rng);
				let other: Vec<i64> = pallet_msa::DelegatorAndProviderToDelegation::<Rt>::iter()
					.map(|(d, p, _)| (self.rel(d.0), self.rel(p.0)))
					.filter_map(|(d, p)| if c == 6 && d == of(&key) { Some(p) } else if c == 7 && p == of(&key) { Some(d) } else { None })
					.collect();
				let mut other = other;
				other.sort();
				json!({"k": if c == 6 { "revd" } else { "revp" }, "key": key, "id": if other.is_empty() || rng.chance(15) { rng.range(0, max + 1) } else { *rng.pick(&other) }, "free": free})
			},
			8 => {
				let mut all: Vec<(i64, i64, Vec<i64>)> = pallet_msa::DelegatorAndProviderToDelegation::<Rt>::iter().map(|(d, p, i)| (self.rel(d.0), self.rel(p.0), i.schema_permissions.keys().map(|x| *x as i64).collect())).collect();
				all.sort();
				if all.is_empty() || rng.chance(15) {
					return json!({"k": "revs", "key": some(&bound, rng), "id": rng.range(0, max + 1), "schemas": schemas(rng)});
				}
				let (d, p, s) = rng.pick(&all).clone();
				let ks: Vec<String> = bound.iter().filter(|k| of(k) == d).cloned().collect();
				let mut ids: Vec<i64> = s.into_iter().filter(|_| rng.chance(60)).collect();
				if rng.chance(15) {
					ids.extend(schemas(rng));
				}
				json!({"k": "revs", "key": some(&ks, rng), "id": p, "schemas": ids})
			},
			9 => json!({"k": "provider", "key": some(&bound, rng), "name": rng.pick(&names)}),
			10 => json!({"k": "propose", "key": some(&bound, rng), "name": rng.pick(&names)}),
			11 => json!({"k": "govern", "key": some(&bound, rng), "name": rng.pick(&names), "root": rng.chance(70)}),
			12 => json!({"k": "hclaim", "key": some(&bound, rng)}),
			13 => json!({"k": "hretire", "key": some(&bound, rng)}),
			14 => json!({"k": "block", "n": if rng.chance(75) { 1 } else { rng.range(1, w + 1) }}),
			_ => json!({"k": "ask", "b": rng.range(-1, n + 1)}),
		}
	}
	fn save(&self) -> X {
		self.x.clone()
	}
	fn load(&mut self, e: &X) {
		self.x = e.clone();
	}
}
fn main() {
	drv::main(D::default());
}
