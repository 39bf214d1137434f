//! Conformance driver for spec/Stateful.tla: pallet-stateful-storage with the real msa and schemas pallets.
use cfgs::*;
use common_primitives::msa::*;
use common_primitives::schema::*;
use common_primitives::stateful_storage::*;
use drv::*;
use frame_support::traits::UnfilteredDispatchable;
use frame_support::BoundedVec;
use pallet_stateful_storage::types::*;
use parity_scale_codec::Encode;
use sp_runtime::MultiSignature;
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Msa: pallet_msa,
		Handles: pallet_handles,
		Schemas: pallet_schemas,
		Store: pallet_stateful_storage,
	}
);
system_config!(Rt);
msa_config!(Rt, schemas = Schemas, handles = Handles);
handles_config!(Rt, msa = Msa);
schemas_config!(Rt);
stateful_config!(Rt, msa = Msa, schemas = Schemas);
type Call = pallet_stateful_storage::Call<Rt>;
type Event = pallet_stateful_storage::Event<Rt>;
type Act = ItemAction<MaxItemizedBlobSizeBytes>;
type Acts = BoundedVec<Act, MaxItemizedActionsCount>;

#[derive(Clone, Default)]
struct X {
	/// content label -> content hash, as the code told them
	hash: BTreeMap<String, u32>,
	clash: bool,
}
#[derive(Default)]
struct D {
	cfg: Value,
	x: X,
}
#[derive(Clone)]
struct P {
	m: String,
	s: u16,
	p: i64,
	n: u16,
	v: Value,
	hash: u32,
}
fn blob(v: &Value) -> Vec<u8> {
	vec![v[0].as_str().unwrap().bytes().next().unwrap_or(0); v[1].as_u64().unwrap() as usize]
}
fn name(b: &[u8]) -> Value {
	let c = match b.first() {
		None => "".to_string(),
		Some(c) if b.iter().all(|x| x == c) => (*c as char).to_string(),
		_ => "?".to_string(),
	};
	json!([c, b.len()])
}
fn page_v(b: &[u8]) -> Value {
	if b.is_empty() { json!([]) } else { json!([name(b)]) }
}
/// Item lists and pages are laid out differently, so the same content has another hash in each.
fn label(items: bool, t: &Value) -> String {
	format!("{}{t}", if items { "i" } else { "p" })
}
impl D {
	fn keys(&self) -> Vec<String> {
		self.cfg["keys"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
	}
	fn names(&self) -> Vec<String> {
		self.cfg["msas"].as_object().unwrap().keys().cloned().collect()
	}
	fn msa(&self, n: &str) -> u64 {
		self.cfg["msas"].get(n).map_or(999, |v| v.as_str().unwrap().parse().unwrap())
	}
	fn msa_name(&self, id: u64) -> String {
		self.names().into_iter().find(|n| self.msa(n) == id).unwrap_or("?".into())
	}
	fn key_msa(&self, k: &str) -> String {
		Msa::get_owner_of(&acc(k)).map_or("-".into(), |i| self.msa_name(i))
	}
	fn learn(&mut self, p: &P) {
		if p.v == json!([]) {
			self.x.clash |= p.hash != 0;
			return;
		}
		let l = label(p.p < 0, &json!([p.n, p.v]));
		match self.x.hash.get(&l) {
			Some(h) => self.x.clash |= *h != p.hash,
			None => {
				let same_kind = |k: &str| k.starts_with('i') == (p.p < 0);
				self.x.clash |= p.hash == 0 || self.x.hash.iter().any(|(k, h)| *h == p.hash && same_kind(k));
				self.x.hash.insert(l, p.hash);
			},
		}
	}
	fn hash_of(&self, w: &str, t: &Value) -> u32 {
		if t == &json!([0, []]) {
			return 0;
		}
		self.x.hash.get(&label(w == "items", t)).copied().unwrap_or(0xBAD0_0BAD)
	}
	/// everything the queries return; the second part is set when they contradict each other
	fn pages(&self) -> (Vec<P>, bool) {
		let (mut out, mut odd) = (vec![], false);
		for m in self.names() {
			let id = self.msa(&m);
			for sc in self.cfg["schemas"].as_array().unwrap() {
				let s = sc["id"].as_u64().unwrap() as u16;
				match (st(sc, "loc"), Store::get_itemized_storage(id, s), Store::get_paginated_storage(id, s)) {
					("items", Ok(r), Err(_)) => {
						odd |= r.msa_id != id || r.schema_id != s || r.items.iter().enumerate().any(|(i, x)| x.index as usize != i);
						let v: Vec<Value> = r.items.iter().map(|i| name(&i.payload)).collect();
						if !v.is_empty() {
							out.push(P { m: m.clone(), s, p: -1, n: r.nonce, v: v.into(), hash: r.content_hash });
						} else {
							odd |= r.content_hash != 0 || r.nonce != 0;
						}
					},
					("pages", Err(_), Ok(l)) =>
						for r in l {
							odd |= r.msa_id != id || r.schema_id != s;
							out.push(P { m: m.clone(), s, p: r.page_id as i64, n: r.nonce, v: page_v(&r.payload), hash: r.content_hash });
						},
					("chain", Err(_), Err(_)) => {},
					_ => odd = true,
				}
			}
		}
		odd |= mini::ext::child_total() != out.len();
		odd |= Store::get_itemized_storage(self.msa(&self.names()[0]), 9999).is_ok() || Store::get_paginated_storage(self.msa(&self.names()[0]), 9999).is_ok();
		(out, odd)
	}
	fn page_hash(&self, m: &str, s: u16, p: i64) -> u32 {
		let id = self.msa(m);
		if p < 0 {
			Store::get_itemized_storage(id, s).map_or(0, |r| r.content_hash)
		} else {
			Store::get_paginated_storage(id, s).ok().and_then(|l| l.into_iter().find(|r| r.page_id as i64 == p)).map_or(0, |r| r.content_hash)
		}
	}
	fn acts(a: &Value) -> Option<Acts> {
		let mut v: Vec<Act> = vec![];
		for x in a["acts"].as_array().unwrap() {
			v.push(match x[0].as_str().unwrap() {
				"add" => ItemAction::Add { data: blob(&x[1]).try_into().ok()? },
				_ => ItemAction::Delete { index: x[1].as_u64().unwrap() as u16 },
			});
		}
		v.try_into().ok()
	}
	fn go(&mut self, call: Call, who: &str, m: &str, s: u16, p: i64) -> Value {
		mini::ext::clear_events();
		let before = self.page_hash(m, s, p);
		if RuntimeCall::from(call).dispatch_bypass_filter(RuntimeOrigin::signed(acc(who))).is_err() {
			return err();
		}
		for p in self.pages().0 {
			self.learn(&p);
		}
		let after = self.page_hash(m, s, p);
		let mut ev = vec![];
		for e in System::events() {
			if let RuntimeEvent::Store(e) = e.event {
				let (n, id, s, p, prev, cur) = match e {
					Event::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash } => ("put", msa_id, schema_id, -1, prev_content_hash, curr_content_hash),
					Event::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash } => ("gone", msa_id, schema_id, -1, prev_content_hash, 0),
					Event::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash, curr_content_hash } => ("put", msa_id, schema_id, page_id as i64, prev_content_hash, curr_content_hash),
					Event::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash } => ("gone", msa_id, schema_id, page_id as i64, prev_content_hash, 0),
					_ => ("other", 0, 0, 0, 0, 0),
				};
				ev.push(json!([if prev == before && cur == after { n } else { "wrong hashes" }, self.msa_name(id), s, p]));
			}
		}
		json!({"r": "ok", "ev": ev})
	}
	fn write(&mut self, a: &Value) -> Value {
		let (by, owner, schema_id, page_id) = (st(a, "by"), st(a, "owner"), int(a, "s") as u16, int(a, "p") as u16);
		let (state_owner_msa_id, target_hash) = (self.msa(owner), self.hash_of(st(a, "w"), &a["target"]));
		match st(a, "w") {
			"items" => match Self::acts(a) {
				None => err(),
				Some(actions) => self.go(Call::apply_item_actions { state_owner_msa_id, schema_id, target_hash, actions }, by, owner, schema_id, -1),
			},
			"page" => match blob(&a["data"]).try_into() {
				Err(_) => err(),
				Ok(payload) => self.go(Call::upsert_page { state_owner_msa_id, schema_id, page_id, target_hash, payload }, by, owner, schema_id, page_id as i64),
			},
			_ => self.go(Call::delete_page { state_owner_msa_id, schema_id, page_id, target_hash }, by, owner, schema_id, page_id as i64),
		}
	}
	#[allow(deprecated)]
	fn signed(&mut self, a: &Value) -> Value {
		let (key, schema_id, page_id, expiration, v1) = (st(a, "key"), int(a, "s") as u16, int(a, "p") as u16, int(a, "exp") as u32, int(a, "v") == 1);
		let (msa_id, target_hash, tamper) = (self.msa(st(a, "msa")), self.hash_of(st(a, "w"), &a["target"]), st(a, "tamper"));
		let who = self.key_msa(key);
		let delegator_key = acc(key);
		let signer = st(a, "signer");
		let sig = |b: Vec<u8>| -> MultiSignature { if tamper == "unwrapped" { sign(signer, &b) } else { sign_wrapped(signer, &b) } };
		let (mut s2, mut t2, mut e2, mut p2) = (schema_id, target_hash, expiration, page_id);
		match tamper {
			"s" => s2 ^= 0x100,
			"target" => t2 ^= 1,
			"exp" => e2 += 1,
			"page" => p2 ^= 1,
			_ => {},
		}
		let as_v1 = v1 != (tamper == "v");
		match st(a, "w") {
			"items" => {
				let Some(actions) = Self::acts(a) else { return err() };
				let mut b2 = actions.clone();
				if tamper == "body" || tamper == "page" {
					if b2.pop().is_none() {
						let _ = b2.try_push(ItemAction::Delete { index: 0 });
					}
				}
				let bytes = if as_v1 {
					ItemizedSignaturePayload::<Rt> { msa_id, schema_id: s2, target_hash: t2, expiration: e2, actions: b2 }.encode()
				} else {
					ItemizedSignaturePayloadV2::<Rt> { schema_id: s2, target_hash: t2, expiration: e2, actions: b2 }.encode()
				};
				let proof = sig(bytes);
				let c = if v1 {
					Call::apply_item_actions_with_signature { delegator_key, proof, payload: ItemizedSignaturePayload { msa_id, schema_id, target_hash, expiration, actions } }
				} else {
					Call::apply_item_actions_with_signature_v2 { delegator_key, proof, payload: ItemizedSignaturePayloadV2 { schema_id, target_hash, expiration, actions } }
				};
				self.go(c, "relayer", &who, schema_id, -1)
			},
			"page" => {
				let Ok(payload) = BoundedVec::<u8, MaxPaginatedPageSizeBytes>::try_from(blob(&a["data"])) else { return err() };
				let mut b2 = payload.clone();
				if tamper == "body" && b2.pop().is_none() {
					let _ = b2.try_push(7);
				}
				let bytes = if as_v1 {
					PaginatedUpsertSignaturePayload::<Rt> { msa_id, schema_id: s2, page_id: p2, target_hash: t2, expiration: e2, payload: b2 }.encode()
				} else {
					PaginatedUpsertSignaturePayloadV2::<Rt> { schema_id: s2, page_id: p2, target_hash: t2, expiration: e2, payload: b2 }.encode()
				};
				let proof = sig(bytes);
				let c = if v1 {
					Call::upsert_page_with_signature { delegator_key, proof, payload: PaginatedUpsertSignaturePayload { msa_id, schema_id, page_id, target_hash, expiration, payload } }
				} else {
					Call::upsert_page_with_signature_v2 { delegator_key, proof, payload: PaginatedUpsertSignaturePayloadV2 { schema_id, page_id, target_hash, expiration, payload } }
				};
				self.go(c, "relayer", &who, schema_id, page_id as i64)
			},
			_ => {
				if tamper == "body" {
					p2 ^= 1;
				}
				let bytes = if as_v1 {
					PaginatedDeleteSignaturePayload::<Rt> { msa_id, schema_id: s2, page_id: p2, target_hash: t2, expiration: e2 }.encode()
				} else {
					PaginatedDeleteSignaturePayloadV2::<Rt> { schema_id: s2, page_id: p2, target_hash: t2, expiration: e2 }.encode()
				};
				let proof = sig(bytes);
				let c = if v1 {
					Call::delete_page_with_signature { delegator_key, proof, payload: PaginatedDeleteSignaturePayload { msa_id, schema_id, page_id, target_hash, expiration } }
				} else {
					Call::delete_page_with_signature_v2 { delegator_key, proof, payload: PaginatedDeleteSignaturePayloadV2 { schema_id, page_id, target_hash, expiration } }
				};
				self.go(c, "relayer", &who, schema_id, page_id as i64)
			},
		}
	}
}
fn done(r: Result<(), sp_runtime::DispatchError>) -> Value {
	if r.is_ok() { json!({"r": "ok"}) } else { err() }
}
fn atomically(f: impl FnOnce() -> Result<(), sp_runtime::DispatchError>) -> Value {
	done(frame_support::storage::with_storage_layer(f))
}
impl Sut for D {
	type Extra = X;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.x = X::default();
		msa_defaults();
		handles_defaults();
		schemas_defaults();
		set_param("MinSchemaModelSizeBytes", 2);
		set_param("MaxItemizedBlobSizeBytes", int(cfg, "blob") as u64);
		set_param("MaxItemizedActionsCount", int(cfg, "maxacts") as u64);
		set_param("MaxItemizedPageSizeBytes", int(cfg, "ipage") as u64);
		set_param("MaxPaginatedPageSizeBytes", int(cfg, "ppage") as u64);
		set_param("MaxPaginatedPageId", int(cfg, "maxpage") as u64);
		set_param("StatefulMortality", int(cfg, "window") as u64);
		System::set_block_number(1);
		RuntimeCall::from(pallet_schemas::Call::<Rt>::set_max_schema_model_bytes { max_size: 65000 }).dispatch_bypass_filter(RuntimeOrigin::root()).expect("size");
		for sc in cfg["schemas"].as_array().unwrap() {
			Schemas::set_schema_count(int(sc, "id") as u16 - 1);
			let loc = match st(sc, "loc") {
				"items" => PayloadLocation::Itemized,
				"pages" => PayloadLocation::Paginated,
				_ => PayloadLocation::OnChain,
			};
			let mut settings = vec![];
			if sc["append"] == true {
				settings.push(SchemaSetting::AppendOnly);
			}
			if sc["signed"] == true {
				settings.push(SchemaSetting::SignatureRequired);
			}
			let c = pallet_schemas::Call::<Rt>::create_schema_v3 { model: b"{\"a\":\"b\"}".to_vec().try_into().unwrap(), model_type: ModelType::AvroBinary, payload_location: loc, settings: settings.try_into().unwrap(), schema_name: None };
			RuntimeCall::from(c).dispatch_bypass_filter(RuntimeOrigin::signed(acc("x"))).expect("schema");
		}
		for a in cfg["pre"].as_array().unwrap() {
			self.apply(a);
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		let dp = |d: &D| (DelegatorId(d.msa(st(a, "d"))), ProviderId(d.msa(st(a, "p"))));
		match st(a, "k") {
			"key" => {
				let m = self.msa(st(a, "m"));
				atomically(|| Msa::add_key(m, &acc(st(a, "key")), |_| Ok(())))
			},
			"unkey" => match Msa::get_owner_of(&acc(st(a, "key"))) {
				Some(m) => atomically(|| Msa::delete_key_for_msa(m, &acc(st(a, "key")))),
				None => err(),
			},
			"allow" => {
				let (d, p) = dp(self);
				let l = a["schemas"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
				atomically(|| Msa::upsert_schema_permissions(p, d, l))
			},
			"deny" => {
				let (d, p) = dp(self);
				atomically(|| Msa::revoke_permissions_for_schemas(d, p, vec![int(a, "s") as u16]))
			},
			"cut" => {
				let (d, p) = dp(self);
				atomically(|| Msa::revoke_provider(p, d))
			},
			"block" => {
				for _ in 0..int(a, "n") {
					let b = System::block_number();
					AllPalletsWithSystem::on_finalize(b);
					System::set_block_number(b + 1);
					AllPalletsWithSystem::on_initialize(b + 1);
				}
				ok()
			},
			"worn" => {
				// A page rewritten with the same content until its nonce is the wanted one: real writes, by a key of the owner.
				let (owner, s, p, n) = (st(a, "m"), int(a, "s") as u16, int(a, "p"), int(a, "n") as u16);
				let m = self.msa(owner);
				let by = self.keys().into_iter().find(|k| self.key_msa(k) == owner).expect("a key of the owner");
				let data = blob(&a["v"][0]);
				let nonce = || {
					if p < 0 {
						Store::get_itemized_storage(m, s).ok().filter(|r| !r.items.is_empty()).map(|r| r.nonce)
					} else {
						Store::get_paginated_storage(m, s).ok().and_then(|l| l.into_iter().find(|r| r.page_id as i64 == p)).map(|r| r.nonce)
					}
				};
				let mut left = 70000;
				while nonce() != Some(n) {
					left -= 1;
					let target_hash = self.page_hash(owner, s, p);
					let call = if p < 0 {
						let mut l = vec![ItemAction::Add { data: data.clone().try_into().unwrap() }];
						if nonce().is_some() {
							l.insert(0, ItemAction::Delete { index: 0 });
						}
						Call::apply_item_actions { state_owner_msa_id: m, schema_id: s, target_hash, actions: l.try_into().unwrap() }
					} else {
						Call::upsert_page { state_owner_msa_id: m, schema_id: s, page_id: p as u16, target_hash, payload: data.clone().try_into().unwrap() }
					};
					if left == 0 || call.dispatch_bypass_filter(RuntimeOrigin::signed(acc(&by))).is_err() {
						return err();
					}
					mini::ext::clear_events();
				}
				for p in self.pages().0 {
					self.learn(&p);
				}
				ok()
			},
			"write" => self.write(a),
			"signed" => self.signed(a),
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let (pages, odd) = self.pages();
		let key: Map<String, Value> = self.keys().into_iter().map(|k| { let m = self.key_msa(&k); (k, json!(m)) }).collect();
		let mut del = vec![];
		for (d, p, i) in pallet_msa::DelegatorAndProviderToDelegation::<Rt>::iter() {
			let sch: Vec<Value> = i.schema_permissions.iter().map(|(s, b)| json!([s, b])).collect();
			del.push(json!({"d": self.msa_name(d.0), "p": self.msa_name(p.0), "rev": i.revoked_at, "sch_set": sch}));
		}
		let mut known = true;
		for p in &pages {
			known &= p.v == json!([]) || self.x.hash.get(&label(p.p < 0, &json!([p.n, p.v]))) == Some(&p.hash);
		}
		let ps: Vec<Value> = pages.iter().map(|p| json!({"m": p.m, "s": p.s, "p": p.p, "n": p.n, "v": p.v})).collect();
		let mut out = json!({"block": System::block_number(), "key": key, "del_set": del, "page_set": ps});
		if odd {
			out["reads"] = json!("queries disagree");
		}
		if self.x.clash || !known {
			out["clash"] = json!("two contents share a hash, or a content changed its hash");
		}
		out
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let (names, keys) = (self.names(), self.keys());
		let schemas: Vec<(i64, String)> = self.cfg["schemas"].as_array().unwrap().iter().map(|s| (int(s, "id"), st(s, "loc").to_string())).collect();
		let (blobmax, ppage, maxpage, maxacts, w) = (int(&self.cfg, "blob"), int(&self.cfg, "ppage"), int(&self.cfg, "maxpage"), int(&self.cfg, "maxacts"), int(&self.cfg, "window"));
		let now = System::block_number() as i64;
		match rng.weighted(&[3, 1, 6, 3, 2, 4, 40, 40]) {
			0 => json!({"k": "key", "key": rng.pick(&keys), "m": rng.pick(&names)}),
			1 => json!({"k": "unkey", "key": rng.pick(&keys)}),
			2 => {
				let n = rng.range(0, 6);
				let l: Vec<i64> = (0..n).map(|_| rng.pick(&schemas).0).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
				let (d, p) = (rng.pick(&names).clone(), rng.pick(&names).clone());
				json!({"k": "allow", "d": d, "p": p, "schemas": l})
			},
			3 => {
				let (d, p, s) = (rng.pick(&names).clone(), rng.pick(&names).clone(), rng.pick(&schemas).0);
				json!({"k": "deny", "d": d, "p": p, "s": s})
			},
			4 => {
				let (d, p) = (rng.pick(&names).clone(), rng.pick(&names).clone());
				json!({"k": "cut", "d": d, "p": p})
			},
			5 => json!({"k": "block", "n": if rng.chance(80) { 1 } else { rng.range(1, w) }}),
			c => {
				let (pages, _) = self.pages();
				let (owner, key, by);
				let bound: Vec<String> = keys.iter().filter(|k| self.key_msa(k) != "-").cloned().collect();
				key = if bound.is_empty() || rng.chance(5) { rng.pick(&keys).clone() } else { rng.pick(&bound).clone() };
				if c == 6 {
					by = key.clone();
					owner = if rng.chance(45) { let m = self.key_msa(&by); if m == "-" { "o".to_string() } else { m } } else { rng.pick(&names).clone() };
				} else {
					by = String::new();
					owner = self.key_msa(&key);
				}
				let mut live: Vec<P> = pages.iter().filter(|p| p.m == owner).cloned().collect();
				// now and then aim at a page of somebody else
				if rng.chance(3) {
					live = pages.clone();
				}
				let kind = *rng.pick(&["items", "items", "page", "page", "drop"]);
				let fit: Vec<&P> = live.iter().filter(|p| (p.p < 0) == (kind == "items")).collect();
				let (s, p) = if !fit.is_empty() && rng.chance(70) {
					let g = rng.pick(&fit);
					(g.s as i64, g.p.max(0))
				} else {
					let same: Vec<i64> = schemas.iter().filter(|x| x.1 == if kind == "items" { "items" } else { "pages" }).map(|x| x.0).collect();
					let s = if rng.chance(96) { *rng.pick(&same) } else { rng.pick(&schemas).0 };
					let p = if kind == "items" { 0 } else { *rng.pick(&[0, 0, 1, 2, maxpage, maxpage + 1, 256]) };
					(s, p)
				};
				let cur = pages.iter().find(|g| g.m == owner && g.s as i64 == s && g.p == if kind == "items" { -1 } else { p });
				let len = cur.map_or(0, |g| g.v.as_array().unwrap().len() as i64);
				let mut target = cur.map_or(json!([0, []]), |g| if g.v == json!([]) { json!([0, []]) } else { json!([g.n, g.v]) });
				if rng.chance(10) && !self.x.hash.is_empty() {
					let l: Vec<String> = self.x.hash.keys().cloned().collect();
					let pick: &String = rng.pick(&l);
					target = serde_json::from_str(&pick[1..]).unwrap();
				} else if rng.chance(4) {
					target = json!([0, []]);
				}
				let size = |rng: &mut Rng, max: i64| match rng.below(8) {
					0 => max,
					1 => max + 1,
					2 => 0,
					3 => rng.range(0, max),
					_ => rng.range(1, 6).min(max),
				};
				let letter = |rng: &mut Rng, n: i64| if n == 0 { "".to_string() } else { rng.pick(&["a", "b", "c"]).to_string() };
				let mut acts = vec![];
				if kind == "items" {
					let n = *rng.pick(&[0, 1, 1, 1, 2, 2, 3, maxacts, maxacts + 1]);
					let mut dels: Vec<i64> = vec![];
					for _ in 0..n {
						if rng.chance(if len > 6 { 60 } else { 40 }) && len > 0 {
							let top = if rng.chance(92) { len - 1 } else { len };
							let i = rng.range(0, top);
							if dels.contains(&i) && rng.chance(90) {
								continue;
							}
							dels.push(i);
							acts.push(json!(["del", i]));
						} else {
							let n = size(rng, blobmax);
							let c = letter(rng, n);
							acts.push(json!(["add", [c, n]]));
						}
					}
				}
				let n = if kind == "page" { size(rng, ppage) } else { 0 };
				let data = json!([letter(rng, n), n]);
				let mut a = json!({"w": kind, "s": s, "p": p, "target": target, "acts": acts, "data": data});
				if c == 6 {
					a["k"] = json!("write");
					a["by"] = json!(by);
					a["owner"] = json!(owner);
				} else {
					a["k"] = json!("signed");
					a["key"] = json!(key);
					a["signer"] = if rng.chance(93) { json!(key) } else { json!(rng.pick(&keys)) };
					a["v"] = json!(rng.range(1, 2));
					a["msa"] = if rng.chance(93) { json!(owner) } else { json!(rng.pick(&names)) };
					a["exp"] = json!(if rng.chance(85) { now + rng.range(1, w - 1) } else { now + *rng.pick(&[-1, 0, 1, w - 1, w, w + 1]) });
					a["tamper"] = if rng.chance(90) { json!("none") } else { json!(rng.pick(&["unwrapped", "s", "target", "exp", "body", "v"])) };
				}
				a
			},
		}
	}
	fn save(&self) -> X {
		self.x.clone()
	}
	fn load(&mut self, e: &X) {
		self.x = e.clone();
	}
}
fn main() {
	drv::main(D::default());
}
