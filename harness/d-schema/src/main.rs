//! Conformance driver for spec/Schemas.tla and spec/SchemaEval.tla: pallet-schemas.
use cfgs::*;
use common_primitives::schema::*;
use drv::*;
use frame_support::traits::UnfilteredDispatchable;
use frame_support::BoundedVec;
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Schemas: pallet_schemas,
	}
);
system_config!(Rt);
proposals!();
schemas_config!(Rt);
type Call = pallet_schemas::Call<Rt>;
type Event = pallet_schemas::Event<Rt>;

#[derive(Default)]
struct D {
	cfg: Value,
	texts: BTreeMap<String, Vec<u8>>,
	/// namespaces to look up
	spaces: std::collections::BTreeSet<String>,
}
fn codes(v: &Value) -> Vec<u8> {
	v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn loc(s: &str) -> PayloadLocation {
	match s {
		"chain" => PayloadLocation::OnChain,
		"ipfs" => PayloadLocation::IPFS,
		"items" => PayloadLocation::Itemized,
		_ => PayloadLocation::Paginated,
	}
}
fn loc_name(l: PayloadLocation) -> &'static str {
	match l {
		PayloadLocation::OnChain => "chain",
		PayloadLocation::IPFS => "ipfs",
		PayloadLocation::Itemized => "items",
		PayloadLocation::Paginated => "pages",
	}
}
fn set_name(s: &SchemaSetting) -> &'static str {
	match s {
		SchemaSetting::AppendOnly => "append",
		SchemaSetting::SignatureRequired => "signed",
	}
}
fn text(b: &[u8]) -> String {
	String::from_utf8_lossy(b).into()
}
fn model_type(s: &str) -> ModelType {
	if s == "avro" { ModelType::AvroBinary } else { ModelType::Parquet }
}
impl D {
	fn model_name(&self, b: &[u8]) -> String {
		self.texts.iter().find(|(_, t)| t.as_slice() == b).map_or("?".into(), |(n, _)| n.clone())
	}
	fn who(&self, k: &sp_core::crypto::AccountId32) -> String {
		["k1", "k2", "k3"].iter().find(|n| &acc(n) == k).map_or("?".into(), |n| n.to_string())
	}
	/// the call of a create action; None if the parts do not fit the call's bounds
	fn call(&self, a: &Value, what: &str) -> Option<Call> {
		let model: BoundedVec<u8, Limit> = self.texts[st(a, "model")].clone().try_into().ok()?;
		let settings: Vec<SchemaSetting> = a["settings"].as_array().unwrap().iter().map(|s| if s == "append" { SchemaSetting::AppendOnly } else { SchemaSetting::SignatureRequired }).collect();
		let settings: BoundedVec<SchemaSetting, MaxSchemaSettings> = if what == "create" && int(a, "ver") == 1 { BoundedVec::default() } else { settings.try_into().ok()? };
		let name: BoundedVec<u8, frame_support::traits::ConstU32<32>> = codes(&a["name"]).try_into().ok()?;
		let schema_name = if a["named"] == true { Some(name) } else { None };
		let (model_type, payload_location, creator_key) = (model_type(st(a, "type")), loc(st(a, "loc")), acc(st(a, "by")));
		Some(match (what, int(a, "ver")) {
			("create", 1) => Call::create_schema { model, model_type, payload_location },
			("create", 2) => Call::create_schema_v2 { model, model_type, payload_location, settings },
			("create", _) => Call::create_schema_v3 { model, model_type, payload_location, settings, schema_name },
			("govern", 1) => Call::create_schema_via_governance { creator_key, model, model_type, payload_location, settings },
			("govern", _) => Call::create_schema_via_governance_v2 { creator_key, model, model_type, payload_location, settings, schema_name },
			("propose", 1) => Call::propose_to_create_schema { model, model_type, payload_location, settings },
			_ => Call::propose_to_create_schema_v2 { model, model_type, payload_location, settings, schema_name },
		})
	}
	fn go(&self, c: RuntimeCall, o: RuntimeOrigin) -> Value {
		mini::ext::clear_events();
		// as a signed extrinsic or council motion would run it: all or nothing
		if c.dispatch_bypass_filter(o).is_err() {
			return err();
		}
		let ev: Vec<Value> = System::events()
			.into_iter()
			.filter_map(|e| match e.event {
				RuntimeEvent::Schemas(Event::SchemaCreated { key, schema_id }) => Some(json!(["schema", schema_id, self.who(&key)])),
				RuntimeEvent::Schemas(Event::SchemaNameCreated { schema_id, name }) => Some(json!(["name", schema_id, text(&name)])),
				RuntimeEvent::Schemas(Event::SchemaMaxSizeChanged { max_size }) => Some(json!(["limit", max_size])),
				_ => None,
			})
			.collect();
		json!({"r": "ok", "ev": ev})
	}
	fn versions(&self, name: Vec<u8>) -> Value {
		match Schemas::get_schema_versions(name) {
			None => json!({"r": "none"}),
			Some(l) => {
				let s: Vec<Value> = l.iter().map(|v| json!([text(&v.schema_name), v.schema_version, v.schema_id])).collect();
				json!({"r": "ok", "n": s.len(), "got_set": s})
			},
		}
	}
	fn origin(a: &Value) -> RuntimeOrigin {
		if a["root"] == true { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc("k1")) }
	}
}
impl Sut for D {
	type Extra = Vec<(u32, RuntimeCall)>;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		self.texts = cfg["models"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), codes(v))).collect();
		self.spaces = cfg["spaces"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
		mini::ext::reset();
		schemas_defaults();
		set_param("MinSchemaModelSizeBytes", int(cfg, "minsize") as u64);
		set_param("MaxSchemaSettings", int(cfg, "maxsettings") as u64);
		set_param("SchemaModelLimit", int(cfg, "hard") as u64);
		PROPOSED.with(|p| p.borrow_mut().clear());
		System::set_block_number(1);
		Call::set_max_schema_model_bytes { max_size: int(cfg, "limit") as u32 }.dispatch_bypass_filter(RuntimeOrigin::root()).expect("limit");
		for a in cfg["pre"].as_array().unwrap() {
			self.apply(a);
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		if a["name"].is_array() {
			let n = text(&codes(&a["name"])).to_lowercase();
			self.spaces.insert(n.trim().split('.').next().unwrap_or("").to_string());
		}
		match st(a, "k") {
			k @ ("create" | "govern" | "propose") => {
				let Some(c) = self.call(a, k) else { return err() };
				let o = if k == "govern" { Self::origin(a) } else { RuntimeOrigin::signed(acc(st(a, "by"))) };
				self.go(c.into(), o)
			},
			k @ ("name" | "propname") => {
				let Ok(schema_name) = codes(&a["name"]).try_into() else { return err() };
				let schema_id = int(a, "id") as u16;
				if k == "name" {
					self.go(Call::create_schema_name_via_governance { schema_id, schema_name }.into(), Self::origin(a))
				} else {
					self.go(Call::propose_to_create_schema_name { schema_id, schema_name }.into(), RuntimeOrigin::signed(acc(st(a, "by"))))
				}
			},
			"enact" => {
				let i = int(a, "i") as usize;
				let c = PROPOSED.with(|p| if i <= p.borrow().len() { Some(p.borrow_mut().remove(i - 1)) } else { None });
				match c {
					Some((_, c)) => self.go(c, RuntimeOrigin::root()),
					None => err(),
				}
			},
			"limit" => self.go(Call::set_max_schema_model_bytes { max_size: int(a, "n") as u32 }.into(), Self::origin(a)),
			"ask" => self.versions(codes(&a["name"])),
			"valid" => {
				let ids: Vec<u16> = a["ids"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
				json!({"r": "ok", "all": <Schemas as SchemaValidator<SchemaId>>::are_all_schema_ids_valid(&ids)})
			},
			"skip" => {
				<Schemas as SchemaValidator<SchemaId>>::set_schema_count(int(a, "n") as u16);
				json!({"r": "ok", "ev": []})
			},
			"bulk" => {
				for _ in 0..int(a, "n") {
					let c = self.call(a, "create").unwrap();
					self.go(c.into(), RuntimeOrigin::signed(acc(st(a, "by"))));
				}
				json!({"r": "ok", "ev": []})
			},
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let max = Schemas::get_current_schema_identifier_maximum();
		let mut sch = Map::new();
		let mut odd = false;
		let ids: std::collections::BTreeSet<u16> = (0..=max.saturating_add(2).min(420)).chain(max.saturating_sub(10)..=max.saturating_add(2)).collect();
		for id in ids {
			let r = <Schemas as SchemaProvider<SchemaId>>::get_schema_by_id(id);
			let i = <Schemas as SchemaProvider<SchemaId>>::get_schema_info_by_id(id);
			match (r, i) {
				(None, None) => {},
				(Some(r), Some(i)) => {
					odd |= r.schema_id != id || i.schema_id != id || r.model_type != i.model_type || r.payload_location != i.payload_location || r.settings != i.settings;
					let named = Schemas::get_schema_info(id).map_or(false, |x| x.has_name);
					let set: Vec<&str> = r.settings.iter().map(set_name).collect();
					sch.insert(id.to_string(), json!({"model": self.model_name(&r.model), "type": if r.model_type == ModelType::AvroBinary { "avro" } else { "parquet" }, "loc": loc_name(r.payload_location), "set_set": set, "named": named}));
				},
				_ => odd = true,
			}
		}
		let mut names: BTreeMap<(String, String), Vec<(u8, u16)>> = BTreeMap::new();
		for s in self.spaces.iter() {
			for v in Schemas::get_schema_versions(s.as_bytes().to_vec()).unwrap_or_default() {
				let n = text(&v.schema_name);
				let (ns, ds) = n.split_once('.').unwrap_or((&n, "?"));
				names.entry((ns.into(), ds.into())).or_default().push((v.schema_version, v.schema_id));
			}
		}
		let mut set = vec![];
		for ((ns, ds), l) in names {
			odd |= l.iter().enumerate().any(|(k, v)| v.0 as usize != k + 1);
			set.push(json!({"ns": ns, "ds": ds, "ids": l.iter().map(|v| v.1).collect::<Vec<_>>()}));
		}
		let pend: Vec<Value> = PROPOSED.with(|p| p.borrow().iter().map(|(_, c)| self.proposal(c)).collect());
		let mut out = json!({"max": max, "limit": Schemas::get_schema_model_max_bytes(), "sch": if sch.is_empty() { json!([]) } else { json!(sch) }, "name_set": set, "pend": pend});
		if odd {
			out["reads"] = json!("queries disagree");
		}
		out
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let models: Vec<String> = self.texts.keys().cloned().collect();
		let names: Vec<Value> = self.cfg["names"].as_array().unwrap().clone();
		let max = Schemas::get_current_schema_identifier_maximum() as i64;
		let pend = PROPOSED.with(|p| p.borrow().len());
		let by = rng.pick(&["k1", "k2", "k3"]).to_string();
		let name = if rng.chance(85) {
			rng.pick(&names).clone()
		} else {
			let n = rng.range(0, 33);
			let dot = rng.range(0, 33);
			json!((0..n).map(|i| if i == dot { 46 } else { *rng.pick(&[97, 98, 65, 122, 45, 90]) }).collect::<Vec<i64>>())
		};
		let id = if max < 1000 { rng.range(0, max + 1) } else { rng.range(max - 5, max) };
		let root = rng.chance(85);
		match rng.weighted(&[30, 12, 12, 12, 10, 12, 4, 8, 4]) {
			c @ (0 | 1 | 2) => {
				let k = ["create", "govern", "propose"][c];
				let good: Vec<String> = models.iter().filter(|m| m.starts_with("ok")).cloned().collect();
				let model = if rng.chance(80) && !good.is_empty() { rng.pick(&good).clone() } else { rng.pick(&models).clone() };
				let right = if model.contains("parquet") { "parquet" } else { "avro" };
				let ty = if rng.chance(90) { right } else { *rng.pick(&["avro", "parquet"]) };
				let ver = rng.range(1, if c == 0 { 3 } else { 2 });
				let named = (ver == 3 || (c > 0 && ver == 2)) && rng.chance(60);
				let n = *rng.pick(&[0, 0, 0, 1, 1, 2, 3]);
				let set: Vec<&str> = (0..n).map(|_| *rng.pick(&["append", "signed"])).collect();
				let l = if set.contains(&"append") && rng.chance(80) { "items" } else { *rng.pick(&["chain", "ipfs", "items", "pages"]) };
				let mut a = json!({"k": k, "by": by, "model": model, "type": ty, "loc": l, "settings": set, "ver": ver, "named": named, "name": if named { name } else { json!([]) }});
				if k == "govern" {
					a["root"] = json!(root);
				}
				a
			},
			3 => json!({"k": "name", "root": root, "id": id, "name": name}),
			4 => json!({"k": "propname", "by": by, "id": id, "name": name}),
			5 => json!({"k": "enact", "i": rng.range(1, (pend as i64).max(1))}),
			6 => {
				let (h, l) = (int(&self.cfg, "hard"), int(&self.cfg, "limit"));
				let low = rng.range(0, l);
				json!({"k": "limit", "root": root, "n": *rng.pick(&[h, h + 1, l, l, l, low])})
			},
			7 => {
				let full = codes(&name);
				let part: Vec<u8> = full.iter().take_while(|c| **c != b'.').cloned().collect();
				json!({"k": "ask", "name": if rng.chance(50) { full } else { part }})
			},
			_ => {
				let x = *rng.pick(&[0, 1, max - 1, max, max + 1]);
				json!({"k": "valid", "ids": [rng.range(0, max.min(9)), x.clamp(0, 65535)]})
			},
		}
	}
	fn save(&self) -> Self::Extra {
		PROPOSED.with(|p| p.borrow().clone())
	}
	fn load(&mut self, e: &Self::Extra) {
		PROPOSED.with(|p| *p.borrow_mut() = e.clone());
	}
}
impl D {
	fn proposal(&self, c: &RuntimeCall) -> Value {
		let RuntimeCall::Schemas(c) = c else { return json!("?") };
		let make = |by: &sp_core::crypto::AccountId32, m: &[u8], t: &ModelType, l: &PayloadLocation, s: &[SchemaSetting], n: Option<&[u8]>| {
			json!({"k": "create", "by": self.who(by), "model": self.model_name(m), "type": if *t == ModelType::AvroBinary { "avro" } else { "parquet" }, "loc": loc_name(*l),
				"settings": s.iter().map(set_name).collect::<Vec<_>>(), "named": n.is_some(), "name": n.unwrap_or(&[])})
		};
		match c {
			Call::create_schema_via_governance { creator_key, model, model_type, payload_location, settings } => make(creator_key, model, model_type, payload_location, settings, None),
			Call::create_schema_via_governance_v2 { creator_key, model, model_type, payload_location, settings, schema_name } =>
				make(creator_key, model, model_type, payload_location, settings, schema_name.as_ref().map(|n| n.as_slice())),
			Call::create_schema_name_via_governance { schema_id, schema_name } => json!({"k": "name", "id": schema_id, "name": schema_name.as_slice()}),
			_ => json!("?"),
		}
	}
}
fn eval() {
	mini::ext::reset();
	schemas_defaults();
	set_param("MinSchemaModelSizeBytes", 0);
	System::set_block_number(1);
	Call::set_max_schema_model_bytes { max_size: 65500 }.dispatch_bypass_filter(RuntimeOrigin::root()).expect("limit");
	let base = mini::ext::snapshot();
	eval_lines(move |v| {
		mini::ext::restore(&base);
		let d = codes(&v["d"]);
		let make = |m: Vec<u8>, t: ModelType, n: Option<Vec<u8>>| -> bool {
			let schema_name = match n {
				None => None,
				Some(n) => match n.try_into() {
					Ok(n) => Some(n),
					Err(_) => return false,
				},
			};
			let c = Call::create_schema_v3 { model: m.try_into().unwrap(), model_type: t, payload_location: PayloadLocation::OnChain, settings: BoundedVec::default(), schema_name };
			c.dispatch_bypass_filter(RuntimeOrigin::signed(acc("k1"))).is_ok()
		};
		if st(v, "op") == "model" {
			return json!({"ok": make(d, model_type(st(v, "type")), None)});
		}
		let ask0 = Schemas::get_schema_versions(d.clone()).is_some();
		let ok = make(b"{}".to_vec(), ModelType::AvroBinary, Some(d.clone()));
		let mut out = json!({"ok": ok, "ask": ask0});
		if ok {
			let l = Schemas::get_schema_versions(d.clone()).unwrap_or_default();
			out["found"] = json!(l.len() == 1 && l[0].schema_id == 1 && l[0].schema_version == 1);
			let name = l.first().map(|x| x.schema_name.clone()).unwrap_or_default();
			let space: Vec<u8> = name.iter().take_while(|c| **c != b'.').cloned().collect();
			out["space"] = json!(Schemas::get_schema_versions(space).map_or(false, |s| s == l));
			out["name"] = json!(name);
		}
		out
	});
}
fn main() {
	if std::env::args().nth(1).as_deref() == Some("eval") {
		return eval();
	}
	drv::main(D::default());
}
