//! Conformance driver for spec/Capacity.tla: pallet-capacity on pallet-balances, providers by pallet-msa.
use cfgs::*;
use common_primitives::capacity::{Nontransferable, Replenishable};
use drv::*;
use frame_support::traits::tokens::fungible::{Inspect, InspectFreeze};
use frame_support::traits::UnfilteredDispatchable;
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		Msa: pallet_msa,
		Capacity: pallet_capacity,
	}
);
system_config!(Rt, data = pallet_balances::AccountData<u128>, filter = frame_support::traits::Everything);
balances_config!(Rt);
msa_config!(Rt, schemas = AnySchema, handles = ());
capacity_config!(Rt, validator = Msa);

#[derive(Clone, Default)]
struct X {
	spent: BTreeMap<String, i64>,
	lim: BTreeMap<String, i64>,
	stain: BTreeMap<String, bool>,
	pstain: BTreeMap<String, bool>,
}
#[derive(Default)]
struct D {
	cfg: Value,
	x: X,
}
fn id(m: &str) -> u64 {
	m.parse().unwrap()
}
impl D {
	fn accs(&self) -> Vec<String> {
		self.cfg["free"].as_object().unwrap().keys().cloned().collect()
	}
	fn msas(&self) -> Vec<String> {
		self.cfg["msas"].as_object().unwrap().keys().cloned().collect()
	}
	fn issued(m: &str) -> i64 {
		Capacity::get_capacity_for(id(m)).map_or(0, |d| d.total_capacity_issued as i64)
	}
	fn go(&self, call: RuntimeCall, who: &str) -> bool {
		mini::ext::clear_events();
		call.dispatch_bypass_filter(RuntimeOrigin::signed(acc(who))).is_ok()
	}
	fn event(&self) -> Option<pallet_capacity::Event<Rt>> {
		System::events().into_iter().rev().find_map(|e| match e.event {
			RuntimeEvent::Capacity(e) => Some(e),
			_ => None,
		})
	}
}
impl Sut for D {
	type Extra = X;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		msa_defaults();
		capacity_defaults();
		for (k, p) in [("minstake", "MinimumStakingAmount"), ("minbal", "MinimumTokenBalance"), ("chunks", "MaxUnlockingChunks"), ("thaw", "UnstakingThawPeriod"), ("maxelen", "MaxEpochLength"), ("cpt", "CapacityPerToken"), ("ed", "ExistentialDeposit")] {
			set_param(p, cfg[k].as_u64().unwrap());
		}
		System::set_block_number(1);
		for (a, v) in cfg["free"].as_object().unwrap() {
			pallet_balances::Call::<Rt>::force_set_balance { who: acc(a), new_free: v.as_u64().unwrap() as u128 }.dispatch_bypass_filter(RuntimeOrigin::root()).expect("balance");
		}
		for (m, p) in cfg["msas"].as_object().unwrap() {
			let owner = RuntimeOrigin::signed(acc(&format!("owner{m}")));
			pallet_msa::Call::<Rt>::create {}.dispatch_bypass_filter(owner.clone()).expect("msa");
			if p.as_bool().unwrap() {
				pallet_msa::Call::<Rt>::create_provider { provider_name: m.as_bytes().to_vec() }.dispatch_bypass_filter(owner).expect("provider");
			}
		}
		pallet_capacity::Call::<Rt>::set_epoch_length { length: cfg["elen"].as_u64().unwrap() as u32 }.dispatch_bypass_filter(RuntimeOrigin::root()).expect("epoch length");
		self.x = X::default();
		for m in self.msas() {
			self.x.spent.insert(m.clone(), 0);
			self.x.lim.insert(m.clone(), 0);
			self.x.pstain.insert(m, false);
		}
		for a in self.accs() {
			self.x.stain.insert(a, false);
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		use pallet_capacity::{Call, Event};
		let n = || int(a, "amount") as u128;
		match st(a, "k") {
			"stake" => {
				if !self.go(Call::<Rt>::stake { target: id(st(a, "target")), amount: n() }.into(), st(a, "acc")) {
					return err();
				}
				match self.event() {
					Some(Event::Staked { account, target, amount, capacity }) if account == acc(st(a, "acc")) && target == id(st(a, "target")) => {
						*self.x.lim.get_mut(st(a, "target")).unwrap() += capacity as i64;
						json!({"r": "ok", "amount": amount as u64, "capacity": capacity as u64})
					},
					_ => json!({"r": "ok", "amount": -1, "capacity": -1}),
				}
			},
			"unstake" => {
				let m = id(st(a, "target"));
				let who = acc(st(a, "acc"));
				let before: BTreeMap<String, u128> = self.msas().into_iter().map(|m| (m.clone(), Capacity::get_target_for(&who, id(&m)).map_or(0, |d| d.amount))).collect();
				if !self.go(Call::<Rt>::unstake { target: m, requested_amount: n() }.into(), st(a, "acc")) {
					return err();
				}
				match self.event() {
					Some(Event::UnStaked { account, target, amount, capacity }) if account == who && target == m => {
						if amount > before[st(a, "target")] {
							self.x.stain.insert(st(a, "acc").into(), true);
							for (p, v) in before {
								if v > 0 {
									self.x.pstain.insert(p, true);
								}
							}
						}
						json!({"r": "ok", "amount": amount as u64, "capacity": capacity as u64})
					},
					_ => json!({"r": "ok", "amount": -1, "capacity": -1}),
				}
			},
			"withdraw" => {
				if !self.go(Call::<Rt>::withdraw_unstaked {}.into(), st(a, "acc")) {
					return err();
				}
				match self.event() {
					Some(Event::StakeWithdrawn { account, amount }) if account == acc(st(a, "acc")) => json!({"r": "ok", "amount": amount as u64}),
					_ => json!({"r": "ok", "amount": -1}),
				}
			},
			"xfer" => {
				if st(a, "acc") == st(a, "to") {
					return err(); // not offered to the chain
				}
				let c = pallet_balances::Call::<Rt>::transfer_keep_alive { dest: acc(st(a, "to")), value: n() };
				if self.go(c.into(), st(a, "acc")) { ok() } else { err() }
			},
			"spend" => {
				let m = id(st(a, "msa"));
				if Capacity::can_replenish(m) {
					if Capacity::replenish_all_for(m).is_err() {
						return json!({"r": "refill refused"});
					}
				}
				match <Capacity as Nontransferable>::deduct(m, n()) {
					Ok(()) => {
						*self.x.spent.get_mut(st(a, "msa")).unwrap() += n() as i64;
						ok()
					},
					Err(_) => err(),
				}
			},
			"can" => json!({"r": "ok", "v": Capacity::can_replenish(id(st(a, "msa")))}),
			"replby" => match Capacity::replenish_by_amount(id(st(a, "msa")), n()) {
				Ok(()) => {
					*self.x.lim.get_mut(st(a, "msa")).unwrap() += n() as i64;
					ok()
				},
				Err(_) => err(),
			},
			"elen" => {
				let o = if a["root"] == true { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc("a")) };
				class(&pallet_capacity::Call::<Rt>::set_epoch_length { length: int(a, "n") as u32 }.dispatch_bypass_filter(o))
			},
			"block" => {
				for _ in 0..int(a, "n") {
					let (b, e) = (System::block_number(), Capacity::get_current_epoch());
					AllPalletsWithSystem::on_finalize(b);
					System::set_block_number(b + 1);
					AllPalletsWithSystem::on_initialize(b + 1);
					if Capacity::get_current_epoch() != e {
						for m in self.msas() {
							self.x.spent.insert(m.clone(), 0);
							let i = D::issued(&m);
							self.x.lim.insert(m, i);
						}
					}
				}
				ok()
			},
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let reason = RuntimeFreezeReason::Capacity(pallet_capacity::FreezeReason::CapacityStaking);
		let (mut free, mut active, mut tgt, mut unl, mut frz) = (Map::new(), Map::new(), Map::new(), Map::new(), Map::new());
		for n in self.accs() {
			let a = acc(&n);
			free.insert(n.clone(), json!(Balances::free_balance(&a) as u64));
			active.insert(n.clone(), json!(Capacity::get_staking_account_for(&a).map_or(0, |d| d.active as u64)));
			let t: Map<String, Value> = self.msas().iter().map(|m| (m.clone(), Capacity::get_target_for(&a, id(m)).map_or(json!({"a": 0, "c": 0}), |d| json!({"a": d.amount as u64, "c": d.capacity as u64})))).collect();
			tgt.insert(n.clone(), Value::Object(t));
			let u = Capacity::get_unstake_unlocking_for(&a).unwrap_or_default();
			unl.insert(n.clone(), u.iter().map(|k| json!({"v": k.value as u64, "at": k.thaw_at})).collect::<Vec<_>>().into());
			let f = Balances::balance_frozen(&reason, &a);
			// what the account can move agrees with the freeze
			let usable = Balances::reducible_balance(&a, frame_support::traits::tokens::Preservation::Expendable, frame_support::traits::tokens::Fortitude::Polite);
			let want = Balances::free_balance(&a).saturating_sub(f.max(if f > 0 { param("ExistentialDeposit") as u128 } else { 0 }));
			frz.insert(n.clone(), if usable == want { json!(f as u64) } else { json!(-1 - f as i64) });
		}
		let cap: Map<String, Value> = self
			.msas()
			.iter()
			.map(|m| {
				let v = match Capacity::get_capacity_for(id(m)) {
					None => json!({"rem": -1, "tok": 0, "iss": 0, "last": 0}),
					Some(d) => json!({"rem": d.remaining_capacity as u64, "tok": d.total_tokens_staked as u64, "iss": d.total_capacity_issued as u64, "last": d.last_replenished_epoch}),
				};
				if <Capacity as Nontransferable>::balance(id(m)) as i64 != v["rem"].as_i64().unwrap().max(0) {
					return (m.clone(), json!({"rem": -2, "tok": 0, "iss": 0, "last": 0}));
				}
				(m.clone(), v)
			})
			.collect();
		json!({"block": System::block_number(), "epoch": Capacity::get_current_epoch(), "estart": Capacity::get_current_epoch_info().epoch_start, "elen": Capacity::get_epoch_length(),
			"free": free, "active": active, "tgt": tgt, "unl": unl, "frz": frz, "cap": cap, "spent": self.x.spent, "lim": self.x.lim, "stain": self.x.stain, "pstain": self.x.pstain})
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let (accs, msas) = (self.accs(), self.msas());
		let a = rng.pick(&accs).clone();
		let m = rng.pick(&msas).clone();
		let free = Balances::free_balance(acc(&a)) as i64;
		match rng.weighted(&[22, 24, 16, 6, 18, 4, 2, 2, 18]) {
			0 => {
				let v = match rng.below(5) {
					0 => free,
					1 => rng.range(0, 12),
					2 => free - int(&self.cfg, "minbal") + rng.range(-1, 1),
					_ => rng.range(1, (free / 3).max(1)),
				};
				json!({"k": "stake", "acc": a, "target": m, "amount": v.max(0)})
			},
			1 => {
				let t = Capacity::get_target_for(acc(&a), id(&m)).map_or(0, |d| d.amount as i64);
				let act = Capacity::get_staking_account_for(acc(&a)).map_or(0, |d| d.active as i64);
				let mut m = m;
				let mut t = t;
				if t == 0 && rng.chance(70) {
					if let Some(k) = msas.iter().find(|k| Capacity::get_target_for(acc(&a), id(k)).is_some()) {
						m = k.clone();
						t = Capacity::get_target_for(acc(&a), id(&m)).map_or(0, |d| d.amount as i64);
					}
				}
				let v = match rng.below(10) {
					0 | 8 => t,
					1 | 9 => act,
					2 => act - int(&self.cfg, "minstake") + rng.range(-1, 1),
					3 => rng.range(0, 3),
					4 => t + rng.range(-1, 1),
					5 => act + 1,
					_ => rng.range(1, t.max(1)),
				};
				json!({"k": "unstake", "acc": a, "target": m, "amount": v.max(0)})
			},
			2 => json!({"k": "withdraw", "acc": a}),
			3 => {
				let to = rng.pick(&accs).clone();
				let f = Balances::usable_balance(acc(&a)) as i64;
				let v = if rng.chance(40) { f + rng.range(-1, 1) } else { rng.range(0, free) };
				json!({"k": "xfer", "acc": a, "to": to, "amount": v.max(0)})
			},
			4 => {
				let d = Capacity::get_capacity_for(id(&m));
				let (r, i) = d.map_or((0, 0), |d| (d.remaining_capacity as i64, d.total_capacity_issued as i64));
				let v = match rng.below(5) {
					0 => r + rng.range(-1, 1),
					1 => i + rng.range(-1, 1),
					2 => 0,
					_ => rng.range(1, i.max(1)),
				};
				json!({"k": "spend", "msa": m, "amount": v.max(0)})
			},
			5 => json!({"k": "can", "msa": m}),
			6 => json!({"k": "replby", "msa": m, "amount": rng.range(0, 9)}),
			7 => json!({"k": "elen", "n": rng.range(0, int(&self.cfg, "maxelen") + 1), "root": rng.chance(80)}),
			_ => json!({"k": "block", "n": if rng.chance(80) { 1 } else { rng.range(1, 9) }}),
		}
	}
	fn save(&self) -> X {
		self.x.clone()
	}
	fn load(&mut self, e: &X) {
		self.x = e.clone();
	}
}
fn main() {
	drv::main(D::default());
}
