//! Conformance driver for spec/TimeRelease.tla and spec/SchedEval.tla: pallet-time-release on pallet-balances.
use cfgs::*;
use drv::*;
use frame_support::traits::tokens::fungible::{Inspect, InspectFreeze};
use frame_support::traits::{LockableCurrency, UnfilteredDispatchable, WithdrawReasons};
use pallet_time_release::{Call, Event, ReleaseSchedule};
use sp_runtime::traits::BlockNumberProvider;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system,
		Balances: pallet_balances,
		TimeRelease: pallet_time_release,
	}
);
system_config!(Rt, data = pallet_balances::AccountData<u128>, filter = frame_support::traits::Everything);
balances_config!(Rt);
param!(MinReleaseTransfer: u128, MaxReleaseSchedules: u32);
/// the relay chain's clock, which is not this chain's block number
pub struct Clock;
impl BlockNumberProvider for Clock {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		param("clock") as u32
	}
}
impl pallet_time_release::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type Balance = u128;
	type Currency = Balances;
	type MinReleaseTransfer = MinReleaseTransfer;
	type TransferOrigin = frame_system::EnsureSigned<sp_core::crypto::AccountId32>;
	type WeightInfo = ();
	type MaxReleaseSchedules = MaxReleaseSchedules;
	type BlockNumberProvider = Clock;
	type RuntimeFreezeReason = RuntimeFreezeReason;
}
type Sched = ReleaseSchedule<u32, u128>;
const REASON: RuntimeFreezeReason = RuntimeFreezeReason::TimeRelease(pallet_time_release::FreezeReason::TimeReleaseVesting);

#[derive(Default)]
struct D {
	cfg: Value,
}
fn sched(v: &Value) -> Sched {
	let n = |i: usize| v[i].as_u64().unwrap();
	Sched { start: n(0) as u32, period: n(1) as u32, period_count: n(2) as u32, per_period: n(3) as u128 }
}
fn show(s: &Sched) -> Value {
	json!([s.start, s.period, s.period_count, s.per_period as u64])
}
fn go(call: RuntimeCall, o: RuntimeOrigin) -> bool {
	mini::ext::clear_events();
	call.dispatch_bypass_filter(o).is_ok()
}
fn event() -> Value {
	let e: Vec<_> = System::events()
		.into_iter()
		.filter_map(|e| match e.event {
			RuntimeEvent::TimeRelease(e) => Some(e),
			_ => None,
		})
		.collect();
	match &e[..] {
		[Event::ReleaseScheduleAdded { from, to, release_schedule }] => json!(["added", acc_name(from), acc_name(to), show(release_schedule)]),
		[Event::Claimed { who, amount }] => json!(["claimed", acc_name(who), *amount as u64]),
		[Event::ReleaseSchedulesUpdated { who }] => json!(["updated", acc_name(who)]),
		[] => json!([]),
		_ => json!(["several events"]),
	}
}
fn done(good: bool) -> Value {
	if good { json!({"r": "ok", "ev": event()}) } else { err() }
}
fn set_free(a: &sp_core::crypto::AccountId32, n: u128) {
	pallet_balances::Call::<Rt>::force_set_balance { who: a.clone(), new_free: n }.dispatch_bypass_filter(RuntimeOrigin::root()).expect("balance");
}
impl D {
	fn accs(&self) -> Vec<String> {
		self.cfg["free"].as_object().unwrap().keys().cloned().collect()
	}
}
impl Sut for D {
	type Extra = u64;
	fn init(&mut self, cfg: &Value) {
		self.cfg = cfg.clone();
		for (k, p) in [("ed", "ExistentialDeposit"), ("minrel", "MinReleaseTransfer"), ("max", "MaxReleaseSchedules"), ("now", "clock")] {
			set_param(p, cfg[k].as_u64().unwrap());
		}
		System::set_block_number(1_000_003);
		for (a, v) in cfg["free"].as_object().unwrap() {
			set_free(&acc(a), v.as_u64().unwrap() as u128);
		}
		for a in cfg["pre"].as_array().unwrap() {
			self.apply(a);
		}
	}
	fn apply(&mut self, a: &Value) -> Value {
		let signed = |k: &str| RuntimeOrigin::signed(acc(st(a, k)));
		match st(a, "k") {
			"transfer" => done(go(Call::<Rt>::transfer { dest: acc(st(a, "to")), schedule: sched(&a["s"]) }.into(), signed("by"))),
			"claim" => done(go(Call::<Rt>::claim {}.into(), signed("by"))),
			"claimfor" => done(go(Call::<Rt>::claim_for { dest: acc(st(a, "to")) }.into(), signed("by"))),
			"update" => {
				let q = a["list"].as_array().unwrap().iter().map(sched).collect();
				let o = if a["root"] == true { RuntimeOrigin::root() } else { signed("to") };
				done(go(Call::<Rt>::update_release_schedules { who: acc(st(a, "to")), release_schedules: q }.into(), o))
			},
			"send" => done(go(pallet_balances::Call::<Rt>::transfer_allow_death { dest: acc(st(a, "to")), value: int(a, "n") as u128 }.into(), signed("by"))),
			"lock" => {
				mini::ext::clear_events();
				let who = acc(st(a, "to"));
				if Balances::free_balance(&who) == 0 {
					return err();
				}
				match int(a, "n") {
					0 => Balances::remove_lock(*b"someelse", &who),
					n => Balances::set_lock(*b"someelse", &who, n as u128, WithdrawReasons::all()),
				}
				done(true)
			},
			"tick" => {
				mini::ext::clear_events();
				set_param("clock", param("clock") + int(a, "n") as u64);
				System::set_block_number(System::block_number() + 1);
				done(true)
			},
			k => panic!("action {k}"),
		}
	}
	fn project(&mut self) -> Value {
		let (mut free, mut frz, mut other, mut sch) = (Map::new(), Map::new(), Map::new(), Map::new());
		for n in self.accs() {
			let a = acc(&n);
			let fr = Balances::free_balance(&a);
			free.insert(n.clone(), json!(fr as u64));
			let f = Balances::balance_frozen(&REASON, &a);
			let l = Balances::locks(&a).iter().map(|l| l.amount).max().unwrap_or(0);
			other.insert(n.clone(), json!(l as u64));
			// what can be moved agrees with what is frozen
			let usable = Balances::reducible_balance(&a, frame_support::traits::tokens::Preservation::Expendable, frame_support::traits::tokens::Fortitude::Polite);
			let z = f.max(l);
			let want = fr.saturating_sub(if z > 0 { z.max(param("ExistentialDeposit") as u128) } else { 0 });
			frz.insert(n.clone(), if usable == want { json!(f as u64) } else { json!(-1 - f as i64) });
			let q = TimeRelease::release_schedules(&a);
			// an account without schedules has no entry
			let stored = pallet_time_release::ReleaseSchedules::<Rt>::contains_key(&a);
			let mut q: Vec<Value> = q.iter().map(show).collect();
			if stored == q.is_empty() {
				q.push(json!("stored"));
			}
			sch.insert(n, q.into());
		}
		json!({"now": param("clock"), "free": free, "frz": frz, "other": other, "sch": sch})
	}
	fn gen(&mut self, rng: &mut Rng) -> Value {
		let accs = self.accs();
		let now = param("clock") as i64;
		let (by, to) = (rng.pick(&accs).clone(), rng.pick(&accs).clone());
		let usable = Balances::usable_balance(acc(&by)) as i64;
		let mut one = |rng: &mut Rng, purse: i64| {
			let start = match rng.below(4) {
				0 => now,
				1 => rng.range(0, now),
				_ => now + rng.range(0, 12),
			};
			let (mut p, mut c) = (rng.range(1, 6), rng.range(1, 6));
			let mut v = match rng.below(5) {
				0 => purse / c,
				1 => purse / c + 1,
				_ => rng.range(1, (purse / c / 4).max(1)),
			};
			if rng.chance(8) {
				match rng.below(3) {
					0 => p = 0,
					1 => c = 0,
					_ => v = rng.range(0, 1),
				}
			}
			json!([start, p, c, v.max(0)])
		};
		match rng.weighted(&[30, 16, 10, 10, 10, 4, 30]) {
			0 => {
				let s = one(rng, usable);
				json!({"k": "transfer", "by": by, "to": to, "s": s})
			},
			1 => json!({"k": "claim", "by": by}),
			2 => json!({"k": "claimfor", "by": by, "to": to}),
			3 => {
				let free = Balances::free_balance(acc(&to)) as i64;
				let m = int(&self.cfg, "max");
				let n = rng.range(0, m + 1).min(rng.range(0, m + 1));
				let each = if n > 0 { free / n } else { 0 };
				let mut list = vec![];
				for _ in 0..n {
					list.push(one(rng, each));
				}
				json!({"k": "update", "root": rng.chance(85), "to": to, "list": list})
			},
			4 => {
				let d = rng.range(-1, 1);
				let n = if rng.chance(50) { usable + d } else { rng.range(0, usable.max(1)) };
				json!({"k": "send", "by": by, "to": to, "n": n.max(0)})
			},
			5 => json!({"k": "lock", "to": to, "n": rng.range(0, 40)}),
			_ => {
				let n = if rng.chance(70) { rng.range(1, 3) } else { rng.range(1, 20) };
				json!({"k": "tick", "n": n})
			},
		}
	}
	fn save(&self) -> u64 {
		param("clock")
	}
	fn load(&mut self, e: &u64) {
		set_param("clock", *e);
	}
}
/// base 10000, least significant first
fn limbs(n: u128) -> Value {
	let (mut n, mut o) = (n, vec![]);
	while n > 0 {
		o.push((n % 10000) as u64);
		n /= 10000;
	}
	json!(o)
}
fn num(v: &Value) -> u128 {
	v.as_array().unwrap().iter().rev().fold(0u128, |a, d| a * 10000 + d.as_u64().unwrap() as u128)
}
fn eval() {
	eval_lines(|v| {
		for (k, p) in [("ed", "ExistentialDeposit"), ("minrel", "MinReleaseTransfer"), ("max", "MaxReleaseSchedules")] {
			set_param(p, v[k].as_u64().unwrap());
		}
		mini::ext::reset();
		System::set_block_number(7);
		match st(v, "op") {
			"sched" => {
				let s = Sched { start: num(&v["s"]) as u32, period: num(&v["p"]) as u32, period_count: num(&v["c"]) as u32, per_period: num(&v["v"]) };
				let (from, to) = (acc("from"), acc("to"));
				let total = s.total_amount();
				set_free(&from, num(&v["purse"]));
				set_free(&to, 1);
				set_param("clock", num(&v["t0"]) as u64);
				let enc = parity_scale_codec::Encode::encode(&s);
				let back: Option<Sched> = parity_scale_codec::Decode::decode(&mut &enc[..]).ok();
				let good = if st(v, "how") == "update" {
					go(Call::<Rt>::update_release_schedules { who: from.clone(), release_schedules: vec![s.clone()] }.into(), RuntimeOrigin::root())
				} else {
					go(Call::<Rt>::transfer { dest: to.clone(), schedule: s.clone() }.into(), RuntimeOrigin::signed(from.clone()))
				};
				let who = if st(v, "how") == "update" { from } else { to };
				let first = Balances::balance_frozen(&REASON, &who);
				set_param("clock", num(&v["t"]) as u64);
				let claimed = go(Call::<Rt>::claim {}.into(), RuntimeOrigin::signed(who.clone()));
				json!({"ok": good, "end": s.end().map_or(json!([-1]), |e| limbs(e as u128)), "total": total.map_or(json!([-1]), limbs), "first": limbs(first), "claimed": claimed,
					"then": limbs(Balances::balance_frozen(&REASON, &who)), "left": TimeRelease::release_schedules(&who).len(), "same": back == Some(s)})
			},
			"genesis" => {
				use frame_support::traits::BuildGenesisConfig;
				let who = acc("who");
				set_free(&who, v["bal"].as_u64().unwrap() as u128);
				set_param("clock", 0);
				let list: Vec<_> = v["list"].as_array().unwrap().iter().map(|x| { let s = sched(x); (who.clone(), s.start, s.period, s.period_count, s.per_period) }).collect();
				let g = pallet_time_release::GenesisConfig::<Rt> { _config: Default::default(), schedules: list };
				let r = std::panic::catch_unwind(|| g.build());
				if r.is_err() {
					return json!({"ok": false});
				}
				json!({"ok": true, "frz": Balances::balance_frozen(&REASON, &who) as u64, "sch": TimeRelease::release_schedules(&who).iter().map(show).collect::<Vec<_>>()})
			},
			o => panic!("op {o}"),
		}
	});
}
fn main() {
	if std::env::args().nth(1).as_deref() == Some("eval") {
		return eval();
	}
	drv::main(D::default());
}
