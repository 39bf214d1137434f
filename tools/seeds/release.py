import json
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
L, T = ("pallets/time-release/src/" + f for f in ("lib.rs", "types.rs"))
BASE = {k: v for k, v in cfg("release_clock").items() if k not in ("mc", "pre")}
def base(pre=(), **kw): return dict(BASE, pre=list(pre), **kw)
def give(by, to, *s): return {"k": "transfer", "by": by, "to": to, "s": list(s)}
def claim(by): return {"k": "claim", "by": by}
def tick(n): return {"k": "tick", "n": n}
def update(to, *l): return {"k": "update", "root": True, "to": to, "list": [list(x) for x in l]}
def limbs(n):
    o = []
    while n: o.append(n % 10000); n //= 10000
    return o
def sched(s, p, c, v, t0, t): return dict(op="sched", how="transfer", s=limbs(s), p=limbs(p), c=limbs(c), v=limbs(v), purse=limbs(v * c + 1000), t0=limbs(t0), t=limbs(t), ed=2, minrel=4, max=2)
SEEDS = [
 dict(id="r01-time-to-start-counts-as-elapsed", property="R01", driver="d-release", cfg=base(),
  needs="a claim at least one period before the schedule's start",
  breaks="the distance to the start is counted as elapsed time, so tokens are released before the schedule starts",
  edits=[(T, "\t\tlet full = time\n\t\t\t.saturating_sub(self.start)\n", "\t\tlet full = (time.max(self.start) - time.min(self.start))\n")],
  acts=[give("a", "b", 14, 2, 2, 3), claim("b")], expect=[(0, "r.r", "ok"), (1, "t.frz.b", 6), (1, "t.sch.b.0.0", 14)]),
 dict(id="r01-periods-beyond-65535-stay-frozen", property="R01", driver="d-release",
  needs="a schedule with more than 65535 periods",
  breaks="no more than 65535 periods ever count as elapsed, so the rest stays frozen after the end",
  edits=[(T, "let unrealized = self.period_count.saturating_sub(full.unique_saturated_into());", "let full: u16 = full.unique_saturated_into();\n\t\tlet unrealized = self.period_count.saturating_sub(full.into());")],
  cases=[sched(5, 1, 65540, 3, 1, 65545), sched(5, 1, 65540, 3, 1, 65544)],
  expect=[(0, "out.ok", True), (0, "out.then", []), (0, "out.left", 0), (1, "out.then", [3])]),
 dict(id="r02-clearing-ended-schedules-leaves-freeze", property="R02", driver="d-release", cfg=base(),
  needs="a root update to an empty list after every schedule has ended but before anyone claimed",
  breaks="the schedules are gone but their tokens stay frozen",
  edits=[(L, "\t\t<ReleaseSchedules<T>>::remove(who);\n\t\tSelf::delete_freeze(who)?;\n\t\tOk(())", "\t\tlet now = T::BlockNumberProvider::current_block_number();\n\t\tlet outstanding = <ReleaseSchedules<T>>::take(who)\n\t\t\t.iter()\n\t\t\t.any(|schedule| !schedule.frozen_amount(now).is_zero());\n\t\tif outstanding {\n\t\t\tSelf::delete_freeze(who)?;\n\t\t}\n\t\tOk(())")],
  acts=[give("a", "b", 10, 2, 2, 3), tick(4), update("b")], expect=[(0, "r.r", "ok"), (2, "r.r", "ok"), (2, "t.frz.b", 0)]),
 dict(id="r02-update-never-lowers-freeze", property="R02", driver="d-release", cfg=base(),
  needs="a root update that replaces the schedules by smaller ones",
  breaks="more is frozen than the schedules leave outstanding",
  edits=[(L, "\t\tSelf::update_freeze(&who, total_amount)?;\n\t\tSelf::set_schedules_for(who, bounded_schedules);", "\t\tT::Currency::extend_freeze(&FreezeReason::TimeReleaseVesting.into(), who, total_amount)?;\n\t\tSelf::set_schedules_for(who, bounded_schedules);")],
  acts=[give("a", "b", 10, 2, 3, 2), update("b", [10, 2, 2, 2])], expect=[(0, "t.frz.b", 6), (1, "r.r", "ok"), (1, "t.frz.b", 4)]),
]
