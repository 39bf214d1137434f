L = "pallets/capacity/src/lib.rs"; Y = "pallets/capacity/src/types.rs"
def stake(x, m, n): return {"k": "stake", "acc": x, "target": m, "amount": n}
def unstake(x, m, n): return {"k": "unstake", "acc": x, "target": m, "amount": n}
B1 = {"k": "block", "n": 1}; W = lambda x: {"k": "withdraw", "acc": x}
SEEDS = [
 dict(id="c01-thaw-all-when-inactive", property="C01", driver="d-capacity", cfg="capacity_small",
  needs="everything unstaked in two chunks of different epochs and a withdrawal when only the first has thawed",
  breaks="the whole freeze is lifted while a chunk is still unlocking, so unthawed tokens can be moved",
  edits=[(L, "if total_locked.is_zero() {", "if total_locked.is_zero() || staking_account.active.is_zero() {")],
  acts=[stake("a", "1", 9), unstake("a", "1", 5), B1, unstake("a", "1", 4), {"k": "block", "n": 2}, W("a")],
  # after the first withdrawal nothing may be left unfrozen that has not thawed
  expect=[(0, "r.r", "ok"), (5, "r.r", "ok"), (5, "t.frz.a", 0)]),
 dict(id="c02-ratio-of-own-stake", property="C02", driver="d-capacity", cfg="capacity_small",
  needs="a partial unstake from a provider with a second staker, where rounding differs",
  breaks="capacity is reduced by the unstaker's share rounded down on its own stake, so capacity outlives the stake it came from",
  edits=[(L, "Perbill::from_rational(unstaking_amount, total_amount_staked).mul_ceil(total_capacity)", "Perbill::from_rational(unstaking_amount, total_amount_staked).mul_floor(total_capacity)")],
  acts=[stake("a", "1", 9), unstake("a", "1", 1)],
  expect=[(0, "t.cap.1.iss", 4), (1, "t.cap.1.iss", 3)]),
 dict(id="c03-merge-into-first-chunk", property="C03", driver="d-capacity", cfg="capacity_small",
  needs="two unstakes in different epochs where the list of chunks is already full but one",
  breaks="the last free slot is saved by adding the amount to an earlier chunk, so it thaws too early",
  edits=[(L, "\t\tunlocks\n\t\t\t.try_push(unlock_chunk)\n\t\t\t.map_err(|_| Error::<T>::MaxUnlockingChunksExceeded)?;",
   "\t\tlet last_slot = (unlocks.len() as u32).saturating_add(1) == T::MaxUnlockingChunks::get();\n\t\tmatch unlocks.iter_mut().rev().find(|chunk| last_slot && chunk.thaw_at <= thaw_at) {\n\t\t\tSome(chunk) => chunk.value = chunk.value.saturating_add(actual_unstaked_amount),\n\t\t\tNone => unlocks\n\t\t\t\t.try_push(unlock_chunk)\n\t\t\t\t.map_err(|_| Error::<T>::MaxUnlockingChunksExceeded)?,\n\t\t}")],
  acts=[stake("a", "1", 9), unstake("a", "1", 1), {"k": "block", "n": 2}, unstake("a", "1", 1)],
  expect=[(1, "t.unl.a.0.v", 1), (3, "t.unl.a.0.v", 1), (3, "t.unl.a.1.v", 1)]),
 dict(id="c04-length-change-restarts-epoch", property="C04", driver="d-capacity", cfg="capacity_small",
  needs="the epoch length changed in the middle of an epoch",
  breaks="changing the length moves the start of the running epoch, so it ends later than its length",
  edits=[(L, "\t\t\tEpochLength::<T>::set(length);\n", "\t\t\tEpochLength::<T>::set(length);\n\t\t\tCurrentEpochInfo::<T>::mutate(|info| {\n\t\t\t\tinfo.epoch_start = info.epoch_start.max(frame_system::Pallet::<T>::block_number())\n\t\t\t});\n")],
  acts=[{"k": "block", "n": 2}, {"k": "elen", "n": 2, "root": True}, B1],
  expect=[(0, "t.estart", 2), (1, "t.estart", 2), (2, "t.epoch", 2)]),
 dict(id="c04-unstake-refreshes-budget", property="C04", driver="d-capacity", cfg="capacity_small",
  needs="spending, then staking more in the same epoch, then spending again",
  breaks="staking to a provider refills what it already spent in this epoch",
  edits=[(Y, "\t\tself.remaining_capacity = capacity.checked_add(&self.remaining_capacity)?;\n\t\tself.total_capacity_issued = capacity.checked_add(&self.total_capacity_issued)?;",
   "\t\tself.total_capacity_issued = capacity.checked_add(&self.total_capacity_issued)?;\n\t\tself.remaining_capacity = self.total_capacity_issued;")],
  acts=[stake("a", "1", 5), {"k": "spend", "msa": "1", "amount": 2}, stake("a", "1", 4)],
  expect=[(0, "t.cap.1.rem", 2), (1, "t.cap.1.rem", 0), (2, "t.cap.1.rem", 2)]),
]
SEEDS[0]["acts"] = [stake("a", "1", 9), unstake("a", "1", 5), {"k": "block", "n": 1}, unstake("a", "1", 4), {"k": "block", "n": 1}, W("a")]
SEEDS[0]["expect"] = [(5, "r.r", "ok"), (5, "r.amount", 5), (5, "t.frz.a", 4)]
