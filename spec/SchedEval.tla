------------------------------ MODULE SchedEval ------------------------------
(* Single schedules over the whole range of block numbers and amounts.
   op "sched": s, p, c, v, t0, t, purse (numbers as digits), k (periods over at t), how -> what the chain did
   op "genesis": bal, list -> schedules and freeze of the first block *)
EXTENDS BigNat, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.IN)
N(n) == IF n = 0 THEN <<>> ELSE IF n < 10000 THEN <<n>> ELSE <<n % 10000, n \div 10000>>
Over(r) == Minus(r.t, r.s)
\* the witness is the number of whole periods since the start
Good(r) == r.p = <<>> \/ (Leq(Times(r.k, r.p), Over(r)) /\ Less(Over(r), Times(Plus(r.k, One), r.p)))
End(r) == Plus(Times(r.p, r.c), r.s)
Whole(r) == Times(r.c, r.v)
None == <<0 - 1>>
Left(r, k) == Times(r.v, Minus(r.c, k))
Fits(r) ==
  /\ r.p # <<>> /\ r.c # <<>> /\ Leq(End(r), MaxU32) /\ Leq(Times(r.p, r.c), MaxU32)
  /\ Leq(Whole(r), MaxU128) /\ Leq(N(r.minrel), Whole(r)) /\ Leq(Whole(r), r.purse)
  /\ r.how = "transfer" => Leq(Plus(Whole(r), One), MaxU128)
  /\ r.max > 0
Sched(r) ==
  LET o == r.out  put == Fits(r) IN
  IF ~Good(r) THEN "bad: the case itself"
  ELSE IF ~o.same THEN "bad: schedule encoding"
  ELSE IF o.total # (IF Leq(Whole(r), MaxU128) THEN Whole(r) ELSE None) THEN "bad: total"
  ELSE IF o.end # (IF Leq(End(r), MaxU32) THEN End(r) ELSE None) THEN "bad: end"
  ELSE IF o.ok # put THEN (IF o.ok THEN "bad: accepted" ELSE "bad: refused")
  ELSE IF ~o.claimed THEN "bad: claim refused"
  ELSE IF ~put THEN (IF o.first = <<>> /\ o["then"] = <<>> /\ o.left = 0 THEN "ok" ELSE "bad: refused with effect")
  ELSE IF o.first # Whole(r) THEN "bad: frozen at first"
  ELSE IF o["then"] # Left(r, r.k) THEN "bad: frozen after claim"
  ELSE IF (o.left = 0) # (Left(r, r.k) = <<>>) THEN "bad: pruning"
  \* nothing is left at the end and something is just before
  ELSE IF (Left(r, r.k) = <<>>) # Leq(End(r), r.t) THEN "bad: end of release"
  ELSE "ok"
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q)[3] * Head(q)[4] + Sum(Tail(q))
Genesis(r) ==
  LET good == Len(r.list) <= r.max /\ (\A k \in DOMAIN r.list : LET s == r.list[k] IN s[2] > 0 /\ s[3] > 0 /\ s[3] * s[4] >= r.minrel) /\ Sum(r.list) <= r.bal IN
  IF r.out.ok # good THEN "bad: genesis verdict"
  ELSE IF good /\ (r.out.frz # Sum(r.list) \/ r.out.sch # r.list) THEN "bad: genesis state" ELSE "ok"
Verdict(r) == IF "panic" \in DOMAIN r.out THEN "bad: panic" ELSE IF r.op = "sched" THEN Sched(r) ELSE Genesis(r)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
