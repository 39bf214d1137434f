-------------------------- MODULE TimeReleaseTrace --------------------------
EXTENDS TimeRelease
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Broken(e) ==
  (IF R01(e.t) /\ R01Step(e.f, e.a, e.r, e.t) THEN {} ELSE {"R01"}) \cup (IF R02(e.t) /\ R02Step(e.f, e.a, e.r, e.t) THEN {} ELSE {"R02"})
Judge == i > 0 =>
  LET e == T[i]  x == Step(e.f, e.a)  b == Broken(e) IN
  (x.st = e.t /\ x.res = e.r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
