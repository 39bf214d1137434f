--------------------------- MODULE CapacityTrace ---------------------------
EXTENDS Capacity
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Broken(e) ==
  (IF C01(e.t) /\ C01Step(e.f, e.a, e.r, e.t) THEN {} ELSE {"C01"}) \cup (IF C02(e.t) /\ C02Step(e.f, e.a, e.r, e.t) THEN {} ELSE {"C02"})
  \cup (IF C03(e.t) /\ C03Step(e.f, e.a, e.r, e.t) THEN {} ELSE {"C03"}) \cup (IF C04(e.t) /\ C04Step(e.f, e.a, e.r, e.t) THEN {} ELSE {"C04"})
Judge == i > 0 =>
  LET e == T[i]  x == Step(e.f, e.a)  b == Broken(e) IN
  (x.st = e.t /\ x.res = e.r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
