---------------------------- MODULE HandlesTrace ----------------------------
EXTENDS Handles
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Broken(e) ==
  (IF H03(e.t) THEN {} ELSE {"H03"}) \cup (IF H04(e.t) /\ H04Step(e.f, e.a, e.r, e.t) THEN {} ELSE {"H04"})
  \cup (IF H05(e.f, e.a, e.r, e.t) THEN {} ELSE {"H05"}) \cup (IF H06(e.f, e.a, e.r, e.t) THEN {} ELSE {"H06"})
Judge == i > 0 =>
  LET e == T[i]  x == Step(e.f, e.a)  b == Broken(e) IN
  (x.st = e.t /\ x.res = e.r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
