---------------------------- MODULE OffchainTrace ----------------------------
EXTENDS Offchain
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Judge == i > 0 =>
  LET e == T[i]  b == Bad("M10", M10Step(e.f, e.a, e.r, e.t) /\ M10State(e.t)) IN
  IF e.a.k = "crash" /\ "died" \in DOMAIN e.r /\ e.r.died
  THEN (DiedStep(e.f, e.a, e.r, e.t) /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> [crash |-> "none like this"], res |-> e.r, broken_set |-> b]))
  ELSE LET x == Step(e.f, e.a) IN
       (x.st = e.t /\ x.res = e.r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
