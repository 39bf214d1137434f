------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Judge == i > 0 =>
  LET e == T[i]  b == Bad("U02", U02State(e.t))  x == Step(e.f, e.a) IN
  (x.st = e.t /\ x.res = e.r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
