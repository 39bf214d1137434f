------------------------------ MODULE TxTrace ------------------------------
EXTENDS Tx
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Broken(f, a, r, t) == Bad("P01", P01Step(f, a, r, t)) \cup Bad("P02", P02Step(f, a, r, t)) \cup Bad("N01", N01Step(f, a, r, t)) \cup Bad("K01", K01Step(f, a, r, t))
Judge == i > 0 =>
  LET e == T[i]  x == Step(e.f, e.a)  b == Broken(e.f, e.a, e.r, e.t) IN
  (x.st = e.t /\ x.res = e.r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
