--------------------------- MODULE StatefulTrace ---------------------------
EXTENDS Stateful
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Broken(f, a, r, t) ==
  Bad("T01", T01Step(f, a, r, t)) \cup Bad("T02", T02Step(f, a, r, t)) \cup Bad("T03", T03Step(f, a, r, t))
  \cup Bad("T04", T04(t) /\ T04Step(f, a, r, t)) \cup Bad("T05", T05Step(f, a, r, t))
Judge == i > 0 =>
  LET e == T[i]  f == FromJson(e.f)  t == FromJson(e.t)  r == e.r  x == Step(f, e.a)  b == Broken(f, e.a, r, t) IN
  (x.st = t /\ x.res = r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
