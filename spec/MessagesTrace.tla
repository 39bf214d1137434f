--------------------------- MODULE MessagesTrace ---------------------------
EXTENDS Messages
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Broken(f, a, r, t) == Bad("G01", G01(t) /\ G01Step(f, a, r, t)) \cup Bad("G02", G02Step(f, a, r, t)) \cup Bad("G03", G03Step(f, a, r, t))
Judge == i > 0 =>
  LET e == T[i]  f == FromJson(e.f)  t == FromJson(e.t)  r == e.r  x == Step(f, e.a)  b == Broken(f, e.a, r, t) IN
  (x.st = t /\ x.res = r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
