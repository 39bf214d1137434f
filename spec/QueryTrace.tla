---------------------------- MODULE QueryTrace -----------------------------
EXTENDS Query
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Judge == i > 0 =>
  LET e == T[i]  f == FromJson(e.f)  t == FromJson(e.t)  ask == e.a.k \in Asks
      x == IF ask THEN Answer(f, e.a) ELSE e.r
      b == (IF ask THEN Bad("Q01", Same(e.a, x, e.r) /\ f = t) ELSE {}) \cup Bad("Q02", Sound(t) /\ NotActing(f, t))
  IN b = {} \/ PrintT(ToJson([i |-> i, st |-> e.t, res |-> x, broken_set |-> b]))
=============================================================================
