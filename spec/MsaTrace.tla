----------------------------- MODULE MsaTrace -----------------------------
EXTENDS Msa
T == ndJsonDeserialize(IOEnv.IN)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(T) : k % CHUNKS = (0 - i) % CHUNKS}
SetRes(r) == IF "valid_set" \in DOMAIN r THEN [r EXCEPT !.valid_set = ToSet(@), !.grants_set = ToSet(@), !.perms_set = ToSet(@)] ELSE r
Bad(name, ok) == IF ok THEN {} ELSE {name}
Broken(f, a, r, t) ==
  Bad("M01", M01(t) /\ M01Step(f, a, r, t)) \cup Bad("M02", M02Step(f, a, r, t)) \cup Bad("M03", M03(t) /\ M03Step(f, a, r, t))
  \cup Bad("M04", M04Step(f, a, r, t)) \cup Bad("M05", M05Step(f, a, r, t)) \cup Bad("M06", M06(t) /\ M06Step(f, a, r, t))
  \cup Bad("M07", M07(t) /\ M07Step(f, a, r, t)) \cup Bad("M08", M08Step(f, a, r, t)) \cup Bad("M09", M09Step(f, a, r, t))
Judge == i > 0 =>
  LET e == T[i]  f == FromJson(e.f)  t == FromJson(e.t)  r == SetRes(e.r)  x == Step(f, e.a)  b == Broken(f, e.a, r, t) IN
  (x.st = t /\ x.res = r /\ b = {}) \/ PrintT(ToJson([i |-> i, st |-> x.st, res |-> x.res, broken_set |-> b]))
=============================================================================
