----------------------------- MODULE FiltersEval -----------------------------
(* One call or one authority question per line, with what the runtime answered in `out`. *)
EXTENDS Filters, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.IN)
Want(r) ==
  CASE r.op = "base" -> Base(r.net, r.call)
    [] r.op = "proxy" -> TypeAllows(r.ty, r.call)
    [] r.op = "passkey" -> Passkey(r.call)
    [] r.op = "superset" -> Superset(r.ty, r.of)
    [] r.op = "free" -> Free(r.call)
    [] r.op = "via" -> Stopped(r.net, Clean, "s", r.call)
    [] r.op = "auth" -> MayDo(r.what, r.by)
Verdict(r) ==
  IF "panic" \in {r.op} THEN "bad"
  ELSE IF r.out = TRUE \/ r.out = FALSE THEN (IF r.out = Want(r) THEN "ok" ELSE "bad: " \o r.op \o (IF r.out THEN " lets through" ELSE " stops"))
  ELSE "bad: panic"
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
