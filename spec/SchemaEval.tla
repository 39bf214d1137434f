----------------------------- MODULE SchemaEval -----------------------------
(* op "model": [type, d] -> out.ok; op "name": [d] -> out [ok, name] (registered as), ask [ok, got]: what a query for the
   name and for its namespace returns afterwards *)
EXTENDS SchemaData, SequencesExt, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.IN)
Verdict(r) ==
  IF "panic" \in DOMAIN r.out THEN "bad: panic"
  ELSE IF r.op = "model" THEN (IF r.out.ok = ModelOk(r.type, r.d) THEN "ok" ELSE IF r.out.ok THEN "bad: malformed model registered" ELSE "bad: well-formed model refused")
  ELSE LET p == Name(r.d, TRUE)  q == Name(r.d, FALSE) IN
       IF r.out.ok # p[1] THEN (IF r.out.ok THEN "bad: malformed name accepted" ELSE "bad: well-formed name refused")
       ELSE IF p[1] /\ r.out.name # p[2] \o <<46>> \o p[3] THEN "bad: not the canonical form"
       ELSE IF r.out.ask # q[1] THEN "bad: query of a name"
       ELSE IF p[1] /\ (~r.out.found \/ ~r.out.space) THEN "bad: registered name not found" ELSE "ok"
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
