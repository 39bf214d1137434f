------------------------------ MODULE CidEval ------------------------------
(* op "cid": [d] -> out.ok, and out.text: the text a message with this content id is served with *)
EXTENDS Cid, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.IN)
Verdict(r) ==
  IF "panic" \in DOMAIN r.out THEN "bad: panic"
  ELSE LET x == CidOf(r.d) IN
       IF r.out.ok # x[1] THEN (IF r.out.ok THEN "bad: not a version 1 content id" ELSE "bad: content id refused")
       ELSE IF x[1] /\ r.out.text # Base32(x[2]) THEN "bad: served with another text" ELSE "ok"
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
