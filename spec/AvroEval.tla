------------------------------ MODULE AvroEval ------------------------------
EXTENDS Avro, Json, IOUtils
R == ndJsonDeserialize(IOEnv.IN)
\* number of map entries anywhere above one: the order of the bytes is then not determined
RECURSIVE Det(_)
Det(v) == CASE v[1] = "array" -> \A k \in DOMAIN v[2] : Det(v[2][k])
            [] v[1] = "map" -> Len(v[2]) <= 1 /\ \A k \in DOMAIN v[2] : Det(v[2][k][2])
            [] v[1] = "union" -> Det(v[3])
            [] v[1] = "record" -> \A k \in DOMAIN v[2] : Det(v[2][k][2])
            [] OTHER -> TRUE
\* Known finding A01-nested-order: the fields of a record inside the record are written in the order
\* given, not in the order of the schema.
RECURSIVE Disorder(_, _, _)
Disorder(D, s0, v) ==
  LET s == Named(D, s0) IN
  CASE s[1] = "array" -> \E k \in DOMAIN v[2] : Disorder(D, s[2], v[2][k])
    [] s[1] = "map" -> \E k \in DOMAIN v[2] : Disorder(D, s[2], v[2][k][2])
    [] s[1] = "union" -> Disorder(D, s[2][v[2] + 1], v[3])
    [] s[1] = "record" -> \/ \E j \in DOMAIN s[3] : v[2][j][1] # s[3][j][1]
                          \/ \E j \in DOMAIN s[3] : \E k \in DOMAIN v[2] : v[2][k][1] = s[3][j][1] /\ Disorder(D, s[3][j][2], v[2][k][2])
    [] OTHER -> FALSE
Verdict(r) ==
  IF "panic" \in DOMAIN r.out /\ r.op # "dec"
    THEN IF "badname" \in DOMAIN r /\ r.badname THEN "kf: A01-name-panic" ELSE "bad: panic" ELSE
  CASE r.op = "ser" ->
         IF r.s[1] # "record" THEN (IF r.out.ok THEN "bad: not a record" ELSE "ok")
         ELSE LET D == Defs(r.s)  v == Completed(r.s, r.m) IN
              IF ~Fits(D, r.s, v) THEN (IF r.out.ok THEN "bad: misfit accepted" ELSE "ok")
              ELSE IF ~r.out.ok THEN "bad: fitting record refused"
              ELSE LET b == Back(D, r.s, v) IN
                   IF Disorder(D, r.s, v) THEN (IF r.out.back /\ Same(r.out.map, b) THEN "ok" ELSE "kf: A01-nested-order")
                   ELSE IF Det(b) /\ r.out.bytes # Enc(D, r.s, b) THEN "bad: bytes"
                   ELSE IF ~r.out.back THEN "bad: written data not readable"
                   ELSE IF ~Same(r.out.map, b) THEN "bad: read back differently"
                   ELSE IF ~r.out.ctr /\ r.out.bytes # <<>> THEN "bad: container written by the schema writer reads back differently" ELSE "ok"
    [] r.op = "dec" ->
         LET D == Defs(r.s)  strict == Dec(TRUE, D, r.s, r.d, 1)  asis == Dec(FALSE, D, r.s, r.d, 1) IN
         IF "panic" \in DOMAIN r.out
           THEN IF ~asis[1] /\ asis[2] = <<"panic">> THEN "kf: A01-enum-panic" ELSE "bad: panic"
         ELSE IF r.s[1] # "record" THEN (IF r.out.ok THEN "bad: not a record" ELSE "ok")
         ELSE IF strict[1] THEN (IF r.out.ok /\ Same(r.out.map, strict[2]) THEN "ok" ELSE "bad: valid data")
         ELSE IF ~r.out.ok THEN "ok"
         ELSE IF asis[1] /\ Same(r.out.map, asis[2]) THEN "kf: A01-truncated" ELSE "bad: invalid data accepted"
    [] r.op = "parse" ->
         IF r.good THEN
           IF ~r.out.fp \/ ~r.out.valid \/ ~r.out.tr THEN "bad: valid schema refused"
           ELSE IF r.out.canon # Canon(r.s) THEN "bad: fingerprint"
           ELSE IF ~r.out.again THEN "bad: fingerprint of the canonical form differs" ELSE "ok"
         ELSE IF r.out.fp \/ r.out.valid \/ r.out.tr THEN "bad: malformed schema accepted" ELSE "ok"
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
