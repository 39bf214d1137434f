----------------------------- MODULE HandleEval -----------------------------
(* Judges recorded answers of the real code (IN, one JSON object per line).  *)
EXTENDS HandleData
R == ndJsonDeserialize(IOEnv.IN)

\* Known finding H01-L: 'L' (and what decomposes to it) is not folded onto 'l' because the
\* confusables are replaced before lower-casing. H01-decomposed: these characters decompose to a
\* space, or to a character of another confusables line, before the confusables are looked up.
HasL(c) == c < 196608 /\ 76 \in {Decomp(c)[k] : k \in DOMAIN Decomp(c)}
LFix(s) == [k \in DOMAIN s |-> IF s[k] = 108 THEN 49 ELSE s[k]]

\* characters whose confusables line is not applied to what they decompose to
Odd(c) == Canon(Canon(<<c>>)) # Canon(<<c>>) \/ (Decomp(c) # <<c>> /\ Conf(c) # c)

Verdict(r) ==
  IF "panic" \in DOMAIN r.out THEN "bad: panic" ELSE
  CASE r.op = "canon" ->
         IF r.out.canon # Canon(r.s) THEN "bad: canonical form"
         ELSE IF r.out.again # Canon(Canon(r.s)) THEN "bad: canonical form of canonical form"
         ELSE IF r.out.again = r.out.canon THEN "ok"
         ELSE IF r.out.again = LFix(r.out.canon) THEN "kf: H01-L" 
         ELSE "kf: H01-decomposed"
    [] r.op = "same" ->   \* the two spellings s and v must agree
         IF r.out.canon # Canon(r.s) \/ r.out.vcanon # Canon(r.v) THEN "bad: canonical form"
         ELSE IF r.out.canon = r.out.vcanon THEN "ok"
         ELSE IF LFix(Canon(r.s)) = LFix(Canon(r.v)) THEN "kf: H01-L"
         ELSE IF \E k \in DOMAIN r.v : Odd(r.v[k]) THEN "kf: H01-decomposed"
         ELSE IF \E k \in DOMAIN r.s : Odd(r.s[k]) THEN "kf: H01-decomposed"
         ELSE "bad: spellings differ"
    [] r.op = "offer" ->
         IF (r.out.claim = "ok") = Claimable(r.b) /\ (r.out.change = "ok") = Claimable(r.b)
            /\ (Len(r.b) <= 32 => r.out.v = Claimable(r.b)) THEN "ok"
         ELSE IF (r.out.claim = "ok") = ClaimableTrunc(r.b) /\ (r.out.change = "ok") = ClaimableTrunc(r.b)
            /\ (Len(r.b) <= 32 => r.out.v = ClaimableTrunc(r.b)) THEN "kf: H05-astral"
         ELSE "bad: verdict on the offered handle"
    [] r.op = "valid" ->
         IF r.out.res # IsReserved(r.s) THEN "bad: reserved"
         ELSE IF r.out.blk # HasBlocked(r.s) THEN "bad: blocked"
         ELSE IF r.out.sup = Supported(r.s) THEN "ok"
         ELSE IF r.out.sup = SupportedTrunc(r.s) /\ (\E k \in DOMAIN r.s : r.s[k] > 65535) THEN "kf: H05-astral"
         ELSE "bad: supported"
    [] r.op = "split" -> IF r.out = SplitName(r.s) THEN "ok" ELSE "bad: split"
    [] r.op = "suffix" ->
         LET q == r.out.full IN
         IF ~IsPermutation(q, r.min, r.max) THEN "bad: not a permutation"
         ELSE IF r.out.again # q THEN "bad: not deterministic"
         ELSE IF r.out.pre # SubSeq(q, 1, IF r.take < Len(q) THEN r.take ELSE Len(q)) THEN "bad: prefix"
         ELSE IF r.out.nth # (IF r.take < Len(q) THEN q[r.take + 1] ELSE -1) THEN "bad: nth"
         ELSE IF r.out.seed # Seed(Utf8(r.s)) THEN "bad: seed"
         ELSE IF SubSeq(q, 1, r.ref) # SuffixSeqN(r.min, r.max, Utf8(r.s), r.ref) THEN "bad: sequence"
         ELSE "ok"
    [] OTHER -> "bad: unknown op"

CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
