----------------------------- MODULE StatefulMC -----------------------------
EXTENDS Stateful
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Kinds == ToSet(B.kinds)
On(k, S) == IF k \in Kinds THEN S ELSE {}
Pages == ToSet(B.pages)
Blobs == ToSet(B.blobs)
Lists == ToSet(B.lists)
Schs == ToSet(B.schemas)
Owners == ToSet(B.owners)
\* the current hash, nothing, and the same content one write earlier
Targets(s, m, sc, p) ==
  LET g == Cur(s, m, sc, p) IN {HashOf(g)} \cup (IF B.stale THEN {ZERO} \cup (IF g.n > 1 THEN {<<g.n - 1, g.v>>} ELSE {}) ELSE {})
None == <<"", 0>>
Base == [w |-> "items", s |-> 0, p |-> 0, target |-> ZERO, acts |-> <<>>, data |-> None]
Bodies(s, m) ==
  On("items", {[Base EXCEPT !.w = "items", !.s = sc, !.target = t, !.acts = q] : sc \in Schs, t \in UNION {Targets(s, m, x, ITEMS) : x \in Schs}, q \in Lists})
  \cup On("page", UNION {{[Base EXCEPT !.w = "page", !.s = sc, !.p = p, !.target = t, !.data = b] : t \in Targets(s, m, sc, p), b \in Blobs} : sc \in Schs, p \in Pages})
  \cup On("drop", UNION {{[Base EXCEPT !.w = "drop", !.s = sc, !.p = p, !.target = t] : t \in Targets(s, m, sc, p)} : sc \in Schs, p \in Pages})
By(b, k, o) == [k |-> "write", by |-> k, owner |-> o] @@ b
Sig(b, x, v, m, e, sg, tp) == [k |-> "signed", key |-> x, signer |-> sg, v |-> v, msa |-> m, exp |-> e, tamper |-> tp] @@ b
Vs == ToSet(B.versions)
Acts(s) ==
  On("write", UNION {{By(b, k, o) : b \in Bodies(s, o), k \in ToSet(B.callers)} : o \in Owners})
  \cup On("signed", UNION {{Sig(b, x, v, s.key[x], e, x, "none") : b \in Bodies(s, s.key[x]), v \in Vs, e \in ToSet(B.exps)} : x \in ToSet(B.signers)})
  \cup On("odd", UNION {{Sig(b, x, v, m, B.exps[1], sg, tp) : b \in {y \in Bodies(s, s.key[x]) : y.s \in {1, 2} /\ y.target = HashOf(Cur(s, s.key[x], y.s, IF y.w = "items" THEN ITEMS ELSE y.p))
                                        /\ y.acts \in {<<>>, B.lists[1]}}, v \in Vs, m \in {s.key[x], B.owners[1]}, sg \in ToSet(B.signers), tp \in ToSet(B.tampers)} : x \in ToSet(B.signers)})
  \cup On("allow", [k : {"allow"}, d : Owners, p : ToSet(B.delegates), schemas : ToSet(B.grants)])
  \cup On("deny", [k : {"deny"}, d : Owners, p : ToSet(B.delegates), s : Schs])
  \cup On("cut", [k : {"cut"}, d : Owners, p : ToSet(B.delegates)])
  \cup On("key", [k : {"key"}, key : ToSet(B.loose), m : Owners]) \cup On("key", [k : {"unkey"}, key : ToSet(B.loose)])
  \cup (IF s.block < B.maxblock THEN {[k |-> "block", n |-> 1]} ELSE {})
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Bounded(s) == \A g \in s.page_set : g.n <= B.maxn \/ g.n > 60000
Next == Go /\ Bounded(st) /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
InvT04 == T04(st)
PropT01 == [][T01Step(st, act', res', st')]_vars
PropT02 == [][T02Step(st, act', res', st')]_vars
PropT03 == [][T03Step(st, act', res', st')]_vars
PropT04 == [][T04Step(st, act', res', st')]_vars
PropT05 == [][T05Step(st, act', res', st')]_vars
=============================================================================
