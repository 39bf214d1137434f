----------------------------- MODULE MessagesMC -----------------------------
EXTENDS Messages
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Kinds == ToSet(B.kinds)
On(k, S) == IF k \in Kinds THEN S ELSE {}
Schs == ToSet(B.schemas)
Acts(s) ==
  (IF Cardinality(s.msg_set) < B.maxmsg \/ s.idx = 65535 THEN
     On("onchain", [k : {"onchain"}, by : ToSet(B.callers), of : ToSet(B.authors), s : Schs, c : ToSet(B.contents)])
     \cup On("ipfs", [k : {"ipfs"}, by : ToSet(B.callers), s : Schs, cid : ToSet(B.cids), len : ToSet(B.lens)]) ELSE {})
  \cup (IF s.block < B.maxblock THEN {[k |-> "block", n |-> 1]} ELSE {})
  \cup On("allow", [k : {"allow"}, d : ToSet(B.owners), p : ToSet(B.delegates), schemas : ToSet(B.grants)])
  \cup On("deny", [k : {"deny"}, d : ToSet(B.owners), p : ToSet(B.delegates), s : Schs])
  \cup On("cut", [k : {"cut"}, d : ToSet(B.owners), p : ToSet(B.delegates)])
  \cup On("key", [k : {"key"}, key : ToSet(B.loose), m : ToSet(B.owners)]) \cup On("key", [k : {"unkey"}, key : ToSet(B.loose)])
  \cup On("page", [k : {"page"}, s : Schs, from : ToSet(B.froms), at : ToSet(B.ats), to : ToSet(B.tos), size : ToSet(B.sizes)])
  \cup On("walk", [k : {"walk"}, s : Schs, from : ToSet(B.froms), to : ToSet(B.tos), size : ToSet(B.sizes)])
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
InvG01 == G01(st)
PropG01 == [][G01Step(st, act', res', st')]_vars
PropG02 == [][G02Step(st, act', res', st')]_vars
PropG03 == [][G03Step(st, act', res', st')]_vars
=============================================================================
