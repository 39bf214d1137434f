---------------------------- MODULE TimeReleaseMC ----------------------------
EXTENDS TimeRelease
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Has(k) == \E j \in DOMAIN B.kinds : B.kinds[j] = k
S(q) == {q[j] : j \in DOMAIN q}
Acts(s) ==
  (IF Has("transfer") THEN [k : {"transfer"}, by : S(B.from), to : S(B.to), s : S(B.scheds)] ELSE {})
  \cup (IF Has("claim") THEN [k : {"claim"}, by : S(B.to)] \cup [k : {"claimfor"}, by : S(B.from), to : S(B.to)] ELSE {})
  \cup (IF Has("update") THEN [k : {"update"}, root : BOOLEAN, to : S(B.to), list : S(B.lists)] ELSE {})
  \cup (IF Has("send") THEN [k : {"send"}, by : S(B.to), to : S(B.from), n : S(B.sends)] \cup [k : {"send"}, by : S(B.from), to : S(B.to), n : S(B.sends)] ELSE {})
  \cup (IF Has("lock") THEN [k : {"lock"}, to : S(B.to), n : S(B.locks)] ELSE {})
  \cup (IF s.now < B.maxnow THEN [k : {"tick"}, n : S(B.ticks)] ELSE {})
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
InvR01 == R01(st)
InvR02 == R02(st)
PropR01 == [][R01Step(st, act', res', st')]_vars
PropR02 == [][R02Step(st, act', res', st')]_vars
=============================================================================
