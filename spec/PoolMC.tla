-------------------------------- MODULE PoolMC --------------------------------
EXTENDS Pool
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Acts(s) ==
  (IF Len(s.ready) + Len(s.fut) < B.pool
   THEN UNION {{[k |-> "submit", who |-> w, n |-> n] : n \in s.nonce[w]..B.top} : w \in ACCS} \cup [k : {"other"}, n : ToSet(B.others)] ELSE {})
  \cup [k : {"drop"}, who : ACCS] \cup {[k |-> "tidy"]}
  \cup {[k |-> "ahead", who |-> w, n |-> n] : w \in {x \in ACCS : s.nonce[x] < B.ahead}, n \in 1..2}
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = Ok
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
Inv == U02State(st)
=============================================================================
