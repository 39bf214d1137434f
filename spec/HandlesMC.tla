----------------------------- MODULE HandlesMC -----------------------------
EXTENDS Handles
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Signers(k) == {k, B.other}
Acts(s) ==
  [k : {"claim", "change"}, key : Keys, signer : Keys, base : Bases, exp : s.block..(s.block + W), tamper : {"none", "base"}]
Relevant(s, a) == \* wrong signatures and odd payloads are varied one at a time
  \/ a.signer = a.key /\ a.tamper = "none"
  \/ a.exp = s.block + 1 /\ a.base = B.base /\ (a.signer = a.key \/ a.tamper = "none")
Others(s) ==
  [k : {"retire", "retiretx"}, key : Keys]
  \cup {[k |-> "preview", base |-> b, n |-> n] : b \in {x \in Bases : C.bases[x].ok}, n \in 1..2}
  \cup {[k |-> "validate", base |-> b] : b \in Bases}
  \cup (IF s.block < B.maxblock THEN {[k |-> "block", n |-> 1]} ELSE {})
  \cup (IF s.range < NR THEN {[k |-> "reconf", to |-> s.range + 1]} ELSE {})
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in {x \in Acts(st) : Relevant(st, x)} \cup Others(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
InvH03 == H03(st)
InvH04 == H04(st)
PropH05 == [][H05(st, act', res', st')]_vars
PropH06 == [][H06(st, act', res', st')]_vars
PropH04 == [][H04Step(st, act', res', st')]_vars
=============================================================================
