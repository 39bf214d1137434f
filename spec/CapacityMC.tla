----------------------------- MODULE CapacityMC -----------------------------
EXTENDS Capacity
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Acts(s) ==
  [k : {"stake"}, acc : Accs, target : Msas, amount : {B.stakes[j] : j \in DOMAIN B.stakes}]
  \cup [k : {"unstake"}, acc : Accs, target : {m \in Msas : C.msas[m]}, amount : {B.unstakes[j] : j \in DOMAIN B.unstakes}]
  \cup [k : {"withdraw"}, acc : Accs]
  \cup [k : {"xfer"}, acc : Accs, to : Accs, amount : {B.xfers[j] : j \in DOMAIN B.xfers}]
  \cup [k : {"spend"}, msa : Msas, amount : {B.spends[j] : j \in DOMAIN B.spends}]
  \cup [k : {"can"}, msa : Msas]
  \cup [k : {"replby"}, msa : Msas, amount : {B.repls[j] : j \in DOMAIN B.repls}]
  \cup [k : {"elen"}, n : {B.elens[j] : j \in DOMAIN B.elens}, root : BOOLEAN]
  \cup (IF s.block < B.maxblock THEN {[k |-> "block", n |-> 1]} ELSE {})
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
InvC01 == C01(st)
InvC02 == C02(st)
InvC03 == C03(st)
InvC04 == C04(st)
PropC01 == [][C01Step(st, act', res', st')]_vars
PropC02 == [][C02Step(st, act', res', st')]_vars
PropC03 == [][C03Step(st, act', res', st')]_vars
PropC04 == [][C04Step(st, act', res', st')]_vars
=============================================================================
