-------------------------------- MODULE TxMC --------------------------------
EXTENDS Tx
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Nonces(s, w) == LET n == s.acc[w].n IN {n, n + 1} \cup (IF n > 0 THEN {n - 1} ELSE {})
Acts(s) ==
  {[k |-> k, who |-> w, nonce |-> n, call |-> B.calls[j], len |-> l, tip |-> tp] :
     k \in ToSet(B.txkinds), w \in ToSet(B.who), n \in UNION {Nonces(s, w) : w \in ToSet(B.who)}, j \in DOMAIN B.calls, l \in ToSet(B.lens), tp \in ToSet(B.tips)}
  \cup {[k |-> k, who |-> w, nonce |-> n, sig |-> sg, call |-> B.pkcalls[j]] :
     k \in ToSet(B.pkkinds), w \in ToSet(B.who), n \in UNION {Nonces(s, w) : w \in ToSet(B.who)}, sg \in ToSet(B.sigs), j \in DOMAIN B.pkcalls}
  \cup (IF s.block < B.maxblock THEN {[k |-> "block", n |-> 1]} ELSE {})
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
PropP01 == [][P01Step(st, act', res', st')]_vars
PropP02 == [][P02Step(st, act', res', st')]_vars
PropN01 == [][N01Step(st, act', res', st')]_vars
PropK01 == [][K01Step(st, act', res', st')]_vars
=============================================================================
