------------------------------- MODULE MsaMC -------------------------------
EXTENDS Msa
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Kinds == ToSet(B.kinds)
On(k, S) == IF k \in Kinds THEN S ELSE {}
Some == ToSet(B.actors)                     \* keys that act
Ids0 == ToSet(B.ids)
Exps == ToSet(B.exps)
Frees == ToSet(B.free)
Provs(k) == {[k |-> k, by |-> b, key |-> x, signer |-> x, tamper |-> "none", auth |-> au, schemas |-> B.schemas[j], exp |-> e] :
              b \in ToSet(B.providers), x \in Some, au \in ToSet(B.auths), j \in DOMAIN B.schemas, e \in Exps}
\* odd payloads, one deviation at a time
Odd(k) == LET g == [k |-> k, by |-> B.providers[1], key |-> B.victim, signer |-> B.victim, tamper |-> "none", auth |-> B.auths[1], schemas |-> B.schemas[1], exp |-> B.exps[1]] IN
  {[g EXCEPT !.signer = x] : x \in Some} \cup {[g EXCEPT !.tamper = x] : x \in {"auth", "exp", "schemas", "unwrapped"}} \cup {[g EXCEPT !.by = x] : x \in Some}
Adds(o, n) == [k |-> "addkey", owner |-> o, key |-> n, osigner |-> o, nsigner |-> n, otamper |-> "none", ntamper |-> "none", msa |-> 1, exp |-> B.exps[1]]
AddOdd == LET g == Adds(B.actors[1], B.victim) IN
  {[g EXCEPT !.osigner = x] : x \in Some} \cup {[g EXCEPT !.nsigner = x] : x \in Some}
  \cup {[g EXCEPT !.otamper = x] : x \in {"msa", "exp", "key", "unwrapped"}} \cup {[g EXCEPT !.ntamper = x] : x \in {"msa", "exp", "key", "unwrapped"}}
Acts(s) ==
  On("create", [k : {"create"}, key : Some])
  \cup On("sponsor", Provs("sponsor")) \cup On("grant", Provs("grant"))
  \cup On("odd", Odd("sponsor") \cup Odd("grant") \cup AddOdd)
  \cup On("addkey", {[Adds(o, n) EXCEPT !.msa = m, !.exp = e] : o \in Some, n \in Some, m \in Ids0, e \in Exps})
  \cup On("del", [k : {"del"}, key : Some, del : Some, free : Frees])
  \cup On("retire", [k : {"retire"}, key : Some, free : Frees])
  \cup On("revd", [k : {"revd"}, key : Some, id : Ids0, free : Frees])
  \cup On("revp", [k : {"revp"}, key : Some, id : Ids0, free : Frees])
  \cup On("revs", [k : {"revs"}, key : Some, id : Ids0, schemas : {B.schemas[j] : j \in DOMAIN B.schemas}])
  \cup On("provider", [k : {"provider"}, key : Some, name : ToSet(B.names)])
  \cup On("propose", [k : {"propose"}, key : Some, name : ToSet(B.names)])
  \cup On("govern", [k : {"govern"}, key : Some, name : ToSet(B.names), root : BOOLEAN])
  \cup On("hclaim", [k : {"hclaim", "hretire"}, key : Some])
  \cup On("ask", [k : {"ask"}, b : (0 - 1)..(s.block + 1)])
  \cup (IF s.block < B.maxblock THEN {[k |-> "block", n |-> 1]} ELSE {})
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
InvM01 == M01(st)
InvM03 == M03(st)
InvM06 == M06(st)
InvM07 == M07(st)
PropM01 == [][M01Step(st, act', res', st')]_vars
PropM02 == [][M02Step(st, act', res', st')]_vars
PropM03 == [][M03Step(st, act', res', st')]_vars
PropM04 == [][M04Step(st, act', res', st')]_vars
PropM05 == [][M05Step(st, act', res', st')]_vars
PropM06 == [][M06Step(st, act', res', st')]_vars
PropM07 == [][M07Step(st, act', res', st')]_vars
PropM08 == [][M08Step(st, act', res', st')]_vars
PropM09 == [][M09Step(st, act', res', st')]_vars
=============================================================================
