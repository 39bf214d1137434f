----------------------------- MODULE SchemasMC -----------------------------
EXTENDS Schemas
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Kinds == ToSet(B.kinds)
On(k, S) == IF k \in Kinds THEN S ELSE {}
Defs == {[by |-> "k1", model |-> m, type |-> ty, loc |-> l, settings |-> B.settings[j], ver |-> v] :
          m \in ToSet(B.models), ty \in ToSet(B.types), l \in ToSet(B.locs), j \in DOMAIN B.settings, v \in ToSet(B.vers)}
NamedDefs == {d @@ [named |-> FALSE, name |-> <<>>] : d \in Defs} \cup {d @@ [named |-> TRUE, name |-> B.names[j]] : d \in {e \in Defs : e.ver = 3}, j \in DOMAIN B.names}
GovDefs == {d \in NamedDefs : d.ver < 3 /\ ~d.named} \cup {[d EXCEPT !.ver = 2] : d \in {e \in NamedDefs : e.named}}
NameIds(s) == {i \in {0, 1, s.max - 2, s.max - 1, s.max, s.max + 1} : i >= 0 /\ i <= 65535} \cup (IF s.max < 8 THEN 0..(s.max + 1) ELSE {})
Acts(s) ==
  On("create", {[k |-> "create"] @@ d : d \in NamedDefs})
  \cup On("govern", {[k |-> "govern", root |-> r] @@ d : d \in GovDefs, r \in BOOLEAN})
  \cup (IF Len(s.pend) < B.maxpend THEN On("propose", {[k |-> "propose"] @@ d : d \in GovDefs}) \cup On("propname", [k : {"propname"}, by : {"k1"}, id : NameIds(s), name : ToSet(B.names)]) ELSE {})
  \cup On("name", [k : {"name"}, root : BOOLEAN, id : NameIds(s), name : ToSet(B.names)])
  \cup On("enact", [k : {"enact"}, i : DOMAIN s.pend])
  \cup On("limit", [k : {"limit"}, root : BOOLEAN, n : ToSet(B.limits)])
  \cup On("ask", [k : {"ask"}, name : ToSet(B.asks)])
  \cup On("valid", [k : {"valid"}, ids : {<<0>>, <<1>>, <<s.max>>, <<s.max + 1>>, <<1, s.max + 1>>, <<>>} \ {<<65536>>, <<1, 65536>>}])
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = [r |-> "ok"]
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ (st.max - B.base < B.maxsch \/ st.max = 65535) /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
InvS03 == S03(st)
PropS01 == [][S01Step(st, act', res', st')]_vars
PropS02 == [][S02Step(st, act', res', st')]_vars
PropS03 == [][S03Step(st, act', res', st')]_vars
=============================================================================
