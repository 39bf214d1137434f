----------------------------- MODULE OffchainMC -----------------------------
EXTENDS Offchain
VARIABLES st, act, res
vars == <<st, act, res>>
B == C.mc
Rec(S, f) == {f @@ x : x \in S}
Acts(s) ==
  (IF s.max < C.msas THEN [k : ToSet(B.news), key : KEYS] ELSE {})
  \cup (IF s.b < B.maxblock \/ s.open
        THEN [k : {"add", "del"} \cap ToSet(B.kinds), by : KEYS, key : KEYS] \cup [k : {"retire"} \cap ToSet(B.kinds), key : KEYS] ELSE {})
  \cup (IF s.b < B.maxblock \/ s.open THEN {[k |-> "seal", n |-> 1]} ELSE {})
  \cup (IF s.open THEN {}
        ELSE [k : {"work"}, rpc : {"ok"}, n : {1}, fin : {f \in s.fin..s.b : f >= 1}]
             \cup [k : {"work"}, rpc : ToSet(B.replies), n : {1}, fin : {s.b - 1}])
Do(a) == LET x == Step(st, a) IN act' = a /\ st' = x.st /\ res' = x.res
Init == st = InitSt /\ act = [k |-> "init"] /\ res = Ok
Go == B.depth = 0 \/ TLCGet("level") < B.depth
Next == Go /\ \E a \in Acts(st) : Do(a)
View == st
Emit == PrintT(ToJson([f |-> st, a |-> act', r |-> res', t |-> st']))
\* the design with a node that may die anywhere in the worker (no edges emitted)
Cut(s, fin) ==
  LET s0 == Started(s, fin)  s1 == Begun(s, fin)
      first == IF s.initd THEN {} ELSE {SetIdx(s0, [m \in Ms |-> IF m \in S THEN I(s1, m) ELSE I(s, m)]) : S \in SUBSET Ms}
      later == {LET c == Caught(s1, n)  d == Caught(c, n + 1) IN SetIdx(c, [m \in Ms |-> IF m \in S THEN I(d, m) ELSE I(c, m)]) :
                  S \in SUBSET Ms, n \in s1.last..(fin - 1)}
  IN {s} \cup first \cup {s1} \cup later
Die == /\ ~st.open /\ \E fin \in {f \in st.fin..st.b : Known(st, f)} : \E t \in Cut(st, fin) :
          LET a == [k |-> "crash", rpc |-> "ok", n |-> 1, fin |-> fin] IN
          act' = a /\ st' = [t EXCEPT !.fin = Max({st.fin, fin})] /\ res' = [r |-> "ok", died |-> TRUE]
NextD == Go /\ (Die \/ \E a \in Acts(st) : Do(a))
PropM10 == [][M10Step(st, act', res', st')]_vars
Inv == M10State(st)
=============================================================================
