------------------------------ MODULE Handles ------------------------------
(* Life of handles: claim, change, retire, block progress, suffix-range      *)
(* reconfiguration (properties H03, H04, H05, H06). Deterministic step       *)
(* semantics Step(st, a) = [st, res]; TLC explores every action from every   *)
(* reachable state, prints each edge for replay into the pallet, and judges  *)
(* recorded histories with the same Step.                                    *)
EXTENDS HandleData

C == JsonDeserialize(IOEnv.CFG)
Keys == DOMAIN C.keys            \* key |-> MSA id (0: none)
Bases == DOMAIN C.bases          \* token |-> [cps, canon, ok]
Canons == {C.bases[b].canon : b \in {x \in Bases : C.bases[x].ok}}
Msas == DOMAIN C.msas            \* "1", "2", ...
NR == Len(C.ranges)              \* suffix ranges <<min, max>>, pairwise disjoint
W == C.window

\* consistency of the configuration with the data-level specification
Rep(c) == CHOOSE b \in Bases : C.bases[b].ok /\ C.bases[b].canon = c
ASSUME \A b \in Bases : C.bases[b].utf8 => (WellFormed(C.bases[b].cps) = C.bases[b].ok)
ASSUME \A a, b \in {x \in Bases : C.bases[x].ok} :
          (C.bases[a].canon = C.bases[b].canon) <=> (Canon(C.bases[a].cps) = Canon(C.bases[b].cps))

\* computed once: TLC does not cache definitions that involve recursive operators
ASSUME TLCSet(41, TLCEval([c \in Canons |-> [r \in 1..NR |-> SuffixSeq(C.ranges[r][1], C.ranges[r][2], Utf8(Canon(C.bases[Rep(c)].cps)))]]))
Order == TLCGet(41)
\* all suffix numbers of all ranges, in a fixed order
RECURSIVE AllFrom(_)
AllFrom(r) == IF r > NR THEN <<>> ELSE [k \in 1..(C.ranges[r][2] - C.ranges[r][1] + 1) |-> C.ranges[r][1] + k - 1] \o AllFrom(r + 1)
ASSUME TLCSet(42, TLCEval(AllFrom(1)))
All == TLCGet(42)
Pos(sfx) == CHOOSE k \in DOMAIN All : All[k] = sfx

None == [base |-> "-", suffix |-> 0, exp |-> 0]
InitSt == [block |-> 1, range |-> 1,
           disp |-> [m \in Msas |-> None],
           idx |-> [c \in Canons |-> [i |-> -1, min |-> 0]],
           own |-> [c \in Canons |-> [k \in DOMAIN All |-> "0"]],
           cnt |-> [c \in Canons |-> [k \in DOMAIN All |-> 0]]]   \* times handed out

RMin(st) == C.ranges[st.range][1]
\* index (from 0) the next claim of this base will use
NextIdx(st, c) == IF st.idx[c].i = -1 \/ st.idx[c].min # RMin(st) THEN 0 ELSE st.idx[c].i + 1
Seqn(st, c) == Order[c][st.range]
SigOk(a) == a.signer = a.key /\ a.tamper = "none"
ExpOk(st, a) == st.block < a.exp /\ a.exp < st.block + W
MsaOf(k) == C.keys[k]
Has(st, m) == st.disp[m].base # "-"

Err(st) == [st |-> st, res |-> [r |-> "err"]]
CanIssue(st, b) == C.bases[b].ok /\ NextIdx(st, C.bases[b].canon) < Len(Seqn(st, C.bases[b].canon))

\* state after m receives the next suffix of base b
Issue(st, m, b, exp) ==
  LET c == C.bases[b].canon
      n == NextIdx(st, c)
      sfx == Seqn(st, c)[n + 1]
      k == Pos(sfx)
  IN [st |-> [st EXCEPT !.disp[m] = [base |-> b, suffix |-> sfx, exp |-> exp],
                        !.idx[c] = [i |-> n, min |-> RMin(st)],
                        !.own[c][k] = m,
                        !.cnt[c][k] = @ + 1],
      res |-> [r |-> "ok", suffix |-> sfx]]
Drop(st, m) ==
  LET d == st.disp[m]  c == C.bases[d.base].canon
  IN [st EXCEPT !.disp[m] = None, !.own[c][Pos(d.suffix)] = "0"]

Claim(st, a) ==
  LET m == MsaOf(a.key) IN
  IF m # "0" /\ SigOk(a) /\ ExpOk(st, a) /\ ~Has(st, m) /\ CanIssue(st, a.base)
  THEN Issue(st, m, a.base, a.exp) ELSE Err(st)
Change(st, a) ==
  LET m == MsaOf(a.key) IN
  IF m # "0" /\ SigOk(a) /\ ExpOk(st, a) /\ Has(st, m) /\ CanIssue(st, a.base)
  THEN Issue(Drop(st, m), m, a.base, a.exp) ELSE Err(st)
\* the call itself; whether it may be submitted for free is RetireTx
Retire(st, a) ==
  LET m == MsaOf(a.key) IN
  IF m # "0" /\ Has(st, m) THEN [st |-> Drop(st, m), res |-> [r |-> "ok"]] ELSE Err(st)
RetireTx(st, a) ==
  LET m == MsaOf(a.key) IN
  IF m # "0" /\ Has(st, m) /\ st.block >= st.disp[m].exp
  THEN [st |-> Drop(st, m), res |-> [r |-> "ok"]] ELSE Err(st)
Preview(st, a) ==
  LET c == C.bases[a.base].canon
      q == Seqn(st, c)
      n == NextIdx(st, c)
  IN [st |-> st, res |-> [r |-> "ok", suffixes |-> SubSeq(q, n + 1, IF n + a.n < Len(q) THEN n + a.n ELSE Len(q))]]

Step(st, a) ==
  CASE a.k = "claim" -> Claim(st, a)
    [] a.k = "change" -> Change(st, a)
    [] a.k = "retire" -> Retire(st, a)
    [] a.k = "retiretx" -> RetireTx(st, a)
    [] a.k = "block" -> [st |-> [st EXCEPT !.block = @ + a.n], res |-> [r |-> "ok"]]
    [] a.k = "reconf" -> [st |-> [st EXCEPT !.range = a.to], res |-> [r |-> "ok"]]
    [] a.k = "preview" -> Preview(st, a)
    [] a.k = "validate" -> [st |-> st, res |-> [r |-> "ok", v |-> C.bases[a.base].ok]]

---------------------------------------------------------------------------
(* Properties, over a state and over a step *)
H03(st) ==
  /\ \A m \in Msas : Has(st, m) => st.own[C.bases[st.disp[m].base].canon][Pos(st.disp[m].suffix)] = m
  /\ \A c \in Canons, k \in DOMAIN All : st.own[c][k] # "0" =>
        LET m == st.own[c][k] IN
        m \in Msas /\ Has(st, m) /\ C.bases[st.disp[m].base].canon = c /\ st.disp[m].suffix = All[k]
H04(st) == \A c \in Canons, k \in DOMAIN All : st.cnt[c][k] <= 1
\* a handle appears or moves only by a fresh signature of a key of its MSA; it goes away for free
\* only by its owner after its claim payload expired
H06(f, a, r, t) ==
  /\ \A m \in Msas : (t.disp[m] # f.disp[m] /\ t.disp[m].base # "-") =>
        /\ a.k \in {"claim", "change"} /\ MsaOf(a.key) = m /\ a.signer = a.key /\ a.tamper = "none"
        /\ f.block < a.exp /\ a.exp < f.block + W
        /\ t.disp[m].base = a.base
  /\ \A m \in Msas : (Has(f, m) /\ ~Has(t, m)) =>
        a.k \in {"retire", "retiretx"} /\ MsaOf(a.key) = m /\ (a.k = "retiretx" => f.block >= f.disp[m].exp)
H05(f, a, r, t) ==
  /\ (a.k \in {"claim", "change"} /\ r.r = "ok") => C.bases[a.base].ok
  /\ a.k = "validate" => r.v = C.bases[a.base].ok
\* previewed suffixes are the ones then issued
H04Step(f, a, r, t) ==
  (a.k \in {"claim", "change"} /\ r.r = "ok") => r.suffix = Preview(f, [base |-> a.base, n |-> 1]).res.suffixes[1]
=============================================================================
