--------------------------------- MODULE Pool ---------------------------------
(* The transaction pool as one node sees it, and what the node tells a wallet about it (node/service/src/rpc/frequency_rpc.rs):
   which nonces are still missing before the transactions it holds back can run, and what events a block left.

   A transaction is <<account, nonce>>. The pool has two parts: those that can run now, in an order where an account's nonces
   ascend, and those held back because an earlier nonce is missing. The chain may be ahead of the pool ("ahead"): the node already
   knows the new block while the pool still holds what the block made obsolete. Two different transactions of an account may be
   held back for the same nonce. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions
C == JsonDeserialize(IOEnv.CFG)
ACCS == ToSet(C.accs)
Limit == 1000
Ok == [r |-> "ok"]
No == [r |-> "no"]
Nonces(q, a) == {q[i][2] : i \in {j \in 1..Len(q) : q[j][1] = a}}
RECURSIVE FirstFree(_, _)
FirstFree(S, n) == IF n \in S THEN FirstFree(S, n + 1) ELSE n
\* the nonce the account's next transaction needs in order to run
Due(st, a) == FirstFree(Nonces(st.ready, a), st.nonce[a])
\* what is missing: every nonce from there to the last one held back that nothing held back has - the first thousand of them
Missing(st, a) ==
  LET d == Due(st, a)  F == {n \in Nonces(st.fut, a) : n >= d} IN
  IF F = {} THEN <<>>
  ELSE LET top == Min({Max(F) - 1, d + Limit + Cardinality(F)})
           gaps == SetToSortSeq((d..top) \ F, <) IN SubSeq(gaps, 1, Min({Limit, Len(gaps)}))
Tell(st) == [st EXCEPT !.miss = [a \in ACCS |-> Missing(st, a)]]
RECURSIVE Wake(_, _)
Wake(st, a) == \* what was held back for the due nonce can run; of several, one does
  LET d == Due(st, a) IN
  IF d \notin Nonces(st.fut, a) THEN st
  ELSE Wake([st EXCEPT !.ready = Append(@, <<a, d>>), !.fut = SelectSeq(@, LAMBDA x : x # <<a, d>>)], a)
RECURSIVE WakeAll(_, _)
WakeAll(st, as) == IF as = <<>> THEN st ELSE WakeAll(Wake(st, Head(as)), Tail(as))
Tidy(st) ==
  LET live(x) == x[1] \notin ACCS \/ x[2] >= st.nonce[x[1]] IN
  WakeAll([st EXCEPT !.ready = SelectSeq(@, live), !.fut = SelectSeq(@, live)], C.accs)
Told(e) == IF e.phase \in {"init", "fin"} THEN [e EXCEPT !.phase = "none"] ELSE e
Step(st, a) ==
  LET R(s) == [st |-> Tell(s), res |-> Ok] IN
  CASE a.k = "submit" ->
         IF a.n < st.nonce[a.who] \/ a.n \in Nonces(st.ready, a.who) THEN [st |-> st, res |-> No]
         ELSE IF a.n = Due(st, a.who) THEN R(Wake([st EXCEPT !.ready = Append(@, <<a.who, a.n>>)], a.who))
         ELSE R([st EXCEPT !.fut = Append(@, <<a.who, a.n>>)])
    [] a.k = "other" -> R([st EXCEPT !.fut = Append(@, <<"x", a.n>>), !.ready = Append(@, <<"x", a.n>>)]) \* tags of another kind
    [] a.k = "ahead" -> R([st EXCEPT !.nonce[a.who] = @ + a.n])
    [] a.k = "tidy" -> R(Tidy(st))
    [] a.k = "drop" -> \* the account's last ready transaction is turned out
         LET S == {n \in Nonces(st.ready, a.who) : n >= st.nonce[a.who]} IN
         IF S = {} THEN [st |-> st, res |-> No] ELSE R([st EXCEPT !.ready = SelectSeq(@, LAMBDA x : x # <<a.who, Max(S)>>)])
    \* events of a block, each with the transaction it belongs to (none at the start and end of a block): asked for one of two blocks
    [] a.k = "events" -> [st |-> st, res |-> [r |-> "ok", list |-> [i \in 1..Len(a.blocks[a.at]) |-> Told(a.blocks[a.at][i])]]]
InitSt == [nonce |-> [a \in ACCS |-> 0], ready |-> <<>>, fut |-> <<>>, miss |-> [a \in ACCS |-> <<>>]]

(* ---- what must hold of an answer ---- *)
U02State(t) == \A a \in ACCS :
  LET M == t.miss[a]  S == ToSet(M)  d == Due(t, a)  F == Nonces(t.fut, a) IN
  /\ \A i \in 1..(Len(M) - 1) : M[i] < M[i + 1]
  /\ Len(M) <= Limit
  /\ \A n \in S : n >= d /\ n \notin F /\ \E f \in F : f > n         \* each is missing and blocks something,
  /\ Len(M) < Limit => \A f \in F : f > d => {n \in d..f : n \notin F} \subseteq S                  \* and nothing else blocks it:
  /\ (Len(M) < Limit /\ F # {}) =>                                                                     \* submit them and all can run
       LET w == Wake([t EXCEPT !.ready = @ \o [i \in 1..Len(M) |-> <<a, M[i]>>]], a) IN \A f \in Nonces(w.fut, a) : f < Due(w, a)
=============================================================================
