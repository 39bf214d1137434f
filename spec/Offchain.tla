------------------------------ MODULE Offchain ------------------------------
(* The node-local index of every MSA's keys (pallets/msa/src/offchain_storage.rs).

   The chain keeps key -> MSA only. Every change of a key leaves an event in the node's offchain database; the offchain worker
   asks the node for its last finalized block and replays the events of the blocks up to it into a list of keys per MSA. The first
   run reads the chain's own key table instead. What the list must satisfy: once the worker is past the last event, it is the
   chain's key table - whatever was asked of it before, whatever the node replied, and wherever the node died in between. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions
C == JsonDeserialize(IOEnv.CFG)
Mn(m) == "m" \o ToString(m)
Ms == {Mn(m) : m \in 1..C.msas}
KEYS == ToSet(C.keys)
Sorted(S) == SelectSeq(C.keys, LAMBDA k : k \in S)   \* the configuration lists them in order
K(st, m) == ToSet(st.keys[m].v_set)
I(st, m) == ToSet(st.idx[m].v_set)
Num(m) == CHOOSE n \in 1..C.msas : Mn(n) = m
Owns(st, k) == {m \in 1..C.msas : k \in K(st, Mn(m))}
Ok == [r |-> "ok"]
Err == [r |-> "err"]
Horizon == 1000

(* ---- the index ---- *)
Put(S) == [v_set |-> S]
Replay(l, m, evs) == \* the list l of MSA m after these events
  FoldLeft(LAMBDA S, e : IF e[3] # m THEN S ELSE IF e[2] = "add" THEN S \cup {e[4]} ELSE S \ {e[4]}, l, evs)
UpTo(st, n) == SelectSeq(st.evs, LAMBDA e : e[1] <= n)
After(st, n) == SelectSeq(st.evs, LAMBDA e : e[1] > n)
Known(st, fin) == fin >= 1 /\ fin < st.b /\ fin > st.b - Horizon
SetIdx(st, f) == [st EXCEPT !.idx = [m \in Ms |-> [v_set |-> Sorted(f[m])]]]
\* the first run: where to go on from is noted first, then every key of the chain's table is in its list
Started(st, fin) == IF st.last # -1 THEN st ELSE [st EXCEPT !.last = fin - 1, !.evs = After(st, fin - 1)]
Begun(st, fin) ==
  IF st.initd THEN st
  ELSE LET s == Started(st, fin) IN [SetIdx(s, [m \in Ms |-> I(st, m) \cup K(st, m)]) EXCEPT !.initd = TRUE]
Caught(st, fin) ==
  IF fin <= st.last THEN st
  ELSE [SetIdx(st, [m \in Ms |-> Replay(I(st, m), Num(m), UpTo(st, fin))]) EXCEPT !.last = fin, !.evs = After(st, fin)]
Worker(st, fin) == IF ~Known(st, fin) THEN st ELSE Caught(Begun(st, fin), fin)

(* ---- the chain ---- *)
Open(st) == IF st.open THEN st ELSE [st EXCEPT !.open = TRUE, !.b = @ + 1]
Seal(st, n) == [st EXCEPT !.b = IF st.open THEN @ + n - 1 ELSE @ + n, !.open = FALSE]
Ev(st, kind, m, k) == [st EXCEPT !.evs = Append(@, <<st.b, kind, m, k>>)]
AddK(st, m, k) == Ev([st EXCEPT !.keys[Mn(m)].v_set = Sorted(ToSet(@) \cup {k})], "add", m, k)
DelK(st, m, k) == Ev([st EXCEPT !.keys[Mn(m)].v_set = Sorted(ToSet(@) \ {k})], "del", m, k)
New(st, k) == AddK([st EXCEPT !.max = @ + 1], st.max + 1, k)
Fin(st, a) == IF a.rpc = "ok" /\ a.fin > st.fin THEN [st EXCEPT !.fin = a.fin] ELSE st
Step(st, a) ==
  LET s == Open(st)  R(st2) == [st |-> st2, res |-> Ok]  No == [st |-> s, res |-> Err] IN
  CASE a.k = "create" -> IF Owns(st, a.key) # {} THEN No ELSE R(New(s, a.key))
    [] a.k = "sponsor" ->
         IF Owns(st, a.key) # {} \/ 1 \notin Owns(st, "p") THEN No
         ELSE R([New(s, a.key) EXCEPT !.dels_set = SortSeq(Append(@, st.max + 1), <)])
    [] a.k = "add" ->
         IF Owns(st, a.by) = {} \/ Owns(st, a.key) # {} THEN No ELSE R(AddK(s, CHOOSE m \in Owns(st, a.by) : TRUE, a.key))
    [] a.k = "del" ->
         IF a.by = a.key \/ Owns(st, a.by) = {} \/ Owns(st, a.by) # Owns(st, a.key) THEN No
         ELSE R(DelK(s, CHOOSE m \in Owns(st, a.by) : TRUE, a.key))
    [] a.k = "churn" -> \* in or out, n times in one block
         IF a.by = a.key \/ Owns(st, a.by) = {} \/ (Owns(st, a.key) # {} /\ Owns(st, a.by) # Owns(st, a.key)) THEN No
         ELSE LET m == CHOOSE m \in Owns(st, a.by) : TRUE IN
              R(FoldLeft(LAMBDA x, j : IF a.key \in K(x, Mn(m)) THEN DelK(x, m, a.key) ELSE AddK(x, m, a.key), s, [j \in 1..a.n |-> j]))
    [] a.k = "retire" ->
         IF Owns(st, a.key) = {} THEN No
         ELSE LET m == CHOOSE m \in Owns(st, a.key) : TRUE IN
              IF m = 1 \/ m \in ToSet(st.dels_set) \/ Cardinality(K(st, Mn(m))) # 1 THEN No ELSE R(DelK(s, m, a.key))
    [] a.k = "seal" -> R(Seal(st, a.n))
    [] a.k = "work" -> R(IF a.rpc = "ok" THEN Fin(Worker(st, a.fin), a) ELSE st)
    [] a.k = "crash" -> [st |-> Seal(Fin(Worker(st, a.fin), a), 50), res |-> [r |-> "ok", died |-> FALSE]]
InitSt ==
  LET q(m) == IF m <= Len(C.quiet) THEN <<C.quiet[m]>> ELSE <<>>
      byName == [m \in Ms |-> [v_set |-> q(Num(m))]] IN
  [b |-> 1, open |-> FALSE, max |-> Len(C.quiet), keys |-> byName, dels_set |-> <<>>, evs |-> <<>>,
   idx |-> [m \in Ms |-> [v_set |-> <<>>]], last |-> -1, initd |-> FALSE, fin |-> 0]

(* ---- the node dies somewhere in the worker: it wrote a prefix of what it was going to write. Lists are written one at a time,
   so any part of them may have been reached ---- *)
Partial(f, old, new) == \A m \in Ms : f[m].v_set \in {old[m].v_set, new[m].v_set}
\* t's index is what a worker that died on the way from st to Worker(st, fin) may leave
DiedOk(st, fin, t) ==
  LET s0 == Started(st, fin)  s1 == Begun(st, fin) IN
  \/ t.idx = st.idx /\ t.last = st.last /\ t.initd = st.initd
  \/ ~st.initd /\ Known(st, fin) /\ ~t.initd /\ t.last = s0.last /\ \A m \in Ms : I(st, m) \subseteq I(t, m) /\ I(t, m) \subseteq I(s1, m)
  \/ Known(st, fin) /\ t.initd /\ t.last = s1.last /\ t.idx = s1.idx
  \/ /\ Known(st, fin) /\ t.initd /\ t.last >= s1.last /\ t.last <= fin
     /\ LET c == Caught(s1, t.last) IN Partial(t.idx, c.idx, IF t.last = fin THEN c.idx ELSE Caught(c, t.last + 1).idx)
DiedStep(st, a, r, t) ==
  /\ DOMAIN r = {"r", "died"} /\ r.r = "ok" /\ r.died
  /\ LET u == Seal(Fin(st, a), 50) IN t = [u EXCEPT !.idx = t.idx, !.last = t.last, !.initd = t.initd, !.evs = After(st, t.last)]
  /\ DiedOk(st, a.fin, t)

(* ---- what must hold ---- *)
\* past the last event, the index is the chain's table
M10State(t) == t.initd /\ t.evs = <<>> => \A m \in Ms : ToSet(t.idx[m].v_set) = ToSet(t.keys[m].v_set)
M10Step(st, a, r, t) ==
  /\ M10State(st) => M10State(t)
  /\ t.last >= st.last /\ (st.initd => t.initd)
  /\ a.k = "work" =>
       IF a.rpc = "ok" /\ Known(st, a.fin) THEN t.initd /\ t.last = Max({st.last, a.fin}) \* the worker gets there,
       ELSE t.idx = st.idx /\ t.last = st.last /\ t.initd = st.initd                      \* and only for a block the node knows
  /\ a.k \notin {"work", "crash"} => t.idx = st.idx /\ t.last = st.last /\ t.initd = st.initd
=============================================================================
