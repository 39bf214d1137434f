------------------------------- MODULE Grants -------------------------------
(* Delegations and schema permissions, as far as other parts rely on them (see Msa.tla):
   st.block, st.key (key -> account or "-"), st.del_set of [d, p, rev, sch_set of <<schema, revoked at>>]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
LOCAL Rng(q) == {q[j] : j \in DOMAIN q}
LOCAL No(st) == [st |-> st, res |-> [r |-> "err"]]
HasDel(st, d, p) == \E e \in st.del_set : e.d = d /\ e.p = p
Del(st, d, p) == CHOOSE e \in st.del_set : e.d = d /\ e.p = p
Granted(st, d, p, s) == HasDel(st, d, p) /\ LET e == Del(st, d, p) IN
  (e.rev = 0 \/ e.rev >= st.block) /\ \E x \in e.sch_set : x[1] = s /\ (x[2] = 0 \/ x[2] >= st.block)
Upsert(st, e, q) ==
  {IF x[1] \in Rng(q) THEN <<x[1], 0>> ELSE IF x[2] = 0 THEN <<x[1], st.block>> ELSE x : x \in e.sch_set}
  \cup {<<x, 0>> : x \in Rng(q) \ {y[1] : y \in e.sch_set}}
Allow(st, a) ==
  LET e == IF HasDel(st, a.d, a.p) THEN Del(st, a.d, a.p) ELSE [d |-> a.d, p |-> a.p, rev |-> 0, sch_set |-> {}]
  IN [st |-> [st EXCEPT !.del_set = (@ \ {e}) \cup {[e EXCEPT !.rev = 0, !.sch_set = Upsert(st, e, a.schemas)]}], res |-> [r |-> "ok"]]
Deny(st, a) ==
  IF ~HasDel(st, a.d, a.p) THEN No(st)
  ELSE LET e == Del(st, a.d, a.p) IN
    IF ~\E x \in e.sch_set : x[1] = a.s THEN No(st)
    ELSE [st |-> [st EXCEPT !.del_set = (@ \ {e}) \cup {[e EXCEPT !.sch_set = {IF x[1] = a.s /\ x[2] = 0 THEN <<x[1], st.block>> ELSE x : x \in @}]}],
          res |-> [r |-> "ok"]]
Cut(st, a) ==
  IF ~HasDel(st, a.d, a.p) \/ Del(st, a.d, a.p).rev # 0 THEN No(st)
  ELSE [st |-> [st EXCEPT !.del_set = {IF e.d = a.d /\ e.p = a.p THEN [e EXCEPT !.rev = st.block] ELSE e : e \in @}], res |-> [r |-> "ok"]]
KeyOn(st, a) == IF st.key[a.key] # "-" THEN No(st) ELSE [st |-> [st EXCEPT !.key[a.key] = a.m], res |-> [r |-> "ok"]]
KeyOff(st, a) == IF st.key[a.key] = "-" THEN No(st) ELSE [st |-> [st EXCEPT !.key[a.key] = "-"], res |-> [r |-> "ok"]]
=============================================================================
