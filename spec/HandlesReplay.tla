--------------------------- MODULE HandlesReplay ---------------------------
(* Replay of signed claim payloads (H06): the state of Handles plus the set  *)
(* of payloads that produced a handle. Only what can be submitted is used:   *)
(* claims, changes, free retirement transactions, blocks.                    *)
EXTENDS Handles
VARIABLES st, used, cur, chg, last   \* cur: payload behind each handle; chg: payloads whose handle was changed away
B == C.mc
Payloads(s) == [k : {"claim", "change"}, key : Keys, base : {b \in Bases : C.bases[b].ok}, exp : s.block..(s.block + W - 1)]
Act(p) == [k |-> p.k, key |-> p.key, signer |-> p.key, base |-> p.base, exp |-> p.exp, tamper |-> "none"]
Pay(p) == <<p.key, p.base, p.exp>>
Do(p) == LET x == Step(st, Act(p)) IN
         /\ st' = x.st
         /\ used' = IF x.res.r = "ok" THEN used \cup {Pay(p)} ELSE used
         /\ chg' = IF x.res.r = "ok" /\ p.k = "change" THEN chg \cup {cur[MsaOf(p.key)]} ELSE chg
         /\ cur' = IF x.res.r = "ok" THEN [cur EXCEPT ![MsaOf(p.key)] = Pay(p)] ELSE cur
         /\ last' = [k |-> p.k, again |-> x.res.r = "ok" /\ Pay(p) \in used, known |-> p.k = "change" \/ Pay(p) \in chg]
Other(a) == st' = Step(st, a).st /\ UNCHANGED <<used, cur, chg>> /\ last' = [k |-> a.k, again |-> FALSE, known |-> FALSE]
Init == st = InitSt /\ used = {} /\ chg = {} /\ cur = [m \in Msas |-> <<>>] /\ last = [k |-> "init", again |-> FALSE, known |-> FALSE]
Next == \/ \E p \in Payloads(st) : Do(p)
        \* a payload can be submitted again at any later block
        \/ \E p \in used, k \in {"claim", "change"} : Do([k |-> k, key |-> p[1], base |-> p[2], exp |-> p[3]])
        \/ \E k \in Keys : Other([k |-> "retiretx", key |-> k])
        \/ st.block < B.maxblock /\ Other([k |-> "block", n |-> 1])
View == <<st, used, cur, chg, last>>
\* A signed payload produces a handle once, with one exception (known finding H06-replay): a
\* change accepts a payload used before, and so does a claim once its handle was changed away.
NoReplay == last.again => last.known
Bound == st.cnt["A"][1] + st.cnt["A"][2] + st.cnt["A"][3] + st.cnt["B"][1] + st.cnt["B"][2] + st.cnt["B"][3] <= 4
=============================================================================
