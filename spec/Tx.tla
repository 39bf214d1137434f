--------------------------------- MODULE Tx ---------------------------------
(* Signed transactions (paid with tokens, with capacity or free), passkey transactions,
   nonces and the passing of blocks: P01, P02, N01, K01.
   Token fees are taken out of the picture: the driver gives them back, and the accounts that
   were ever rich can pay any fee while the others can pay none. *)
EXTENDS Fees, TLC, Json, IOUtils, FiniteSets, SequencesExt
C == JsonDeserialize(IOEnv.CFG)
Accs == DOMAIN C.accs
Msas == DOMAIN C.cap
Ready == 100000000
MaxBatch == 10
InitSt == [block |-> 1, epoch |-> 0, estart |-> 0, msgs |-> 0,
  acc |-> [w \in Accs |-> [ex |-> C.accs[w].tok > 0, n |-> 0, rich |-> C.accs[w].tok >= Ready, del |-> C.accs[w].del]],
  tok |-> [w \in Accs |-> C.accs[w].tok],
  cap |-> [m \in Msas |-> IF C.cap[m].iss = 0 THEN [rem |-> -1, iss |-> 0, last |-> 0] ELSE [rem |-> C.cap[m].iss, iss |-> C.cap[m].iss, last |-> 0]]]
MsaOf(w) == C.accs[w].m                          \* "" for none
\* ---- what the calls do (a call is [c |-> kind, s |-> size or amount, to, in])
CapCall(c) == c.c \in {"msg", "bad"}             \* of the menu, those that may be paid with capacity
PaysWithCapacity(c) == c.c \in {"pay", "paybatch"}
Free(c) == c.c = "revoke"
RECURSIVE Run(_, _, _), RunAll(_, _, _)
No(st) == [ok |-> FALSE, st |-> st]
Run(st, w, c) ==
  CASE c.c = "msg" -> IF MsaOf(w) = "" THEN No(st) ELSE [ok |-> TRUE, st |-> [st EXCEPT !.msgs = @ + 1]]
    [] c.c = "bad" -> No(st)
    [] c.c = "remark" -> [ok |-> TRUE, st |-> st]
    [] c.c \in {"xfer", "xferd"} ->
         IF st.tok[w] < c.s THEN No(st)
         ELSE LET t == [st EXCEPT !.tok[w] = @ - c.s] IN
              [ok |-> TRUE, st |-> [t EXCEPT !.tok[c.to] = @ + c.s, !.acc[c.to] = [@ EXCEPT !.ex = TRUE, !.rich = @ \/ t.tok[c.to] + c.s >= Ready]]]
    [] c.c = "revoke" -> IF st.acc[w].del THEN [ok |-> TRUE, st |-> [st EXCEPT !.acc[w].del = FALSE]] ELSE No(st)
    [] c.c = "pay" -> Run(st, w, c.in[1])
    [] c.c = "paybatch" -> IF Len(c.in) > MaxBatch THEN No(st) ELSE RunAll(st, w, c.in)
    [] c.c = "batch_all" -> IF \E k \in DOMAIN c.in : c.in[k].c \in {"revoke", "pay", "paybatch", "batch_all"} THEN No(st) ELSE RunAll(st, w, c.in)
RunAll(st, w, cs) == IF cs = <<>> THEN [ok |-> TRUE, st |-> st] ELSE LET x == Run(st, w, Head(cs)) IN IF x.ok THEN RunAll(x.st, w, Tail(cs)) ELSE x
\* ---- admission
Cost(len, cs) == Fee(len, [k \in DOMAIN cs |-> [n |-> "add_onchain_message", s |-> cs[k].s]])
Refilled(st, m) == IF st.cap[m].rem >= 0 /\ st.cap[m].last < st.epoch THEN [st EXCEPT !.cap[m].rem = st.cap[m].iss, !.cap[m].last = st.epoch] ELSE st
PayCapacity(st, w, cs, len) ==
  LET m == MsaOf(w) IN
  IF (\E k \in DOMAIN cs : ~CapCall(cs[k])) \/ ~st.acc[w].ex \/ m = "" THEN No(st)
  ELSE LET s == Refilled(st, m)  f == Cost(len, cs) IN
       IF s.cap[m].rem < f THEN No(st) ELSE [ok |-> TRUE, st |-> [s EXCEPT !.cap[m].rem = @ - f]]
Pay(st, a) ==
  LET c == a.call IN
  IF PaysWithCapacity(c) THEN PayCapacity(st, a.who, c.in, a.len)
  ELSE IF Free(c) /\ a.tip = 0 THEN [ok |-> TRUE, st |-> st]
  ELSE [ok |-> st.acc[a.who].rich, st |-> st]
\* the free call is admitted only when it will do something
FreeUse(st, a) == Free(a.call) => st.acc[a.who].del
Invalid(st, e) == [st |-> st, res |-> [r |-> "invalid", e |-> e]]
Bump(st, w, c) == IF st.acc[w].ex \/ ~Free(c) THEN [st EXCEPT !.acc[w].n = @ + 1] ELSE st
Signed(st, a) ==
  LET n == st.acc[a.who].n IN
  IF a.nonce # n THEN Invalid(st, IF a.nonce < n THEN "stale" ELSE "future")
  ELSE LET p == Pay(Bump(st, a.who, a.call), a) IN
       IF ~p.ok \/ ~FreeUse(st, a) THEN Invalid(st, "no")
       ELSE LET x == Run(p.st, a.who, a.call) IN [st |-> IF x.ok THEN x.st ELSE p.st, res |-> [r |-> IF x.ok THEN "ok" ELSE "fail"]]
Check(st, a) ==
  LET n == st.acc[a.who].n IN
  [st |-> st, res |-> IF a.nonce < n THEN [r |-> "invalid", e |-> "stale"]
                      ELSE IF ~Pay(st, a).ok \/ ~FreeUse(st, a) THEN [r |-> "invalid", e |-> "no"]
                      ELSE [r |-> "valid", wait |-> a.nonce > n]]
\* ---- passkey transactions
Permitted(c) == c.c \in {"xfer", "xferd"}
Passkey(st, a) ==
  LET n == st.acc[a.who].n IN
  IF ~Permitted(a.call) \/ a.sig # "ok" THEN Invalid(st, "no")
  ELSE IF a.nonce # n THEN Invalid(st, IF a.nonce < n THEN "stale" ELSE "future")
  ELSE IF ~st.acc[a.who].rich THEN Invalid(st, "no")
  ELSE LET b == Bump(st, a.who, a.call)  x == Run(b, a.who, a.call) IN
       [st |-> IF x.ok THEN x.st ELSE b, res |-> [r |-> IF x.ok THEN "ok" ELSE "fail", said |-> IF x.ok THEN 1 ELSE 0]]
PasskeyCheck(st, a) ==
  LET n == st.acc[a.who].n IN
  [st |-> st, res |-> IF ~Permitted(a.call) \/ a.sig # "ok" THEN [r |-> "invalid", e |-> "no"]
                      ELSE IF a.nonce < n THEN [r |-> "invalid", e |-> "stale"]
                      ELSE IF ~st.acc[a.who].rich THEN [r |-> "invalid", e |-> "no"]
                      ELSE [r |-> "valid", wait |-> a.nonce > n]]
RECURSIVE Blocks(_, _)
Blocks(st, n) ==
  IF n = 0 THEN st
  ELSE LET b == st.block + 1  new == b - st.estart >= C.elen IN
       Blocks(IF new THEN [st EXCEPT !.block = b, !.epoch = @ + 1, !.estart = b] ELSE [st EXCEPT !.block = b], n - 1)
Step(st, a) ==
  CASE a.k = "tx" -> Signed(st, a)
    [] a.k = "check" -> Check(st, a)
    [] a.k = "pk" -> Passkey(st, a)
    [] a.k = "pkcheck" -> PasskeyCheck(st, a)
    [] a.k = "block" -> [st |-> Blocks(st, a.n), res |-> [r |-> "ok"]]
---------------------------------------------------------------------------
In(r) == r.r \in {"ok", "fail"}
RECURSIVE Leaves(_)
Leaves(c) == IF c.in = <<>> THEN {c} ELSE UNION {Leaves(c.in[k]) : k \in DOMAIN c.in}
P01Step(f, a, r, t) ==
  /\ \A m \in Msas :
       t.cap[m] # f.cap[m] =>
         /\ a.k = "tx" /\ In(r) /\ PaysWithCapacity(a.call) /\ MsaOf(a.who) = m /\ f.acc[a.who].ex
         /\ LET have == IF f.cap[m].last < f.epoch THEN f.cap[m].iss ELSE f.cap[m].rem IN
            t.cap[m].rem = have - Cost(a.len, a.call.in) /\ t.cap[m].rem >= 0 /\ t.cap[m].iss = f.cap[m].iss
  /\ (a.k = "tx" /\ PaysWithCapacity(a.call)) =>
       /\ \A w \in Accs : t.tok[w] = f.tok[w]
       /\ In(r) => MsaOf(a.who) # "" /\ t.cap[MsaOf(a.who)] # f.cap[MsaOf(a.who)]
  /\ (a.k = "check" /\ PaysWithCapacity(a.call) /\ r.r = "valid") => MsaOf(a.who) # "" /\ f.acc[a.who].ex
P02Step(f, a, r, t) ==
  (a.k = "tx" /\ PaysWithCapacity(a.call)) =>
    /\ In(r) => \A k \in DOMAIN a.call.in : CapCall(a.call.in[k])
    /\ r.r = "ok" => (a.call.c = "paybatch" => Len(a.call.in) <= MaxBatch) /\ t.msgs = f.msgs + Len(a.call.in)
    /\ r.r # "ok" => t.msgs = f.msgs
N01Step(f, a, r, t) ==
  /\ a.k \in {"tx", "pk"} =>
       /\ In(r) => a.nonce = f.acc[a.who].n
       /\ In(r) /\ f.acc[a.who].ex => t.acc[a.who].n = a.nonce + 1
       /\ ~In(r) => t = f
       /\ a.k = "tx" => (r.r = "invalid" /\ a.nonce < f.acc[a.who].n => r.e = "stale") /\ (r.r = "invalid" /\ a.nonce > f.acc[a.who].n => r.e = "future")
       /\ (a.k = "tx" /\ Free(a.call) /\ ~f.acc[a.who].ex) => ~t.acc[a.who].ex /\ t.acc[a.who].n = f.acc[a.who].n
  /\ a.k \in {"check", "pkcheck"} => t = f /\ (r.r = "valid" => a.nonce >= f.acc[a.who].n /\ (r.wait <=> a.nonce > f.acc[a.who].n))
  /\ \A w \in Accs : t.acc[w].n # f.acc[w].n => a.k \in {"tx", "pk"} /\ a.who = w
K01Step(f, a, r, t) ==
  /\ a.k = "pk" =>
       /\ In(r) => Permitted(a.call) /\ a.sig = "ok" /\ a.nonce = f.acc[a.who].n /\ f.acc[a.who].rich /\ t.acc[a.who].n = a.nonce + 1
       /\ \A w \in Accs : t.tok[w] # f.tok[w] => In(r) /\ w \in {a.who, a.call.to}
       /\ In(r) => (r.said = 1 <=> r.r = "ok")
       /\ t.cap = f.cap /\ t.msgs = f.msgs
  /\ (a.k = "pkcheck" /\ r.r = "valid") => Permitted(a.call) /\ a.sig = "ok" /\ f.acc[a.who].rich
=============================================================================
