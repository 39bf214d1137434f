----------------------------- MODULE TimeRelease -----------------------------
(* Vested transfers.
   st: now       the clock of the schedules (the relay chain's block number)
       free      account -> free balance
       frz       account -> amount frozen for vesting
       other     account -> amount locked for some other purpose
       sch       account -> sequence of schedules <<start, period, count, per period>> *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
C == JsonDeserialize(IOEnv.CFG)
Accs == DOMAIN C.free
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Empty == [now |-> C.now, free |-> C.free, frz |-> [a \in Accs |-> 0], other |-> [a \in Accs |-> 0], sch |-> [a \in Accs |-> <<>>]]
Ok(ev) == [r |-> "ok", ev |-> ev]
Err == [r |-> "err"]
No(st) == [st |-> st, res |-> Err]
\* ---- schedules ----
Total(s) == s[3] * s[4]
Passed(s, now) == IF now <= s[1] THEN 0 ELSE (now - s[1]) \div s[2]
Owed(s, now) == s[4] * (s[3] - Min2(s[3], Passed(s, now)))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Outstanding(q, now) == Sum([k \in DOMAIN q |-> Owed(q[k], now)])
Live(q, now) == SelectSeq(q, LAMBDA s : Owed(s, now) > 0)
Valid(s) == s[2] > 0 /\ s[3] > 0 /\ Total(s) >= C.minrel
\* ---- balances ----
Frozen(st, a) == Max2(st.frz[a], st.other[a])
\* an account with anything frozen cannot be reaped
Usable(st, a) == IF st.free[a] = 0 THEN 0 ELSE Max2(0, st.free[a] - (IF Frozen(st, a) > 0 THEN Max2(Frozen(st, a), C.ed) ELSE 0))
CanMove(st, from, to, n) == n <= Usable(st, from) /\ (n > 0 => st.free[to] + n >= C.ed)
Move(st, from, to, n) ==
  IF from = to THEN st
  ELSE LET left == st.free[from] - n
           f1 == [st.free EXCEPT ![from] = IF left < C.ed THEN 0 ELSE left]
       IN [st EXCEPT !.free = [f1 EXCEPT ![to] = @ + n]]
\* ---- calls ----
Transfer(st, a) ==
  LET s == a.s  now == st.now  kept == Live(st.sch[a.to], now)  n == Total(s)  m == Move(st, a.by, a.to, n) IN
  IF ~Valid(s) \/ (a.by = a.to /\ st.free[a.by] < n) \/ ~CanMove(st, a.by, a.to, n) \/ Len(kept) >= C.max THEN No(st)
  ELSE [st |-> [m EXCEPT !.frz[a.to] = Outstanding(kept, now) + n, !.sch[a.to] = Append(kept, s)], res |-> Ok(<<"added", a.by, a.to, s>>)]
Claim(st, who) ==
  LET kept == Live(st.sch[who], st.now)  n == Outstanding(kept, st.now) IN
  [st |-> [st EXCEPT !.sch[who] = kept, !.frz[who] = n], res |-> Ok(<<"claimed", who, n>>)]
Update(st, a) ==
  LET q == a.list  n == Sum([k \in DOMAIN q |-> Total(q[k])]) IN
  IF ~a.root \/ Len(q) > C.max THEN No(st)
  ELSE IF q = <<>> THEN [st |-> [st EXCEPT !.sch[a.to] = <<>>, !.frz[a.to] = 0], res |-> Ok(<<"updated", a.to>>)]
  ELSE IF (\E k \in DOMAIN q : ~Valid(q[k])) \/ st.free[a.to] < n THEN No(st)
  ELSE [st |-> [st EXCEPT !.sch[a.to] = q, !.frz[a.to] = n], res |-> Ok(<<"updated", a.to>>)]
Send(st, a) == IF ~CanMove(st, a.by, a.to, a.n) THEN No(st) ELSE [st |-> Move(st, a.by, a.to, a.n), res |-> Ok(<<>>)]
Step(st, a) ==
  CASE a.k = "transfer" -> Transfer(st, a)
    [] a.k = "claim" -> Claim(st, a.by)
    [] a.k = "claimfor" -> Claim(st, a.to)
    [] a.k = "update" -> Update(st, a)
    [] a.k = "send" -> Send(st, a)
    [] a.k = "lock" -> IF st.free[a.to] = 0 THEN No(st) ELSE [st |-> [st EXCEPT !.other[a.to] = a.n], res |-> Ok(<<>>)]
    [] a.k = "tick" -> [st |-> [st EXCEPT !.now = @ + a.n], res |-> Ok(<<>>)]
    [] OTHER -> No(st)
RECURSIVE RunAll(_, _)
RunAll(st, k) == IF k > Len(C.pre) THEN st ELSE RunAll(Step(st, C.pre[k]).st, k + 1)
InitSt == RunAll(Empty, 1)
(* ---- the properties ---- *)
\* what is not yet due stays frozen, on a balance that can cover it
R01(t) == \A a \in Accs : t.frz[a] >= Outstanding(t.sch[a], t.now) /\ t.free[a] >= t.frz[a]
R01Step(f, a, r, t) ==
  /\ \A x \in Accs : a.k = "tick" => Outstanding(t.sch[x], t.now) <= Outstanding(f.sch[x], f.now) /\ t.sch[x] = f.sch[x] /\ t.frz[x] = f.frz[x]
  /\ a.k \in {"claim", "claimfor"} => LET who == IF a.k = "claim" THEN a.by ELSE a.to IN
       /\ t.frz[who] = Outstanding(f.sch[who], f.now)
       /\ \A k \in DOMAIN t.sch[who] : Owed(t.sch[who][k], t.now) > 0
       /\ \A k \in DOMAIN f.sch[who] : Owed(f.sch[who][k], f.now) > 0 => \E j \in DOMAIN t.sch[who] : t.sch[who][j] = f.sch[who][k]
  \* only the clock and governance reduce what is owed
  /\ a.k # "update" => \A x \in Accs : Outstanding(t.sch[x], f.now) >= Outstanding(f.sch[x], f.now)
Held(st) == Sum([k \in 1..Len(C.accs) |-> st.free[C.accs[k]]])
R02(t) == \A a \in Accs :
  /\ Len(t.sch[a]) <= C.max /\ \A k \in DOMAIN t.sch[a] : Valid(t.sch[a][k])
  /\ t.frz[a] <= Sum([k \in DOMAIN t.sch[a] |-> Total(t.sch[a][k])])
R02Step(f, a, r, t) ==
  /\ r.r = "err" => t = f
  /\ a.k = "transfer" /\ r.r = "ok" =>
       /\ a.by # a.to => t.free[a.to] = f.free[a.to] + Total(a.s)
       /\ t.frz[a.to] = Outstanding(f.sch[a.to], f.now) + Total(a.s)
       /\ t.sch[a.to][Len(t.sch[a.to])] = a.s
  /\ a.k = "update" /\ r.r = "ok" => a.root /\ t.sch[a.to] = a.list /\ t.frz[a.to] = Sum([k \in DOMAIN a.list |-> Total(a.list[k])])
  /\ Held(t) <= Held(f) /\ Held(t) > Held(f) - C.ed
  /\ a.k \notin {"transfer", "send"} => t.free = f.free
  /\ a.k # "lock" => t.other = f.other
  /\ \A x \in Accs : t.sch[x] # f.sch[x] \/ t.frz[x] # f.frz[x] => (a.k = "claim" /\ a.by = x) \/ (a.k \in {"transfer", "claimfor", "update"} /\ a.to = x)
=============================================================================
