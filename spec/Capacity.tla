------------------------------ MODULE Capacity ------------------------------
(* Staking tokens to providers, the capacity it gives them, unstaking and    *)
(* thawing, and spending and refilling capacity by epochs (C01 - C04).       *)
EXTENDS Frac, TLC, Json, IOUtils, FiniteSets

C == JsonDeserialize(IOEnv.CFG)
Accs == DOMAIN C.free
Msas == DOMAIN C.msas                       \* id |-> registered provider?
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Sub(a, b) == IF a > b THEN a - b ELSE 0
NoTgt == [a |-> 0, c |-> 0]
NoCap == [rem |-> -1, tok |-> 0, iss |-> 0, last |-> 0]
InitSt == [block |-> 1, epoch |-> 0, estart |-> 0, elen |-> C.elen,
           free |-> C.free,
           active |-> [x \in Accs |-> 0],
           tgt |-> [x \in Accs |-> [m \in Msas |-> NoTgt]],
           cap |-> [m \in Msas |-> NoCap],
           unl |-> [x \in Accs |-> <<>>],
           frz |-> [x \in Accs |-> 0],
           \* ghosts: spent this epoch; what may be spent this epoch; accounts and providers touched by
           \* the known finding C-multi-target (an unstake of more than was staked to the named target)
           spent |-> [m \in Msas |-> 0],
           lim |-> [m \in Msas |-> 0],
           stain |-> [x \in Accs |-> FALSE],
           pstain |-> [m \in Msas |-> FALSE]]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Values(q) == [k \in DOMAIN q |-> q[k].v]
Unlocking(st, x) == SumSeq(Values(st.unl[x]))
Err(st) == [st |-> st, res |-> [r |-> "err"]]
Ok(st) == [st |-> st, res |-> [r |-> "ok"]]

Stake(st, a) ==
  LET x == a.acc  m == a.target
      can == Min(Sub(Sub(st.free[x], C.minbal), st.frz[x]), a.amount)
      c == MulNearestDown(can, C.cpt)
      d == IF st.cap[m].rem < 0 THEN [NoCap EXCEPT !.rem = 0] ELSE st.cap[m]
  IN IF a.amount = 0 \/ ~C.msas[m] \/ can = 0 \/ st.active[x] + can < C.minstake THEN Err(st)
     ELSE [st |-> [st EXCEPT !.active[x] = @ + can,
                             !.tgt[x][m] = [a |-> @.a + can, c |-> @.c + c],
                             !.cap[m] = [rem |-> d.rem + c, tok |-> d.tok + can, iss |-> d.iss + c, last |-> d.last],
                             !.frz[x] = st.active[x] + can + Unlocking(st, x),
                             !.lim[m] = @ + c],
           res |-> [r |-> "ok", amount |-> can, capacity |-> c]]
Unstake(st, a) ==
  LET x == a.acc  m == a.target
      rest == st.active[x] - a.amount
      v == IF rest <= C.minstake THEN st.active[x] ELSE a.amount
      t == st.tgt[x][m]  d == st.cap[m]
      c == IF t.a = v THEN t.c ELSE MulUp(d.iss, Ratio(v, d.tok))
      left == Sub(t.a, v)
  IN IF a.amount = 0 \/ st.active[x] = 0 \/ a.amount > st.active[x] \/ Len(st.unl[x]) >= C.chunks \/ t.a = 0 \/ d.rem < 0 THEN Err(st)
     ELSE [st |-> [st EXCEPT !.active[x] = @ - v,
                             !.tgt[x][m] = IF left = 0 THEN NoTgt ELSE [a |-> left, c |-> Sub(t.c, c)],
                             !.cap[m] = [rem |-> Sub(d.rem, c), tok |-> Sub(d.tok, v), iss |-> Sub(d.iss, c), last |-> d.last],
                             !.unl[x] = Append(@, [v |-> v, at |-> st.epoch + C.thaw]),
                             !.stain[x] = @ \/ v > t.a,
                             !.pstain = [p \in Msas |-> st.pstain[p] \/ (v > t.a /\ st.tgt[x][p].a > 0)]],
           res |-> [r |-> "ok", amount |-> v, capacity |-> c]]
Withdraw(st, a) ==
  LET x == a.acc
      thawed == SelectSeq(st.unl[x], LAMBDA k : k.at <= st.epoch)
      kept == SelectSeq(st.unl[x], LAMBDA k : k.at > st.epoch)
      v == SumSeq(Values(thawed))
  IN IF v = 0 THEN Err(st)
     ELSE [st |-> [st EXCEPT !.unl[x] = kept, !.frz[x] = st.active[x] + SumSeq(Values(kept))],
           res |-> [r |-> "ok", amount |-> v]]
Xfer(st, a) ==
  IF a.acc # a.to /\ st.free[a.acc] - Max(st.frz[a.acc], C.ed) >= a.amount
  THEN Ok([st EXCEPT !.free[a.acc] = @ - a.amount, !.free[a.to] = @ + a.amount]) ELSE Err(st)
CanReplenish(st, m) == st.cap[m].rem >= 0 /\ st.cap[m].last < st.epoch
Refill(st, m) == [st EXCEPT !.cap[m].rem = st.cap[m].iss, !.cap[m].last = st.epoch]
\* a payment: refilled first when a new epoch began
Spend(st, a) ==
  LET m == a.msa  s == IF CanReplenish(st, m) THEN Refill(st, m) ELSE st IN
  IF st.cap[m].rem < 0 \/ s.cap[m].rem < a.amount THEN Err(s)
  ELSE [st |-> [s EXCEPT !.cap[m].rem = @ - a.amount, !.spent[m] = @ + a.amount], res |-> [r |-> "ok"]]
ReplenishBy(st, a) ==
  LET m == a.msa IN
  IF st.cap[m].rem < 0 THEN Err(st)
  ELSE Ok([st EXCEPT !.cap[m].rem = @ + a.amount, !.cap[m].last = st.epoch, !.lim[m] = @ + a.amount])
RECURSIVE Blocks(_, _)
Blocks(st, n) ==
  IF n = 0 THEN st
  ELSE LET b == st.block + 1  new == b - st.estart >= st.elen IN
       Blocks(IF new THEN [st EXCEPT !.block = b, !.epoch = @ + 1, !.estart = b,
                                     !.spent = [m \in Msas |-> 0], !.lim = [m \in Msas |-> st.cap[m].iss]]
              ELSE [st EXCEPT !.block = b], n - 1)
Step(st, a) ==
  CASE a.k = "stake" -> Stake(st, a)
    [] a.k = "unstake" -> Unstake(st, a)
    [] a.k = "withdraw" -> Withdraw(st, a)
    [] a.k = "xfer" -> Xfer(st, a)
    [] a.k = "spend" -> Spend(st, a)
    [] a.k = "can" -> [st |-> st, res |-> [r |-> "ok", v |-> CanReplenish(st, a.msa)]]
    [] a.k = "replby" -> ReplenishBy(st, a)
    [] a.k = "elen" -> IF a.root /\ a.n <= C.maxelen THEN Ok([st EXCEPT !.elen = a.n]) ELSE Err(st)
    [] a.k = "block" -> Ok(Blocks(st, a.n))

---------------------------------------------------------------------------
C01(st) == \A x \in Accs :
  /\ ~st.stain[x] => st.active[x] = SumOver(Msas, [m \in Msas |-> st.tgt[x][m].a])
  /\ st.frz[x] = st.active[x] + Unlocking(st, x)
  /\ st.frz[x] <= st.free[x]                       \* every staked token exists: none is staked twice
C01Step(f, a, r, t) ==
  /\ (a.k = "stake" /\ r.r = "ok") => t.frz[a.acc] = f.frz[a.acc] + r.amount
  \* tokens are released by withdrawing only, and only what has thawed
  /\ \A x \in Accs : t.frz[x] < f.frz[x] => a.k = "withdraw" /\ a.acc = x /\ f.frz[x] - t.frz[x] = r.amount
C02(st) == \A m \in Msas : ~st.pstain[m] =>
  LET tok == SumOver(Accs, [x \in Accs |-> st.tgt[x][m].a])  caps == SumOver(Accs, [x \in Accs |-> st.tgt[x][m].c]) IN
  /\ st.cap[m].tok = tok
  /\ st.cap[m].iss <= caps                          \* no capacity beyond what present stakes gave
  /\ tok = 0 => st.cap[m].iss = 0
C02Step(f, a, r, t) == \A m \in Msas :
  LET d == t.cap[m].iss - f.cap[m].iss IN
  /\ d > 0 => a.k = "stake" /\ a.target = m /\ d = r.capacity /\ d = MulNearestDown(r.amount, C.cpt)
  /\ d < 0 => a.k = "unstake" /\ a.target = m
  /\ (~f.pstain[m] /\ ~t.pstain[m] /\ a.k = "unstake" /\ r.r = "ok" /\ a.target = m /\ f.tgt[a.acc][m].a = r.amount)
       => d = 0 - Min(f.cap[m].iss, f.tgt[a.acc][m].c)
C03(st) == \A x \in Accs : Len(st.unl[x]) <= C.chunks
C03Step(f, a, r, t) == \A x \in Accs :
  /\ (a.k = "unstake" /\ r.r = "ok" /\ a.acc = x) => t.unl[x] = Append(f.unl[x], [v |-> r.amount, at |-> f.epoch + C.thaw])
  /\ (a.k = "withdraw" /\ a.acc = x) =>
       LET due == SumSeq(Values(SelectSeq(f.unl[x], LAMBDA k : k.at <= f.epoch))) IN
       IF due = 0 THEN r.r = "err" ELSE r.r = "ok" /\ r.amount = due /\ t.unl[x] = SelectSeq(f.unl[x], LAMBDA k : k.at > f.epoch)
  /\ t.unl[x] # f.unl[x] => a.k \in {"unstake", "withdraw"} /\ a.acc = x
C04(st) == \A m \in Msas : st.spent[m] <= st.lim[m]
C04Step(f, a, r, t) ==
  /\ t.epoch # f.epoch => a.k = "block"
  /\ (a.k = "block" /\ a.n = 1) => (t.epoch = f.epoch + 1 <=> t.block - f.estart >= f.elen) /\ t.epoch \in {f.epoch, f.epoch + 1}
  /\ \A m \in Msas :
       /\ (t.cap[m].rem > f.cap[m].rem /\ f.cap[m].rem >= 0) =>
            \/ a.k = "stake" /\ a.target = m
            \/ a.k = "replby" /\ a.msa = m
            \/ a.k = "spend" /\ a.msa = m /\ f.cap[m].last < f.epoch /\ t.cap[m].last = f.epoch /\ t.cap[m].rem <= f.cap[m].iss
       /\ t.cap[m].rem >= 0 \/ t.cap[m] = f.cap[m]
       /\ (a.k = "spend" /\ a.msa = m) => (r.r = "ok" <=> f.cap[m].rem >= 0 /\ a.amount <= (IF CanReplenish(f, m) THEN f.cap[m].iss ELSE f.cap[m].rem))
=============================================================================
