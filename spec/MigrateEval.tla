----------------------------- MODULE MigrateEval -----------------------------
(* X01: one old state per line; `out` holds what could be seen before the upgrade, after it, and after running it again.
   op "rel": accounts with time release schedules whose tokens are held by a lock (becomes a freeze)
   op "msg": messages in lists per block and schema (become one entry each)
   op "sch": schemas registered before they had names (the main net's first ones get theirs) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Functions
R == ndJsonDeserialize(IOEnv.IN)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* ---- time release
Left(s, now) == LET full == IF now <= s[1] THEN 0 ELSE (now - s[1]) \div s[2] IN IF full >= s[3] THEN 0 ELSE s[4] * (s[3] - full)
Held(x, now) == Sum([j \in DOMAIN x.sch |-> Left(x.sch[j], now)])
Lock(x) == Sum([j \in DOMAIN x.locks |-> IF x.locks[j][1] = "timeRels" THEN x.locks[j][2] ELSE 0])
Others(x) == {x.locks[j] : j \in {k \in DOMAIN x.locks : x.locks[k][1] # "timeRels"}}
\* an old state: what is locked is between what is due now and what was due when last claimed
OldOk(r) == \A w \in DOMAIN r.accs : LET x == r.accs[w] IN
  x.vst = 0 /\ Held(x, r.clock) <= Lock(x) /\ Lock(x) <= Held(x, 0) /\ (x.sch = <<>> => Lock(x) = 0)
AccOk(r, x, y) ==
  /\ y.free = x.free /\ y.sch = x.sch /\ y.stk = x.stk
  /\ ToSet(y.locks) = Others(x) /\ Len(y.locks) = Cardinality(Others(x))
  \* nothing that was free is frozen by it, and nothing that is not due is set free
  /\ Held(x, r.clock) <= y.vst /\ y.vst <= Lock(x)
Rel(r, b, o) ==
  IF ~OldOk(r) THEN "bad: the case itself"
  ELSE IF \A w \in DOMAIN r.accs : AccOk(r, b[w], o[w]) THEN "ok" ELSE "bad: accounts"
\* ---- messages
Msgs(r) == [j \in DOMAIN r.groups |-> LET g == r.groups[j] IN
  [k \in DOMAIN g.m |-> LET m == SortSeq(g.m, LAMBDA x, y : x[1] < y[1])[k] IN <<m[1], m[2], m[3], m[4], g.b>>]]
Full(r) == Cardinality({j \in DOMAIN r.groups : r.groups[j].m # <<>>})
Msg(r, b, o) ==
  IF b.old # Full(r) THEN "bad: the case itself"
  ELSE IF o.answers # Msgs(r) THEN "bad: messages"
  ELSE IF o.old # 0 \/ o.new # Sum([j \in DOMAIN r.groups |-> Len(r.groups[j].m)]) THEN "bad: entries"
  ELSE "ok"
\* ---- schemas
First == <<"", "", "", "", "dsnp.update", "dsnp.profile", "dsnp.public-key-key-agreement", "dsnp.public-follows", "dsnp.private-follows", "dsnp.private-connections">>
Given(r) == {j \in DOMAIN r.schemas : r.net = "mainnet" /\ j <= 10 /\ First[j] # ""}
Sch(r, b, o) ==
  LET had(nm) == SelectSeq([j \in DOMAIN r.schemas |-> j], LAMBDA j : r.schemas[j] = nm) IN
  IF \E nm \in ToSet(r.names) : b.names[nm] # had(nm) THEN "bad: the case itself"
  ELSE IF Len(o.info) # Len(r.schemas) \/ Len(b.info) # Len(r.schemas) THEN "bad: number of schemas"
  ELSE IF \E j \in DOMAIN o.info : o.info[j] # <<b.info[j][1] \/ j \in Given(r), b.info[j][2], b.info[j][3]>> THEN "bad: schema"
  ELSE IF \E nm \in ToSet(r.names) :
            LET g == {j \in Given(r) : First[j] = nm} IN o.names[nm] # (IF g = {} THEN had(nm) ELSE <<CHOOSE j \in g : TRUE>>) THEN "bad: names"
  ELSE "ok"
New == [rel |-> 2, msg |-> 2, sch |-> 4]
Verdict(r) ==
  LET o == r.out IN
  IF "panic" \in DOMAIN o THEN "bad: panic"
  ELSE IF o.twice # o.once THEN "bad: the second run changes something"
  ELSE IF r.ver >= New[r.op] THEN (IF o.once = o.before THEN "ok" ELSE "bad: run on a new state")
  ELSE IF o.once.ver # New[r.op] THEN "bad: version"
  ELSE IF r.op = "rel" THEN Rel(r, o.before.is, o.once.is)
  ELSE IF r.op = "msg" THEN Msg(r, o.before.is, o.once.is)
  ELSE Sch(r, o.before.is, o.once.is)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
