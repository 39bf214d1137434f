-------------------------------- MODULE Msa --------------------------------
(* Message source accounts: keys, signed payloads and their registry,        *)
(* providers, delegations with schema permissions, free transactions and     *)
(* retirement (M01 - M09).  Identifiers are relative to C.idbase.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

C == JsonDeserialize(IOEnv.CFG)
ToSet(q) == {q[j] : j \in DOMAIN q}
Keys == ToSet(C.keys)
Min(a, b) == IF a < b THEN a ELSE b
Err(st) == [st |-> st, res |-> [r |-> "err"]]
Ok(st, ev) == [st |-> st, res |-> [r |-> "ok", ev |-> ev]]
Range(st) == 1..st.max
EmptySt == [block |-> 1, key |-> [k \in Keys |-> 0], max |-> 0, cnt |-> <<>>, prov |-> <<>>, hdl |-> <<>>,
            del_set |-> {},          \* [d, p, rev, sch_set of <<schema, revoked at>>]
            reg |-> <<>>,            \* signatures remembered, oldest first: <<label, expires>>
            used_set |-> {}]         \* ghost: unexpired signatures that took effect
\* states and configurations read from JSON carry sequences for sets
FromJson(s) == [s EXCEPT !.del_set = {[e EXCEPT !.sch_set = ToSet(@)] : e \in ToSet(@)}, !.used_set = ToSet(@)]

---------------------------------------------------------------------------
HasDel(st, d, p) == \E e \in st.del_set : e.d = d /\ e.p = p
Del(st, d, p) == CHOOSE e \in st.del_set : e.d = d /\ e.p = p
\* in force at block b; queries about the future are refused
Valid(st, d, p, b) == HasDel(st, d, p) /\ b <= st.block /\ (Del(st, d, p).rev = 0 \/ Del(st, d, p).rev >= b)
Granted(st, d, p, s, b) == Valid(st, d, p, b) /\ \E x \in Del(st, d, p).sch_set : x[1] = s /\ (x[2] = 0 \/ b <= x[2])
Registered(st, id) == id \in Range(st) /\ st.prov[id] # "-"

\* remembering a signature: refused when already remembered or when the oldest of a full registry is still alive
Window(st, e) == e > st.block /\ e < st.block + C.window
CanRegister(st, l, e) == Window(st, e) /\ (\A j \in DOMAIN st.reg : st.reg[j][1] # l)
                         /\ (Len(st.reg) >= C.maxsigs => st.block > st.reg[1][2])
Register(st, l, e) == [st EXCEPT !.reg = IF Len(@) >= C.maxsigs THEN Append(Tail(@), <<l, e>>) ELSE Append(@, <<l, e>>),
                                 !.used_set = @ \cup {<<l, e>>}]
\* a new account for key k
NewId(st, k) == [st EXCEPT !.max = @ + 1, !.key[k] = st.max + 1, !.cnt = Append(@, 1), !.prov = Append(@, "-"), !.hdl = Append(@, FALSE)]
CanCreate(st, k) == st.key[k] = 0 /\ st.max < C.lastid /\ C.maxkeys >= 1
Create(st, a) ==
  IF ~CanCreate(st, a.key) THEN Err(st)
  ELSE Ok(NewId(st, a.key), <<<<"created", st.max + 1, a.key>>>>)

ProvLabel(a) == a.signer \o "|prov|" \o ToString(a.auth) \o "|" \o ToString(a.schemas) \o "|" \o ToString(a.exp)
SchemasOk(q) == Len(q) <= C.maxgrants /\ \A j \in DOMAIN q : q[j] >= 1 /\ q[j] <= C.nschemas
SignedBy(a) == a.tamper = "none" /\ a.signer = a.key
Sponsor(st, a) ==
  LET p == st.key[a.by]  id == st.max + 1
      s == NewId(Register(st, ProvLabel(a), a.exp), a.key)
      e == [d |-> id, p |-> p, rev |-> 0, sch_set |-> {<<x, 0>> : x \in ToSet(a.schemas)}]
  IN IF ~SignedBy(a) \/ ~CanRegister(st, ProvLabel(a), a.exp) \/ p = 0 \/ a.auth # p \/ ~Registered(st, p)
        \/ ~CanCreate(st, a.key) \/ ~SchemasOk(a.schemas) THEN Err(st)
     ELSE Ok([s EXCEPT !.del_set = @ \cup {e}], <<<<"created", id, a.key>>, <<"granted", id, ToString(p)>>>>)
\* the payload's list replaces the permissions: others are revoked now unless revoked before
Upsert(st, e, q) ==
  {IF x[1] \in ToSet(q) THEN <<x[1], 0>> ELSE IF x[2] = 0 THEN <<x[1], st.block>> ELSE x : x \in e.sch_set}
  \cup {<<x, 0>> : x \in ToSet(q) \ {y[1] : y \in e.sch_set}}
Grant(st, a) ==
  LET p == st.key[a.by]  d == st.key[a.key]
      s == Register(st, ProvLabel(a), a.exp)
      e == IF HasDel(st, d, p) THEN Del(st, d, p) ELSE [d |-> d, p |-> p, rev |-> 0, sch_set |-> {}]
      n == [e EXCEPT !.rev = 0, !.sch_set = Upsert(st, e, a.schemas)]
  IN IF ~SignedBy(a) \/ ~CanRegister(st, ProvLabel(a), a.exp) \/ p = 0 \/ d = 0 \/ d = p \/ ~Registered(st, p) \/ a.auth # p
        \/ ~SchemasOk(a.schemas) \/ Cardinality(n.sch_set) > C.maxgrants THEN Err(st)
     ELSE Ok([s EXCEPT !.del_set = (@ \ {e}) \cup {n}], <<<<"granted", d, ToString(p)>>>>)

KeyLabel(by, a) == by \o "|key|" \o ToString(a.msa) \o "|" \o ToString(a.exp) \o "|" \o a.key
AddKey(st, a) ==
  LET lo == KeyLabel(a.osigner, a)  ln == KeyLabel(a.nsigner, a)
      s == Register(st, lo, a.exp)
      id == a.msa
  IN IF a.otamper # "none" \/ a.ntamper # "none" \/ a.osigner # a.owner \/ a.nsigner # a.key
        \/ ~CanRegister(st, lo, a.exp) \/ ~CanRegister(s, ln, a.exp)
        \/ st.key[a.owner] = 0 \/ st.key[a.owner] # id \/ st.key[a.key] # 0 \/ st.cnt[id] + 1 > C.maxkeys THEN Err(st)
     ELSE Ok([Register(s, ln, a.exp) EXCEPT !.key[a.key] = id, !.cnt[id] = @ + 1], <<<<"added", id, a.key>>>>)
Drop(st, k) == [st EXCEPT !.key[k] = 0, !.cnt[st.key[k]] = @ - 1]
DelOk(st, a) == st.key[a.key] # 0 /\ st.key[a.key] = st.key[a.del] /\ a.key # a.del
DelKey(st, a) ==
  IF ~a.free /\ st.key[a.key] = 0 THEN Ok(st, <<>>)          \* dispatched without the extension: nothing to do
  ELSE IF ~DelOk(st, a) THEN Err(st)
  ELSE Ok(Drop(st, a.del), <<<<"deleted", 0, a.del>>>>)
RetireOk(st, k) == LET d == st.key[k] IN
  d # 0 /\ ~Registered(st, d) /\ ~st.hdl[d] /\ st.cnt[d] = 1 /\ \A p \in Range(st) : ~Valid(st, d, p, st.block)
Retire(st, a) ==
  IF a.free /\ ~RetireOk(st, a.key) THEN Err(st)
  ELSE IF st.key[a.key] = 0 THEN Ok(st, <<>>)
  ELSE Ok(Drop(st, a.key), <<<<"deleted", 0, a.key>>, <<"retired", st.key[a.key], "">>>>)
RevokeIn(st, d, p) == [st EXCEPT !.del_set = {IF e.d = d /\ e.p = p THEN [e EXCEPT !.rev = st.block] ELSE e : e \in @}]
CanRevoke(st, d, p) == HasDel(st, d, p) /\ Del(st, d, p).rev = 0
Revoke(st, a, d, p) ==
  IF st.key[a.key] = 0 THEN (IF a.free THEN Err(st) ELSE Ok(st, <<>>))
  ELSE IF ~CanRevoke(st, d, p) THEN Err(st)
  ELSE Ok(RevokeIn(st, d, p), <<<<"revoked", d, ToString(p)>>>>)
RevokeSchemas(st, a) ==
  LET d == st.key[a.key]  p == a.id  e == Del(st, d, p) IN
  IF d = 0 \/ ~HasDel(st, d, p) \/ ~SchemasOk(a.schemas) \/ ~(ToSet(a.schemas) \subseteq {x[1] : x \in e.sch_set}) THEN Err(st)
  ELSE Ok([st EXCEPT !.del_set = (@ \ {e}) \cup {[e EXCEPT !.sch_set = {IF x[1] \in ToSet(a.schemas) /\ x[2] = 0 THEN <<x[1], st.block>> ELSE x : x \in @}]}],
          <<<<"updated", d, ToString(p)>>>>)

ProviderOk(st, a) == st.key[a.key] # 0 /\ Len(a.name) <= C.namelen /\ st.prov[st.key[a.key]] = "-"
Provider(st, a, allowed) ==
  IF ~allowed \/ ~ProviderOk(st, a) THEN Err(st)
  ELSE Ok([st EXCEPT !.prov[st.key[a.key]] = a.name], <<<<"provider", st.key[a.key], "">>>>)
Propose(st, a) ==
  IF Len(a.name) > C.namelen \/ st.key[a.key] = 0 THEN Err(st)
  ELSE LET x == Provider(st, a, TRUE)
           ev == IF x.res.r = "ok" THEN x.res.ev ELSE <<>>
       IN [st |-> x.st, res |-> [r |-> "ok", enacted |-> x.res.r, ev |-> ev]]
Handle(st, a, want) ==
  LET d == st.key[a.key] IN
  IF d = 0 \/ st.hdl[d] = want THEN Err(st)
  ELSE [st |-> [st EXCEPT !.hdl[d] = want], res |-> [r |-> "ok"]]
Block(st, n) == [st |-> [st EXCEPT !.block = @ + n, !.used_set = {u \in @ : u[2] > st.block + n}], res |-> [r |-> "ok"]]
Ask(st, a) ==
  LET b == IF a.b < 0 THEN st.block ELSE a.b IN
  [st |-> st, res |-> [r |-> "ok",
     valid_set |-> {<<e.d, e.p>> : e \in {x \in st.del_set : Valid(st, x.d, x.p, b)}},
     grants_set |-> UNION {{<<e.d, e.p, x[1]>> : x \in {y \in e.sch_set : Granted(st, e.d, e.p, y[1], b)}} : e \in st.del_set},
     perms_set |-> UNION {{<<e.d, e.p, x[1], IF e.rev > 0 /\ (x[2] = 0 \/ x[2] > e.rev) THEN e.rev ELSE x[2]>> : x \in e.sch_set} : e \in st.del_set}]]
Step(st, a) ==
  CASE a.k = "create" -> Create(st, a)
    [] a.k = "sponsor" -> Sponsor(st, a)
    [] a.k = "grant" -> Grant(st, a)
    [] a.k = "addkey" -> AddKey(st, a)
    [] a.k = "del" -> DelKey(st, a)
    [] a.k = "retire" -> Retire(st, a)
    [] a.k = "revd" -> Revoke(st, a, st.key[a.key], a.id)
    [] a.k = "revp" -> Revoke(st, a, a.id, st.key[a.key])
    [] a.k = "revs" -> RevokeSchemas(st, a)
    [] a.k = "provider" -> Provider(st, a, TRUE)
    [] a.k = "govern" -> Provider(st, a, a.root)
    [] a.k = "propose" -> Propose(st, a)
    [] a.k = "hclaim" -> Handle(st, a, TRUE)
    [] a.k = "hretire" -> Handle(st, a, FALSE)
    [] a.k = "block" -> Block(st, a.n)
    [] a.k = "ask" -> Ask(st, a)
RECURSIVE Run(_, _)
Run(st, acts) == IF acts = <<>> THEN st ELSE Run(Step(st, Head(acts)).st, Tail(acts))
InitSt == Run(EmptySt, C.pre)

---------------------------------------------------------------------------
KeysOf(st, id) == {k \in Keys : st.key[k] = id}
M01(st) == \A id \in Range(st) : st.cnt[id] = Cardinality(KeysOf(st, id)) /\ st.cnt[id] <= C.maxkeys
M01Step(f, a, r, t) ==
  /\ \A id \in Range(f) : (f.cnt[id] > 0 /\ t.cnt[id] = 0) => a.k = "retire" /\ f.key[a.key] = id
  /\ \A k \in Keys : f.key[k] # t.key[k] =>
       IF f.key[k] = 0 THEN a.k \in {"create", "sponsor", "addkey"} /\ a.key = k
       ELSE t.key[k] = 0 /\ \/ a.k = "retire" /\ a.key = k
                            \/ a.k = "del" /\ a.del = k /\ a.key # k /\ f.key[a.key] = f.key[k]
M02Step(f, a, r, t) ==
  /\ t.max \in {f.max, f.max + 1}
  /\ t.max > f.max => a.k \in {"create", "sponsor"} /\ f.key[a.key] = 0 /\ t.key[a.key] = t.max
  /\ (a.k \in {"create", "sponsor"} /\ r.r = "ok") => t.max = f.max + 1
  /\ \A id \in Range(f) : f.cnt[id] = 0 => t.cnt[id] = 0            \* never used again
Labels(a) == IF a.k = "addkey" THEN {KeyLabel(a.osigner, a), KeyLabel(a.nsigner, a)} ELSE {ProvLabel(a)}
Signed(a, r) == a.k \in {"sponsor", "grant", "addkey"} /\ r.r = "ok"
M03(st) == \A u \in st.used_set : \E j \in DOMAIN st.reg : st.reg[j] = u   \* nothing alive is forgotten
           /\ Len(st.reg) <= C.maxsigs
M03Step(f, a, r, t) ==
  /\ Signed(a, r) => \A l \in Labels(a) : <<l, a.exp>> \notin f.used_set /\ <<l, a.exp>> \in t.used_set
  /\ \A u \in f.used_set : u \in t.used_set \/ u[2] <= t.block
M04Step(f, a, r, t) == Signed(a, r) =>
  /\ a.exp > f.block /\ a.exp < f.block + C.window
  /\ IF a.k = "addkey" THEN a.otamper = "none" /\ a.ntamper = "none" /\ a.osigner = a.owner /\ a.nsigner = a.key /\ f.key[a.owner] = a.msa /\ a.msa # 0
     ELSE a.tamper = "none" /\ a.signer = a.key /\ a.auth = f.key[a.by] /\ a.auth # 0
Ids(st) == {<<e.d, e.p>> : e \in st.del_set}
M05Step(f, a, r, t) ==
  /\ \A e \in f.del_set : \E n \in t.del_set : n.d = e.d /\ n.p = e.p
       /\ (n.rev # e.rev => \/ e.rev = 0 /\ n.rev = f.block /\ a.k = "revd" /\ f.key[a.key] = e.d /\ a.id = e.p
                            \/ e.rev = 0 /\ n.rev = f.block /\ a.k = "revp" /\ f.key[a.key] = e.p /\ a.id = e.d
                            \/ n.rev = 0 /\ a.k = "grant" /\ SignedBy(a) /\ f.key[a.by] = e.p /\ f.key[a.key] = e.d)
  /\ \A n \in t.del_set : <<n.d, n.p>> \notin Ids(f) => n.rev = 0 /\ a.k \in {"grant", "sponsor"} /\ SignedBy(a) /\ t.key[a.by] = n.p /\ t.key[a.key] = n.d
  /\ a.k = "ask" => \A e \in f.del_set :
       (<<e.d, e.p>> \in r.valid_set) <=> (a.b <= f.block /\ (e.rev = 0 \/ e.rev >= (IF a.b < 0 THEN f.block ELSE a.b)))
M06(st) == \A e \in st.del_set : Cardinality(e.sch_set) <= C.maxgrants /\ \A x \in e.sch_set : x[1] <= C.nschemas /\ x[2] <= st.block
M06Step(f, a, r, t) ==
  /\ \A e \in f.del_set : LET n == Del(t, e.d, e.p) IN \A x \in e.sch_set :
       \/ x \in n.sch_set
       \/ /\ x[2] = 0 /\ <<x[1], f.block>> \in n.sch_set       \* withdrawn, by the user's signed replacement or call
          /\ \/ a.k = "grant" /\ f.key[a.key] = e.d /\ f.key[a.by] = e.p /\ x[1] \notin ToSet(a.schemas)
             \/ a.k = "revs" /\ f.key[a.key] = e.d /\ a.id = e.p /\ x[1] \in ToSet(a.schemas)
       \/ x[2] # 0 /\ <<x[1], 0>> \in n.sch_set /\ a.k = "grant" /\ f.key[a.key] = e.d /\ f.key[a.by] = e.p /\ x[1] \in ToSet(a.schemas)
  /\ (a.k \in {"grant", "sponsor"} /\ r.r = "ok") =>
       {x[1] : x \in {y \in Del(t, t.key[a.key], t.key[a.by]).sch_set : y[2] = 0}} = ToSet(a.schemas)
  /\ (a.k = "ask") => \A e \in f.del_set : \A x \in e.sch_set :
       (<<e.d, e.p, x[1]>> \in r.grants_set) <=> (LET b == IF a.b < 0 THEN f.block ELSE a.b IN
          b <= f.block /\ (e.rev = 0 \/ b <= e.rev) /\ (x[2] = 0 \/ b <= x[2]))
M07(st) == \A id \in Range(st) : Len(st.prov[id]) <= C.namelen \/ st.prov[id] = "-"
M07Step(f, a, r, t) ==
  /\ \A id \in Range(f) : f.prov[id] # t.prov[id] => f.prov[id] = "-" /\ a.k \in {"provider", "govern", "propose"} /\ f.key[a.key] = id /\ t.prov[id] = a.name
       /\ (a.k = "govern" => a.root)
  /\ \A n \in t.del_set : (n \notin f.del_set /\ n.rev = 0 /\ a.k \in {"grant", "sponsor"}) => f.prov[n.p] # "-" /\ n.d # n.p
\* dispatched by a wrapping call the conditions are not checked: finding M08-wrapped
M08Step(f, a, r, t) == (a.k = "retire" /\ r.r = "ok" /\ a.free) =>
  LET d == f.key[a.key] IN
  /\ d # 0 /\ f.cnt[d] = 1 /\ f.prov[d] = "-" /\ ~f.hdl[d] /\ \A e \in f.del_set : e.d = d => e.rev # 0 /\ e.rev < f.block
  /\ t.cnt[d] = 0 /\ t.key[a.key] = 0
FreeOk(f, a) ==
  CASE a.k = "del" -> DelOk(f, a)
    [] a.k = "retire" -> RetireOk(f, a.key)
    [] a.k = "revd" -> f.key[a.key] # 0 /\ CanRevoke(f, f.key[a.key], a.id)
    [] a.k = "revp" -> f.key[a.key] # 0 /\ CanRevoke(f, a.id, f.key[a.key])
M09Step(f, a, r, t) == (a.k \in {"del", "retire", "revd", "revp"} /\ a.free) =>
  (IF FreeOk(f, a) THEN r.r = "ok" /\ t # f ELSE r.r = "err" /\ t = f)
=============================================================================
