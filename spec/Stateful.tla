------------------------------ MODULE Stateful ------------------------------
(* Stateful storage: itemized and paginated pages of users under schemas,    *)
(* written by owners, delegates or with signed payloads (T01 - T05).         *)
(* An account (MSA) is a name.  The content hash of a page is ideal: it is   *)
(* the pair <<nonce, content>>, and <<0, <<>>>> for a page without content.  *)
(* Content is a sequence of blobs <<letter, length>>; a paginated page holds *)
(* one blob or none.                                                         *)
EXTENDS Grants, Json, IOUtils

C == JsonDeserialize(IOEnv.CFG)
ToSet(q) == {q[j] : j \in DOMAIN q}
Keys == ToSet(C.keys)
ITEMS == 0 - 1                                     \* page number of an itemized page
Err(st) == [st |-> st, res |-> [r |-> "err"]]
Ok(st, ev) == [st |-> st, res |-> [r |-> "ok", ev |-> ev]]
EmptySt == [block |-> 1, key |-> [k \in Keys |-> "-"],
            del_set |-> {},        \* [d, p, rev, sch_set of <<schema, revoked at>>]
            page_set |-> {}]       \* [m, s, p, n, v]
FromJson(s) == [s EXCEPT !.del_set = {[e EXCEPT !.sch_set = ToSet(@)] : e \in ToSet(@)}, !.page_set = ToSet(@)]

---------------------------------------------------------------------------
\* schemas: [id, loc, append, signed]
HasSchema(s) == \E j \in DOMAIN C.schemas : C.schemas[j].id = s
Schema(s) == C.schemas[CHOOSE j \in DOMAIN C.schemas : C.schemas[j].id = s]
SchemaAllows(s, loc, signed, deleting) ==
  HasSchema(s) /\ LET x == Schema(s) IN x.loc = loc /\ (x.signed => signed) /\ (x.append => ~deleting)
PageAt(st, m, s, p) == {e \in st.page_set : e.m = m /\ e.s = s /\ e.p = p}
Cur(st, m, s, p) ==
  IF PageAt(st, m, s, p) = {} THEN [m |-> m, s |-> s, p |-> p, n |-> 0, v |-> <<>>] ELSE CHOOSE e \in PageAt(st, m, s, p) : TRUE
ZERO == <<0, <<>>>>
HashOf(g) == IF g.v = <<>> THEN ZERO ELSE <<g.n, g.v>>
Put(st, g) == [st EXCEPT !.page_set = (@ \ PageAt(st, g.m, g.s, g.p)) \cup {g}]
Gone(st, m, s, p) == [st EXCEPT !.page_set = @ \ PageAt(st, m, s, p)]
NextN(n) == (n + 1) % 65536
RECURSIVE Bytes(_)
Bytes(v) == IF v = <<>> THEN 0 ELSE 2 + Head(v)[2] + Bytes(Tail(v))

\* item actions: deletions address the items present before, additions come last, in order
Dels(acts) == [j \in {i \in DOMAIN acts : acts[i][1] = "del"} |-> acts[j][2]]
ActsOk(v, acts) ==
  LET d == Dels(acts) IN
  /\ \A i \in DOMAIN d : d[i] \in 0..(Len(v) - 1)
  /\ \A i, j \in DOMAIN d : i # j => d[i] # d[j]
Pruning(acts) == \E j \in DOMAIN acts : acts[j][1] = "del"
Fits(acts) == Len(acts) <= C.maxacts /\ \A j \in DOMAIN acts : acts[j][1] = "add" => acts[j][2][2] <= C.blob
RECURSIVE Kept(_, _, _), Added(_)
Kept(v, gone, i) == IF v = <<>> THEN <<>> ELSE (IF i \in gone THEN <<>> ELSE <<Head(v)>>) \o Kept(Tail(v), gone, i + 1)
Added(acts) == IF acts = <<>> THEN <<>> ELSE (IF Head(acts)[1] = "add" THEN <<Head(acts)[2]>> ELSE <<>>) \o Added(Tail(acts))
Applied(v, acts) == Kept(v, {Dels(acts)[j] : j \in DOMAIN Dels(acts)}, 0) \o Added(acts)

\* the three writes on the page of account m, once admitted
Items(st, m, a) ==
  LET g == Cur(st, m, a.s, ITEMS)
      w == Applied(g.v, a.acts)
  IN IF HashOf(g) # a.target \/ ~ActsOk(g.v, a.acts) \/ Bytes(w) > C.ipage THEN Err(st)
     ELSE IF w = <<>> THEN Ok(Gone(st, m, a.s, ITEMS), <<<<"gone", m, a.s, ITEMS>>>>)
     ELSE Ok(Put(st, [g EXCEPT !.n = NextN(@), !.v = w]), <<<<"put", m, a.s, ITEMS>>>>)
PageV(b) == IF b[2] = 0 THEN <<>> ELSE <<b>>
Page(st, m, a) ==
  LET g == Cur(st, m, a.s, a.p) IN
  IF HashOf(g) # a.target THEN Err(st)
  ELSE Ok(Put(st, [g EXCEPT !.n = NextN(@), !.v = PageV(a.data)]), <<<<"put", m, a.s, a.p>>>>)
Drop(st, m, a) ==
  IF PageAt(st, m, a.s, a.p) = {} THEN Ok(st, <<>>)
  ELSE IF HashOf(Cur(st, m, a.s, a.p)) # a.target THEN Err(st)
  ELSE Ok(Gone(st, m, a.s, a.p), <<<<"gone", m, a.s, a.p>>>>)
\* what only depends on the request and its schema: a.w \in {"items", "page", "drop"}
WellFormed(a, signed) ==
  CASE a.w = "items" -> Fits(a.acts) /\ SchemaAllows(a.s, "items", signed, Pruning(a.acts))
    [] a.w = "page" -> a.p <= C.maxpage /\ a.data[2] <= C.ppage /\ SchemaAllows(a.s, "pages", signed, FALSE)
    [] a.w = "drop" -> a.p <= C.maxpage /\ SchemaAllows(a.s, "pages", signed, TRUE)
Apply(st, m, a) ==
  CASE a.w = "items" -> Items(st, m, a) [] a.w = "page" -> Page(st, m, a) [] a.w = "drop" -> Drop(st, m, a)
\* by the owner or a delegate
Write(st, a) ==
  LET c == st.key[a.by] IN
  IF c = "-" \/ ~(c = a.owner \/ Granted(st, a.owner, c, a.s)) \/ ~WellFormed(a, c = a.owner) THEN Err(st)
  ELSE Apply(st, a.owner, a)
\* with a signed payload, submitted by anybody; version 1 payloads name the account
SignedOk(st, a) ==
  /\ a.tamper = "none" /\ a.signer = a.key
  /\ a.exp > st.block /\ a.exp < st.block + C.window
  /\ st.key[a.key] # "-" /\ (a.v = 1 => st.key[a.key] = a.msa)
Signed(st, a) ==
  IF ~SignedOk(st, a) \/ ~WellFormed(a, TRUE) THEN Err(st) ELSE Apply(st, st.key[a.key], a)

Step(st, a) ==
  CASE a.k = "key" -> KeyOn(st, a)
    [] a.k = "unkey" -> KeyOff(st, a)
    [] a.k = "allow" -> Allow(st, a)
    [] a.k = "deny" -> Deny(st, a)
    [] a.k = "cut" -> Cut(st, a)
    [] a.k = "block" -> [st |-> [st EXCEPT !.block = @ + a.n], res |-> [r |-> "ok"]]
    \* a page that has been written very often
    [] a.k = "worn" -> [st |-> Put(st, [m |-> a.m, s |-> a.s, p |-> a.p, n |-> a.n, v |-> a.v]), res |-> [r |-> "ok"]]
    [] a.k = "write" -> Write(st, a)
    [] a.k = "signed" -> Signed(st, a)
RECURSIVE Run(_, _)
Run(st, acts) == IF acts = <<>> THEN st ELSE Run(Step(st, Head(acts)).st, Tail(acts))
InitSt == Run(EmptySt, C.pre)

---------------------------------------------------------------------------
IsWrite(a) == a.k \in {"write", "signed"}
Owner(f, a) == IF a.k = "write" THEN a.owner ELSE f.key[a.key]
Pg(a) == IF a.w = "items" THEN ITEMS ELSE a.p
Before(f, a) == Cur(f, Owner(f, a), a.s, Pg(a))
Same(f, t) == f = t
\* a stale write does nothing; a page that goes on living has another hash; nothing else than a write changes a page
T01Step(f, a, r, t) ==
  /\ IsWrite(a) /\ t.page_set # f.page_set => r.r = "ok" /\ a.target = HashOf(Before(f, a))
  /\ IsWrite(a) /\ r.r # "ok" => t = f
  /\ IsWrite(a) /\ r.r = "ok" => LET g == Cur(t, Owner(f, a), a.s, Pg(a)) IN
       g.v # <<>> => HashOf(g) # HashOf(Before(f, a)) /\ (Before(f, a).n < 65535 => g.n > Before(f, a).n)
  /\ ~IsWrite(a) /\ a.k # "worn" => t.page_set = f.page_set
\* the items of the page after a list of actions, stated item by item
T02Step(f, a, r, t) == (IsWrite(a) /\ a.w = "items") =>
  LET v == Before(f, a).v  w == Cur(t, Owner(f, a), a.s, ITEMS).v
      d == {a.acts[j][2] : j \in {i \in DOMAIN a.acts : a.acts[i][1] = "del"}}
      nd == Cardinality({i \in DOMAIN a.acts : a.acts[i][1] = "del"})  na == Len(a.acts) - nd
  IN IF r.r = "ok" THEN
       /\ d \subseteq 0..(Len(v) - 1) /\ Cardinality(d) = nd /\ Len(w) = Len(v) - nd + na /\ Bytes(w) <= C.ipage /\ Len(a.acts) <= C.maxacts
       /\ \A i \in 1..Len(v) : (i - 1) \notin d => w[i - Cardinality({x \in d : x < i - 1})] = v[i]
       /\ \A j \in DOMAIN a.acts : a.acts[j][1] = "add" =>
            a.acts[j][2][2] <= C.blob /\ w[Len(v) - nd + Cardinality({i \in 1..j : a.acts[i][1] = "add"})] = a.acts[j][2]
     ELSE t = f
\* who may write, and how
T03Step(f, a, r, t) == (IsWrite(a) /\ r.r = "ok") =>
  /\ HasSchema(a.s)
  /\ LET x == Schema(a.s)  c == IF a.k = "write" THEN f.key[a.by] ELSE f.key[a.key]  o == Owner(f, a) IN
     /\ c # "-" /\ o # "-"
     /\ x.loc = (IF a.w = "items" THEN "items" ELSE "pages")
     /\ a.k = "write" => c = o \/ (Granted(f, o, c, a.s) /\ ~x.signed)
     /\ a.k = "signed" => a.signer = a.key /\ a.tamper = "none"
     /\ x.append => a.w # "drop" /\ (a.w = "items" => ~Pruning(a.acts))
\* nothing but the addressed page changes, and it holds exactly what was written
T04Step(f, a, r, t) ==
  /\ IsWrite(a) => {e \in f.page_set : e \notin PageAt(f, Owner(f, a), a.s, Pg(a))} = {e \in t.page_set : e \notin PageAt(t, Owner(f, a), a.s, Pg(a))}
  /\ (IsWrite(a) /\ r.r = "ok" /\ a.w = "page") => Cur(t, Owner(f, a), a.s, a.p).v = PageV(a.data) /\ PageAt(t, Owner(f, a), a.s, a.p) # {}
  /\ (IsWrite(a) /\ r.r = "ok" /\ a.w = "drop") => PageAt(t, Owner(f, a), a.s, a.p) = {}
T04(st) == \A e, g \in st.page_set : (e.m = g.m /\ e.s = g.s /\ e.p = g.p) => e = g
\* payload and signature, lifetime; a second effect needs the very content it was signed against (T01: a page that
\* goes on living never has it again)
T05Step(f, a, r, t) == (a.k = "signed" /\ r.r = "ok") =>
  /\ a.tamper = "none" /\ a.signer = a.key /\ f.key[a.key] # "-" /\ (a.v = 1 => a.msa = f.key[a.key])
  /\ a.exp > f.block /\ a.exp < f.block + C.window
  /\ t.page_set # f.page_set => a.target = HashOf(Before(f, a)) /\ (a.target # ZERO => HashOf(Cur(t, Owner(f, a), a.s, Pg(a))) # a.target)
=============================================================================
