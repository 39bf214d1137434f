------------------------------ MODULE Messages ------------------------------
(* Messages of a block under schemas, by users and their delegates, and the paged reading of a range of blocks.
   st: block, idx (messages of the current block), key, del_set (Grants),
       msg_set of [b, s, i, by, of, c]: block, schema, index, provider, author ("" for off-chain content), content
   content: <<letter, length>> on chain, <<base-32 content id, length>> off chain. *)
EXTENDS Grants, Cid, SequencesExt, FiniteSetsExt, Json, IOUtils
C == JsonDeserialize(IOEnv.CFG)
Keys == ToSet(C.keys)
Chr == <<"-",".","/","0","1","2","3","4","5","6","7","8","9">> \o <<":",";","<","=",">","?","@">>
       \o <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
       \o <<"[","\\","]","^","_","`">> \o <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
RECURSIVE Str0(_, _)
Str0(q, k) == IF k > Len(q) THEN "" ELSE Chr[q[k] - 44] \o Str0(q, k + 1)
\* content ids of the configuration: name -> [ok, text, size]
ASSUME TLCSet(41, TLCEval([n \in DOMAIN C.cids |-> LET x == CidOf(C.cids[n]) IN [ok |-> x[1], text |-> IF x[1] THEN Str0(Base32(x[2]), 1) ELSE "", size |-> Len(x[2])]]))
V == TLCGet(41)
Err(st) == [st |-> st, res |-> [r |-> "err"]]
EmptySt == [block |-> 1, idx |-> 0, key |-> [k \in Keys |-> "-"], del_set |-> {}, msg_set |-> {}]
FromJson(s) == [s EXCEPT !.del_set = {[e EXCEPT !.sch_set = ToSet(@)] : e \in ToSet(@)}, !.msg_set = ToSet(@)]
Loc(s) == IF \E j \in DOMAIN C.schemas : C.schemas[j].id = s THEN C.schemas[CHOOSE j \in DOMAIN C.schemas : C.schemas[j].id = s].loc ELSE "none"
Add(st, m) ==
  IF st.idx = 65535 THEN Err(st)
  ELSE [st |-> [st EXCEPT !.idx = @ + 1, !.msg_set = @ \cup {[b |-> st.block, i |-> st.idx] @@ m}],
        res |-> [r |-> "ok", ev |-> IF st.idx = 0 THEN <<"messages">> ELSE <<>>]]
Onchain(st, a) ==
  LET m == st.key[a.by] IN
  IF m = "-" \/ a.c[2] > C.maxpayload \/ Loc(a.s) # "chain" \/ (a.of # "" /\ ~Granted(st, a.of, m, a.s)) THEN Err(st)
  ELSE Add(st, [s |-> a.s, by |-> m, of |-> IF a.of = "" THEN m ELSE a.of, c |-> a.c])
CompactLen(n) == IF n < 64 THEN 1 ELSE IF n < 16384 THEN 2 ELSE 4
Ipfs(st, a) ==
  LET m == st.key[a.by]  v == V[a.cid] IN
  IF m = "-" \/ ~v.ok \/ CompactLen(v.size) + v.size + 4 > C.maxpayload \/ Loc(a.s) # "ipfs" THEN Err(st)
  ELSE Add(st, [s |-> a.s, by |-> m, of |-> "", c |-> <<v.text, a.len>>])
\* ---- reading ----
Of(st, s, b) == SetToSortSeq({m \in st.msg_set : m.s = s /\ m.b = b}, LAMBDA x, y : x.i < y.i)
Served(s) == Loc(s) \in {"chain", "ipfs"}
\* the messages at and behind position x of block b, up to block to: <<block, position in the block, message>>
RECURSIVE Along(_, _, _, _, _)
Along(st, s, b, x, to) ==
  IF b >= to \/ ~Served(s) THEN <<>>
  ELSE LET q == Of(st, s, b) IN [k \in 1..(IF Len(q) > x THEN Len(q) - x ELSE 0) |-> <<b, x + k - 1, q[x + k], Len(q)>>] \o Along(st, s, b + 1, 0, to)
PageOk(a) == a.size >= 1 /\ a.size <= 10000 /\ a.from < a.to /\ a.to - a.from <= 50000 /\ Loc(a.s) # "none"
End(st) == st.block + 1
Clip(st, a) == IF a.to > End(st) THEN End(st) ELSE a.to
PageAt(st, a) ==
  LET q == Along(st, a.s, a.from, a.at, Clip(st, a))  n == IF Len(q) < a.size THEN Len(q) ELSE a.size  l == q[n]
      nx == IF l[2] + 1 < l[4] THEN <<l[1], l[2] + 1>> ELSE <<l[1] + 1, 0>>
  IN [got |-> [k \in 1..n |-> q[k][3]], next |-> IF n = a.size /\ nx[1] < a.to THEN nx ELSE <<>>]
Page(st, a) == [st |-> st, res |-> IF PageOk(a) THEN [r |-> "ok"] @@ PageAt(st, a) ELSE [r |-> "err"]]
\* reading page after page until nothing follows
Walk(st, a) == [st |-> st, res |-> IF PageOk(a) THEN [r |-> "ok", got |-> LET q == Along(st, a.s, a.from, 0, Clip(st, a)) IN [k \in 1..Len(q) |-> q[k][3]]] ELSE [r |-> "err"]]
Step(st, a) ==
  CASE a.k = "key" -> KeyOn(st, a)
    [] a.k = "unkey" -> KeyOff(st, a)
    [] a.k = "allow" -> Allow(st, a)
    [] a.k = "deny" -> Deny(st, a)
    [] a.k = "cut" -> Cut(st, a)
    [] a.k = "block" -> [st |-> [st EXCEPT !.block = @ + a.n, !.idx = 0], res |-> [r |-> "ok"]]
    [] a.k = "full" -> [st |-> [st EXCEPT !.idx = a.n], res |-> [r |-> "ok"]]          \* a block that has many messages of a schema not looked at
    [] a.k = "onchain" -> Onchain(st, a)
    [] a.k = "ipfs" -> Ipfs(st, a)
    [] a.k = "page" -> Page(st, a)
    [] a.k = "walk" -> Walk(st, a)
RECURSIVE Run(_, _)
Run(st, acts) == IF acts = <<>> THEN st ELSE Run(Step(st, Head(acts)).st, Tail(acts))
InitSt == Run(EmptySt, C.pre)
(* ---- the properties ---- *)
G01(t) == \A x, y \in t.msg_set : x # y => <<x.b, x.i>> # <<y.b, y.i>>
G01Step(f, a, r, t) ==
  /\ f.msg_set \subseteq t.msg_set
  /\ \A m \in t.msg_set \ f.msg_set : m.b = f.block /\ \A x \in f.msg_set : x.b = m.b => x.i < m.i
  /\ Cardinality(t.msg_set \ f.msg_set) = (IF a.k \in {"onchain", "ipfs"} /\ r.r = "ok" THEN 1 ELSE 0)
  /\ t.block > f.block => t.idx = 0
G02Step(f, a, r, t) ==
  /\ a.k = "page" /\ r.r = "ok" => Len(r.got) <= a.size /\ (r.next # <<>> => Len(r.got) = a.size /\ r.next[1] < a.to /\ (r.next[1] > a.from \/ r.next[2] > a.at))
  /\ a.k = "walk" /\ r.r = "ok" => ToSet(r.got) = {m \in f.msg_set : Served(a.s) /\ m.s = a.s /\ m.b >= a.from /\ m.b < a.to}
                                   /\ \A j, k \in DOMAIN r.got : j < k => r.got[j].b < r.got[k].b \/ (r.got[j].b = r.got[k].b /\ r.got[j].i < r.got[k].i)
  /\ a.k \in {"page", "walk"} /\ (a.size < 1 \/ a.size > 10000 \/ a.from >= a.to \/ a.to - a.from > 50000) => r.r = "err"
G03Step(f, a, r, t) ==
  /\ a.k \in {"onchain", "ipfs"} /\ r.r = "ok" => f.key[a.by] # "-" /\ Loc(a.s) = (IF a.k = "onchain" THEN "chain" ELSE "ipfs")
  /\ a.k = "onchain" /\ r.r = "ok" => a.c[2] <= C.maxpayload /\ (a.of = "" \/ Granted(f, a.of, f.key[a.by], a.s))
  /\ a.k = "ipfs" /\ r.r = "ok" => V[a.cid].ok
  /\ r.r # "ok" => t.msg_set = f.msg_set
=============================================================================
