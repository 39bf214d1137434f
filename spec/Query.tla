------------------------------- MODULE Query -------------------------------
(* What the node answers over RPC, as a function of what is on chain; and how the parts of the chain hang together.
   st is a projection of the whole runtime:
     block, max (accounts issued), key (key -> account or 0), prov_set, del_set of [d, p, rev, sch_set of <<schema, revoked at>>],
     sch (identifier as a string -> [model, type, loc, set_set]), name_set of [ns, ds, ids],
     hdl_set of [m, base, sfx], own_set of [canon, sfx, m], idx_set of [canon, i, min]   (texts as code points)
     item_set of [m, s, n, h, v], page_set of [m, s, p, n, h, v] (h: content hash, v: <<letter, length>> or a list of these)
     msg_set of [b, s, i, by, of, c]
     okey_set of [m, bad, l]: what the off-chain worker recorded about an account's keys (bad: undecodable data) *)
EXTENDS HandleData, SequencesExt, FiniteSetsExt, TLC
SD == INSTANCE SchemaData
C == JsonDeserialize(IOEnv.CFG)
FromJson(s) == [s EXCEPT !.prov_set = ToSet(@), !.del_set = {[e EXCEPT !.sch_set = ToSet(@)] : e \in ToSet(@)}, !.name_set = ToSet(@), !.hdl_set = ToSet(@), !.own_set = ToSet(@),
                         !.idx_set = ToSet(@), !.item_set = ToSet(@), !.page_set = ToSet(@), !.msg_set = ToSet(@), !.okey_set = ToSet(@)]
RMin == 10
RMax == 99
\* per base handle of the configuration, computed once
ASSUME TLCSet(41, TLCEval([b \in DOMAIN C.bases |->
  LET u == Utf8(C.bases[b])  c == Canon(C.bases[b]) IN [bytes |-> Len(u), canon |-> c, ok |-> Claimable(u), seq |-> SuffixSeq(RMin, RMax, Utf8(c))]]))
V == TLCGet(41)
Err == [r |-> "err"]
None == [r |-> "none"]
Is(x) == [r |-> "ok", got |-> x]
AreSet(x) == [r |-> "ok", got_set |-> x]
Known(st, s) == ToString(s) \in DOMAIN st.sch
Loc(st, s) == IF Known(st, s) THEN st.sch[ToString(s)].loc ELSE "none"
---------------------------------------------------------------------------
(* delegations *)
HasDel(st, d, p) == \E e \in st.del_set : e.d = d /\ e.p = p
Del(st, d, p) == CHOOSE e \in st.del_set : e.d = d /\ e.p = p
Valid(st, d, p, b) == HasDel(st, d, p) /\ b <= st.block /\ (Del(st, d, p).rev = 0 \/ Del(st, d, p).rev >= b)
Granted(st, d, p, s, b) == Valid(st, d, p, b) /\ \E x \in Del(st, d, p).sch_set : x[1] = s /\ (x[2] = 0 \/ b <= x[2])
Delegated(st, a) == Is([k \in DOMAIN a.list |-> <<a.list[k], IF a.s = 0 /\ ~a.zero THEN Valid(st, a.list[k], a.p, a.b) ELSE Granted(st, a.list[k], a.p, a.s, a.b)>>])
\* the block a permission ends: its own, or that of the delegation when that was earlier
Ends(e, x) == IF e.rev > 0 /\ (x[2] = 0 \/ x[2] > e.rev) THEN e.rev ELSE x[2]
Perms(e) == {[schema_id |-> x[1], revoked_at |-> Ends(e, x)] : x \in e.sch_set}
Grants(st, a) == IF ~HasDel(st, a.d, a.p) \/ Del(st, a.d, a.p).sch_set = {} THEN None ELSE AreSet(Perms(Del(st, a.d, a.p)))
All(st, a) == AreSet({[provider_id |-> e.p, permissions_set |-> Perms(e)] : e \in {x \in st.del_set : x.d = a.d}})
KeysOf(st, a) ==
  LET K == {e \in st.okey_set : e.m = a.m} IN
  IF ~C.offchain THEN Err
  ELSE IF K = {} THEN None ELSE LET e == CHOOSE x \in K : TRUE IN IF e.bad THEN Err ELSE [r |-> "ok", m |-> a.m, keys |-> e.l]
(* handles *)
Handle(st, a) ==
  LET H == {e \in st.hdl_set : e.m = a.m} IN
  IF H = {} THEN None ELSE LET h == CHOOSE x \in H : TRUE IN Is([base_handle |-> h.base, canonical_base |-> Canon(h.base), suffix |-> h.sfx])
NextAt(st, c) == LET I == {e \in st.idx_set : e.canon = c /\ e.min = RMin} IN IF I = {} THEN 0 ELSE (CHOOSE x \in I : TRUE).i + 1
NextSfx(st, a) ==
  LET v == V[a.base]  n0 == IF a.n < 0 THEN 1 ELSE a.n  n == IF n0 > 100 THEN 100 ELSE n0  at == NextAt(st, v.canon)
      left == IF Len(v.seq) > at THEN Len(v.seq) - at ELSE 0
  IN IF v.bytes > 32 THEN Err
     ELSE Is([base_handle |-> C.bases[a.base], suffixes |-> SubSeq(v.seq, at + 1, at + (IF n < left THEN n ELSE left))])
Owner(st, a) ==
  LET p == SplitName(a.name)  c == Canon(p.base)  O == {e \in st.own_set : e.canon = c /\ e.sfx = p.suffix} IN
  IF Len(Utf8(a.name)) > 38 THEN Err ELSE IF ~p.some \/ O = {} THEN None ELSE Is((CHOOSE x \in O : TRUE).m)
(* schemas *)
Schema(st, a) ==
  IF ~Known(st, a.s) THEN None
  ELSE LET x == st.sch[ToString(a.s)] IN Is([schema_id |-> a.s, model |-> x.model, model_type |-> x.type, payload_location |-> x.loc, settings_set |-> x.set_set])
Versions(st, a) ==
  LET p == SD!Name(a.name, FALSE)
      E == {e \in st.name_set : e.ns = p[2] /\ (p[3] = <<>> \/ e.ds = p[3])}
  IN IF ~p[1] THEN None ELSE AreSet(UNION {{[schema_name |-> e.ns \o <<46>> \o e.ds, schema_version |-> k, schema_id |-> e.ids[k]] : k \in DOMAIN e.ids} : e \in E})
(* stateful storage *)
Items(st, a) ==
  LET E == {e \in st.item_set : e.m = a.m /\ e.s = a.s}
      x == IF E = {} THEN [n |-> 0, h |-> "0", v |-> <<>>] ELSE CHOOSE e \in E : TRUE
  IN IF Loc(st, a.s) # "Itemized" THEN Err
     ELSE Is([msa_id |-> a.m, schema_id |-> a.s, content_hash |-> x.h, nonce |-> x.n, items |-> [k \in DOMAIN x.v |-> [index |-> k - 1, payload |-> x.v[k]]]])
Pages(st, a) ==
  IF Loc(st, a.s) # "Paginated" THEN Err
  ELSE AreSet({[page_id |-> e.p, msa_id |-> e.m, schema_id |-> e.s, content_hash |-> e.h, nonce |-> e.n, payload |-> e.v] : e \in {x \in st.page_set : x.m = a.m /\ x.s = a.s}})
(* messages *)
Of(st, s, b) == SetToSortSeq({m \in st.msg_set : m.s = s /\ m.b = b}, LAMBDA x, y : x.i < y.i)
Served(st, s) == Loc(st, s) \in {"OnChain", "IPFS"}
RECURSIVE Along(_, _, _, _, _)
Along(st, s, b, x, to) ==
  IF b >= to \/ ~Served(st, s) THEN <<>>
  ELSE LET q == Of(st, s, b) IN [k \in 1..(IF Len(q) > x THEN Len(q) - x ELSE 0) |-> <<b, x + k - 1, q[x + k], Len(q)>>] \o Along(st, s, b + 1, 0, to)
Shown(st, m) == IF Loc(st, m.s) = "OnChain" THEN [provider_msa_id |-> m.by, index |-> m.i, block_number |-> m.b, msa_id |-> m.of, payload |-> m.c]
                ELSE [provider_msa_id |-> m.by, index |-> m.i, block_number |-> m.b, cid |-> m.c[1], payload_length |-> m.c[2]]
PageOk(st, a) == a.size >= 1 /\ a.size <= 10000 /\ a.from < a.to /\ a.to - a.from <= 50000 /\ Known(st, a.s)
Page(st, a) ==
  LET q == Along(st, a.s, a.from, a.at, IF a.to > st.block + 1 THEN st.block + 1 ELSE a.to)  n == IF Len(q) < a.size THEN Len(q) ELSE a.size  l == q[n]
      nx == IF l[2] + 1 < l[4] THEN <<l[1], l[2] + 1>> ELSE <<l[1] + 1, 0>>
      more == n = a.size /\ nx[1] < a.to
  IN IF ~PageOk(st, a) THEN Err
     ELSE [r |-> "ok", content |-> [k \in 1..n |-> Shown(st, q[k][3])], has_next |-> more, next |-> IF more THEN nx ELSE <<>>]
Asks == {"q_deleg", "q_grants", "q_all", "q_keys", "q_handle", "q_next", "q_msa", "q_valid", "q_schema", "q_vers", "q_check", "q_items", "q_pages", "q_msgs"}
Answer(st, a) ==
  CASE a.k = "q_deleg" -> Delegated(st, a)
    [] a.k = "q_grants" -> Grants(st, a)
    [] a.k = "q_all" -> All(st, a)
    [] a.k = "q_keys" -> KeysOf(st, a)
    [] a.k = "q_handle" -> Handle(st, a)
    [] a.k = "q_next" -> NextSfx(st, a)
    [] a.k = "q_msa" -> Owner(st, a)
    [] a.k = "q_valid" -> Is(V[a.base].ok)
    [] a.k = "q_schema" -> Schema(st, a)
    [] a.k = "q_vers" -> Versions(st, a)
    [] a.k = "q_check" -> IF C.avro[a.model] THEN Is(TRUE) ELSE Err
    [] a.k = "q_items" -> Items(st, a)
    [] a.k = "q_pages" -> Pages(st, a)
    [] a.k = "q_msgs" -> Page(st, a)
\* answers as the driver writes them: sets as sorted sequences
Norm(k, g) == IF k = "q_schema" THEN [g EXCEPT !.settings_set = ToSet(@)] ELSE g
NormElem(k, g) == IF k = "q_all" THEN [g EXCEPT !.permissions_set = ToSet(@)] ELSE g
Same(a, x, r) ==
  IF r.r # x.r THEN FALSE
  ELSE CASE "got_set" \in DOMAIN x -> Len(r.got_set) = Cardinality(x.got_set) /\ x.got_set = {NormElem(a.k, g) : g \in ToSet(r.got_set)}
         [] "got" \in DOMAIN x -> Norm(a.k, x.got) = Norm(a.k, r.got)
         [] OTHER -> x = r
---------------------------------------------------------------------------
(* how the parts hang together: everything that is referred to exists *)
Accounts(st) == 1..st.max
Sound(st) ==
  /\ \A k \in DOMAIN st.key : st.key[k] \in Accounts(st) \cup {0}
  /\ st.prov_set \subseteq Accounts(st)
  /\ \A e \in st.del_set : e.d \in Accounts(st) /\ e.p \in st.prov_set /\ e.d # e.p /\ e.rev <= st.block /\ \A x \in e.sch_set : Known(st, x[1]) /\ x[2] <= st.block
  /\ \A e \in st.name_set : \A k \in DOMAIN e.ids : Known(st, e.ids[k])
  /\ \A e, f \in st.name_set : \A j \in DOMAIN e.ids : \A k \in DOMAIN f.ids : e.ids[j] = f.ids[k] => e = f /\ j = k
  /\ \A h \in st.hdl_set : h.m \in Accounts(st) /\ [canon |-> Canon(h.base), sfx |-> h.sfx, m |-> h.m] \in st.own_set
  /\ Cardinality(st.own_set) = Cardinality(st.hdl_set) /\ Cardinality({h.m : h \in st.hdl_set}) = Cardinality(st.hdl_set) /\ Cardinality({<<o.canon, o.sfx>> : o \in st.own_set}) = Cardinality(st.own_set)
  /\ \A h \in st.hdl_set : \E k \in DOMAIN st.key : st.key[k] = h.m             \* a handle's account can still act
  /\ \A p \in st.item_set : p.m \in Accounts(st) /\ Loc(st, p.s) = "Itemized"
  /\ \A p \in st.page_set : p.m \in Accounts(st) /\ Loc(st, p.s) = "Paginated"
  /\ \A m \in st.msg_set : Served(st, m.s) /\ m.by \in Accounts(st) /\ m.b <= st.block /\ (IF Loc(st, m.s) = "OnChain" THEN m.of \in Accounts(st) ELSE m.of = 0)
\* an account that nobody holds any more acts no more and is nobody's delegate's
Dead(st) == {m \in Accounts(st) : \A k \in DOMAIN st.key : st.key[k] # m}
NotActing(f, t) ==
  /\ \A m \in t.msg_set \ f.msg_set : m.by \notin Dead(f)
  /\ \A e \in t.del_set : e.rev = 0 => e.d \notin Dead(t) /\ e.p \notin Dead(t)
=============================================================================
