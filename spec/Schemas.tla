------------------------------ MODULE Schemas ------------------------------
(* The schema registry: definitions, governance routes and names.
   st: max      last issued identifier
       limit    model size limit set by governance
       sch      identifier (as a string) -> [model, type, loc, set_set (settings), named]
       name_set set of [ns, ds, ids]: ids in registration order
       pend     proposals waiting for the council, oldest first *)
EXTENDS SchemaData, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
C == JsonDeserialize(IOEnv.CFG)
Models == C.models                     \* name -> byte codes
\* which definitions are acceptable, computed once
Valid == [m \in DOMAIN Models |-> [avro |-> AvroOk(Models[m]), parquet |-> ParquetOk(Models[m]), len |-> Len(Models[m])]]
ASSUME TLCSet(41, TLCEval(Valid))
V == TLCGet(41)
Chr(c) == IF c = 45 THEN "-" ELSE IF c = 46 THEN "." ELSE <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>[c - 96]
RECURSIVE Word0(_)
Word0(s) == IF s = <<>> THEN "" ELSE Chr(Head(s)) \o Word0(Tail(s))
Ok(x) == [r |-> "ok"] @@ x
Err == [r |-> "err"]
None == [x \in {} |-> 0]
Empty == [max |-> 0, limit |-> C.limit, sch |-> None, name_set |-> {}, pend |-> <<>>]
\* ---- registration ----
Entry(st, n) == {e \in st.name_set : e.ns = n[1] /\ e.ds = n[2]}
Ids(st, n) == LET E == Entry(st, n) IN IF E = {} THEN <<>> ELSE (CHOOSE e \in E : TRUE).ids
AddName(st, n, id) == [st EXCEPT !.name_set = (@ \ Entry(st, n)) \cup {[ns |-> n[1], ds |-> n[2], ids |-> Append(Ids(st, n), id)]}]
MaxVersions == 254
Canon(codes) == LET p == Name(codes, TRUE) IN IF p[1] THEN <<Word0(p[2]), Word0(p[3])>> ELSE <<>>
\* what the definition itself must satisfy
DefOk(st, a) ==
  LET m == V[a.model] IN
  /\ IF a.type = "avro" THEN m.avro ELSE m.parquet
  /\ m.len >= C.minsize /\ m.len <= st.limit
  /\ "append" \in ToSet(a.settings) => a.loc = "items"
\* what the call can carry at all
Fits(a) == V[a.model].len <= C.hard /\ Len(a.settings) <= C.maxsettings /\ Len(a.name) <= 32
Create(st, a) ==
  IF ~Fits(a) \/ ~DefOk(st, a) \/ st.max = 65535 THEN [st |-> st, res |-> Err]
  ELSE LET n == IF a.named THEN Canon(a.name) ELSE <<"", "">>  id == st.max + 1
           put == [model |-> a.model, type |-> a.type, loc |-> a.loc, set_set |-> ToSet(a.settings), named |-> a.named]
           s1 == [st EXCEPT !.max = id, !.sch = (ToString(id) :> put) @@ @]
           made == <<"schema", id, a.by>>
       IN IF ~a.named THEN [st |-> s1, res |-> Ok([ev |-> <<made>>])]
          ELSE IF n = <<>> \/ Len(Ids(st, n)) >= MaxVersions THEN [st |-> st, res |-> Err]
          ELSE [st |-> AddName(s1, n, id), res |-> Ok([ev |-> <<made, <<"name", id, n[1] \o "." \o n[2]>>>>])]
Nameless(a) == [a EXCEPT !.named = FALSE, !.name = <<>>]
\* versions 1 and 2 of the call carry no name; version 1 carries no settings
Direct(a) == IF a.ver = 1 THEN [Nameless(a) EXCEPT !.settings = <<>>] ELSE IF a.ver = 2 THEN Nameless(a) ELSE a
Govern(a) == IF a.ver = 1 THEN Nameless(a) ELSE a
\* a name for a schema that has none
NameOk(st, a) == ToString(a.id) \in DOMAIN st.sch /\ ~st.sch[ToString(a.id)].named /\ Len(a.name) <= 32 /\ Canon(a.name) # <<>>
GiveName(st, a) ==
  LET n == Canon(a.name) IN
  IF ~NameOk(st, a) \/ Len(Ids(st, n)) >= MaxVersions THEN [st |-> st, res |-> Err]
  ELSE [st |-> AddName([st EXCEPT !.sch[ToString(a.id)].named = TRUE], n, a.id), res |-> Ok([ev |-> <<<<"name", a.id, n[1] \o "." \o n[2]>>>>])]
Effect(st, p) == IF p.k = "create" THEN Create(st, p) ELSE GiveName(st, p)
Plain0(st, ok) == [st |-> st, res |-> IF ok THEN Ok([ev |-> <<>>]) ELSE Err]
Prop(a) == IF a.k = "propname" THEN [k |-> "name", id |-> a.id, name |-> a.name]
           ELSE [k |-> "create", by |-> a.by, model |-> a.model, type |-> a.type, loc |-> a.loc, settings |-> a.settings, named |-> a.named, name |-> a.name]
\* versions of a name, or of every name of a namespace
Versions(st, codes) ==
  LET p == Name(codes, FALSE) IN
  IF ~p[1] THEN [r |-> "none"]
  ELSE LET ns == Word0(p[2])  ds == Word0(p[3])
           E == {e \in st.name_set : e.ns = ns /\ (ds = "" \/ e.ds = ds)}
       IN [r |-> "ok", got_set |-> UNION {{<<e.ns \o "." \o e.ds, k, e.ids[k]>> : k \in DOMAIN e.ids} : e \in E}, n |-> FoldSet(LAMBDA e, s : s + Len(e.ids), 0, E)]
RECURSIVE Bulk(_, _, _)
Bulk(st, a, n) == IF n = 0 THEN st ELSE Bulk(Create(st, a).st, a, n - 1)
Step(st, a) ==
  CASE a.k = "create" -> Create(st, Direct(a))
    [] a.k = "govern" -> IF ~a.root THEN [st |-> st, res |-> Err] ELSE Create(st, Govern(a))
    [] a.k = "name" -> IF ~a.root THEN [st |-> st, res |-> Err] ELSE GiveName(st, a)
    [] a.k = "propose" -> IF ~Fits(Govern(a)) THEN [st |-> st, res |-> Err] ELSE Plain0([st EXCEPT !.pend = Append(@, Prop(Govern(a)))], TRUE)
    [] a.k = "propname" -> IF ~NameOk(st, a) THEN [st |-> st, res |-> Err] ELSE Plain0([st EXCEPT !.pend = Append(@, Prop(a))], TRUE)
    [] a.k = "enact" -> IF a.i > Len(st.pend) THEN [st |-> st, res |-> Err]
                        ELSE Effect([st EXCEPT !.pend = SubSeq(@, 1, a.i - 1) \o SubSeq(@, a.i + 1, Len(@))], st.pend[a.i])
    [] a.k = "limit" -> IF a.root /\ a.n <= C.hard THEN [st |-> [st EXCEPT !.limit = a.n], res |-> Ok([ev |-> <<<<"limit", a.n>>>>])] ELSE [st |-> st, res |-> Err]
    [] a.k = "ask" -> [st |-> st, res |-> Versions(st, a.name)]
    [] a.k = "valid" -> [st |-> st, res |-> [r |-> "ok", all |-> \A k \in DOMAIN a.ids : a.ids[k] >= 1 /\ a.ids[k] <= st.max]]
    [] a.k = "skip" -> Plain0([st EXCEPT !.max = a.n], TRUE)
    [] a.k = "bulk" -> Plain0(Bulk(st, a, a.n), TRUE)
    [] OTHER -> [st |-> st, res |-> Err]
RECURSIVE RunAll(_, _)
RunAll(st, k) == IF k > Len(C.pre) THEN st ELSE RunAll(Step(st, C.pre[k]).st, k + 1)
InitSt == RunAll(Empty, 1)
(* ---- the properties ---- *)
Registered(f, t) == DOMAIN t.sch \ DOMAIN f.sch
S01Step(f, a, r, t) ==
  /\ \A i \in DOMAIN f.sch : i \in DOMAIN t.sch /\ [t.sch[i] EXCEPT !.named = f.sch[i].named] = f.sch[i] /\ (f.sch[i].named => t.sch[i].named)
  /\ a.k \notin {"skip", "bulk"} => (t.max = f.max /\ DOMAIN t.sch = DOMAIN f.sch) \/ (t.max = f.max + 1 /\ Registered(f, t) = {ToString(t.max)} /\ a.k \in {"create", "govern", "enact"})
S02Step(f, a, r, t) ==
  /\ t.limit <= C.hard
  /\ a.k # "bulk" => \A i \in Registered(f, t) : LET s == t.sch[i] IN
       /\ IF s.type = "avro" THEN V[s.model].avro ELSE V[s.model].parquet
       /\ V[s.model].len >= C.minsize /\ V[s.model].len <= f.limit
       /\ "append" \in s.set_set => s.loc = "items"
  /\ t.limit # f.limit => a.k = "limit" /\ a.root
S03(t) ==
  /\ \A e \in t.name_set : Len(e.ids) > 0 /\ \A j, k \in DOMAIN e.ids : j # k => e.ids[j] # e.ids[k]
  /\ \A e, g \in t.name_set : e # g => <<e.ns, e.ds>> # <<g.ns, g.ds>> /\ ToSet(e.ids) \cap ToSet(g.ids) = {}
  /\ \A e \in t.name_set : \A k \in DOMAIN e.ids : ToString(e.ids[k]) \in DOMAIN t.sch /\ t.sch[ToString(e.ids[k])].named
S03Step(f, a, r, t) ==
  \A e \in f.name_set : \E g \in t.name_set : g.ns = e.ns /\ g.ds = e.ds /\ Len(g.ids) >= Len(e.ids) /\ SubSeq(g.ids, 1, Len(e.ids)) = e.ids
                          /\ (a.k # "bulk" => Len(g.ids) <= Len(e.ids) + 1)
FromJson(x) == [x EXCEPT !.name_set = ToSet(@), !.sch = [i \in DOMAIN @ |-> [@[i] EXCEPT !.set_set = ToSet(@)]]]
=============================================================================
