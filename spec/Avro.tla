-------------------------------- MODULE Avro --------------------------------
(* Avro record data as the helpers write and read it (property A01).         *)
(* Schemas: <<"int">>, <<"array", s>>, <<"map", s>>, <<"union", <<s..>>>>,    *)
(* <<"record", name, <<<<field, s>>..>>>>, <<"enum", name, <<symbol..>>>>,     *)
(* <<"fixed", name, size>>, <<"ref", name>>.                                 *)
(* Values: <<tag, content>>; integers and floats as little-endian bytes.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Prims == {"null", "boolean", "int", "long", "float", "double", "bytes", "string"}
----
(* named types *)
RECURSIVE Defs(_), DefsSeq(_, _)
DefsSeq(ss, k) == IF k > Len(ss) THEN <<>> ELSE Defs(ss[k]) \o DefsSeq(ss, k + 1)
Defs(s) ==
  CASE s[1] = "record" -> <<<<s[2], s>>>> \o DefsSeq([k \in DOMAIN s[3] |-> s[3][k][2]], 1)
    [] s[1] \in {"enum", "fixed"} -> <<<<s[2], s>>>>
    [] s[1] \in {"array", "map"} -> Defs(s[2])
    [] s[1] = "union" -> DefsSeq(s[2], 1)
    [] OTHER -> <<>>
Look(D, n) == (CHOOSE k \in DOMAIN D : D[k][1] = n)
Named(D, s) == IF s[1] = "ref" THEN D[Look(D, s[2])][2] ELSE s

----
(* canonical form *)
Q(x) == "\"" \o x \o "\""
RECURSIVE Join(_, _)
Join(ss, k) == IF k > Len(ss) THEN "" ELSE ss[k] \o (IF k < Len(ss) THEN "," ELSE "") \o Join(ss, k + 1)
RECURSIVE Canon(_)
Canon(s) ==
  CASE s[1] \in Prims -> Q(s[1])
    [] s[1] = "ref" -> Q(s[2])
    [] s[1] = "array" -> "{" \o Q("type") \o ":" \o Q("array") \o "," \o Q("items") \o ":" \o Canon(s[2]) \o "}"
    [] s[1] = "map" -> "{" \o Q("type") \o ":" \o Q("map") \o "," \o Q("values") \o ":" \o Canon(s[2]) \o "}"
    [] s[1] = "union" -> "[" \o Join([k \in DOMAIN s[2] |-> Canon(s[2][k])], 1) \o "]"
    [] s[1] = "enum" -> "{" \o Q("name") \o ":" \o Q(s[2]) \o "," \o Q("type") \o ":" \o Q("enum") \o "," \o Q("symbols") \o ":["
                        \o Join([k \in DOMAIN s[3] |-> Q(s[3][k])], 1) \o "]}"
    [] s[1] = "fixed" -> "{" \o Q("name") \o ":" \o Q(s[2]) \o "," \o Q("type") \o ":" \o Q("fixed") \o "," \o Q("size") \o ":" \o ToString(s[3]) \o "}"
    [] s[1] = "record" -> "{" \o Q("name") \o ":" \o Q(s[2]) \o "," \o Q("type") \o ":" \o Q("record") \o "," \o Q("fields") \o ":["
                        \o Join([k \in DOMAIN s[3] |-> "{" \o Q("name") \o ":" \o Q(s[3][k][1]) \o "," \o Q("type") \o ":" \o Canon(s[3][k][2]) \o "}"], 1) \o "]}"

----
(* numbers: 8 little-endian bytes *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(b, k) == (b[((k - 1) \div 8) + 1] \div Pow2[((k - 1) % 8) + 1]) % 2          \* k in 1..64
Xor1(a, b) == IF a = b THEN 0 ELSE 1
FromBits(f) == [j \in 1..8 |-> f[8*j-7] + 2*f[8*j-6] + 4*f[8*j-5] + 8*f[8*j-4] + 16*f[8*j-3] + 32*f[8*j-2] + 64*f[8*j-1] + 128*f[8*j]]
Group(z, g) == LET B(k) == IF k > 64 THEN 0 ELSE z[k] IN
  B(7*g+1) + 2*B(7*g+2) + 4*B(7*g+3) + 8*B(7*g+4) + 16*B(7*g+5) + 32*B(7*g+6) + 64*B(7*g+7)
Varint(b) ==
  LET z == [k \in 1..64 |-> IF k = 1 THEN Bit(b, 64) ELSE Xor1(Bit(b, k - 1), Bit(b, 64))]
      gs == [g \in 0..9 |-> Group(z, g)]
      top == CHOOSE g \in 0..9 : (g = 0 \/ gs[g] # 0) /\ \A h \in 0..9 : h > g => gs[h] = 0
  IN [k \in 1..(top + 1) |-> gs[k - 1] + (IF k <= top THEN 128 ELSE 0)]
Of(n) == <<n % 256, n \div 256, 0, 0, 0, 0, 0, 0>>       \* small lengths
VarintN(n) == Varint(Of(n))

Fail == <<FALSE, <<>>, 0>>
RECURSIVE VarLen(_, _, _)
VarLen(d, p, j) == IF j > 9 \/ p + j > Len(d) THEN 0 ELSE IF d[p + j] < 128 THEN j + 1 ELSE VarLen(d, p, j + 1)
\* <<ok, 8 bytes, next position>>; third component 0: end of data, 1: too long
ReadVar(d, p) ==
  LET n == VarLen(d, p, 0) IN
  IF n = 0 THEN <<FALSE, <<>>, IF Len(d) - p + 1 > 9 THEN 1 ELSE 0>>
  ELSE LET zb(k) == IF ((k - 1) \div 7) + 1 > n THEN 0 ELSE (d[p + ((k - 1) \div 7)] \div Pow2[((k - 1) % 7) + 1]) % 2
           z == [k \in 1..64 |-> zb(k)]
       IN <<TRUE, FromBits([k \in 1..64 |-> IF k = 64 THEN z[1] ELSE Xor1(z[k + 1], z[1])]), p + n>>
IsNeg(b) == b[8] >= 128
FitsInt(b) == IF b[4] >= 128 THEN \A k \in 5..8 : b[k] = 255 ELSE \A k \in 5..8 : b[k] = 0
Small(b) == \A k \in 4..8 : b[k] = 0          \* below 2^24
Val(b) == b[1] + 256 * b[2] + 65536 * b[3]
\* magnitude of a small negative number, or -1
NegVal(b) == IF \A k \in 4..8 : b[k] = 255 THEN 16777216 - Val(b) ELSE -1

----
(* which values a schema admits, and what reading back yields *)
RECURSIVE Fits(_, _, _)
Fits(D, s0, v) ==
  LET s == Named(D, s0) IN
  CASE s[1] = "long" -> v[1] \in {"int", "long"}
    [] s[1] = "fixed" -> (v[1] \in {"fixed", "bytes"}) /\ Len(v[2]) = s[3]
    [] s[1] = "enum" -> IF v[1] = "enum" THEN v[2] < Len(s[3]) /\ s[3][v[2] + 1] = v[3]
                        ELSE v[1] = "string" /\ Len(v) = 3 /\ \E k \in DOMAIN s[3] : s[3][k] = v[3]
    [] s[1] = "array" -> v[1] = "array" /\ \A k \in DOMAIN v[2] : Fits(D, s[2], v[2][k])
    [] s[1] = "map" -> v[1] = "map" /\ \A k \in DOMAIN v[2] : Fits(D, s[2], v[2][k][2])
    [] s[1] = "union" -> v[1] = "union" /\ v[2] < Len(s[2]) /\ Fits(D, s[2][v[2] + 1], v[3])
    [] s[1] = "record" -> v[1] = "record" /\ Len(v[2]) = Len(s[3]) /\ \A k \in DOMAIN v[2] :
                            \E j \in DOMAIN s[3] : s[3][j][1] = v[2][k][1] /\ Fits(D, s[3][j][2], v[2][k][2])
    [] OTHER -> v[1] = s[1]
RECURSIVE Back(_, _, _)
Back(D, s0, v) ==
  LET s == Named(D, s0) IN
  CASE s[1] = "long" -> <<"long", v[2]>>
    [] s[1] = "fixed" -> <<"fixed", v[2]>>
    [] s[1] = "enum" -> IF v[1] = "enum" THEN v ELSE LET k == CHOOSE k \in DOMAIN s[3] : s[3][k] = v[3] IN <<"enum", k - 1, v[3]>>
    [] s[1] = "array" -> <<"array", [k \in DOMAIN v[2] |-> Back(D, s[2], v[2][k])]>>
    [] s[1] = "map" -> <<"map", [k \in DOMAIN v[2] |-> <<v[2][k][1], Back(D, s[2], v[2][k][2])>>]>>
    [] s[1] = "union" -> <<"union", v[2], Back(D, s[2][v[2] + 1], v[3])>>
    [] s[1] = "record" -> <<"record", [j \in DOMAIN s[3] |-> <<s[3][j][1],
            LET k == CHOOSE k \in DOMAIN v[2] : v[2][k][1] = s[3][j][1] IN Back(D, s[3][j][2], v[2][k][2])>>]>>
    [] OTHER -> v

(* writing *)
RECURSIVE Enc(_, _, _), EncAll(_, _, _, _)
EncAll(D, s, vs, k) == IF k > Len(vs) THEN <<>> ELSE Enc(D, s, vs[k]) \o EncAll(D, s, vs, k + 1)
RECURSIVE EncMap(_, _, _, _), EncRec(_, _, _, _)
EncMap(D, s, es, k) == IF k > Len(es) THEN <<>> ELSE VarintN(Len(es[k][1])) \o es[k][1] \o Enc(D, s, es[k][2]) \o EncMap(D, s, es, k + 1)
EncRec(D, fs, vs, k) == IF k > Len(fs) THEN <<>> ELSE Enc(D, fs[k][2], vs[k][2]) \o EncRec(D, fs, vs, k + 1)
\* v already in the form it is read back
Enc(D, s0, v) ==
  LET s == Named(D, s0) IN
  CASE s[1] = "null" -> <<>>
    [] s[1] = "boolean" -> <<v[2]>>
    [] s[1] \in {"int", "long"} -> Varint(v[2])
    [] s[1] \in {"float", "double", "fixed"} -> v[2]
    [] s[1] \in {"bytes", "string"} -> VarintN(Len(v[2])) \o v[2]
    [] s[1] = "enum" -> VarintN(v[2])
    [] s[1] = "array" -> (IF v[2] = <<>> THEN <<>> ELSE VarintN(Len(v[2])) \o EncAll(D, s[2], v[2], 1)) \o <<0>>
    [] s[1] = "map" -> (IF v[2] = <<>> THEN <<>> ELSE VarintN(Len(v[2])) \o EncMap(D, s[2], v[2], 1)) \o <<0>>
    [] s[1] = "union" -> VarintN(v[2]) \o Enc(D, s[2][v[2] + 1], v[3])
    [] s[1] = "record" -> EncRec(D, s[3], v[2], 1)

----
(* reading; strict: as the property demands, otherwise with the known deviations of the library *)
Cont(b, k) == k <= Len(b) /\ b[k] >= 128 /\ b[k] < 192
RECURSIVE IsUtf8(_, _)
IsUtf8(b, k) ==
  IF k > Len(b) THEN TRUE
  ELSE LET x == b[k] IN
    IF x < 128 THEN IsUtf8(b, k + 1)
    ELSE IF x >= 194 /\ x < 224 THEN Cont(b, k + 1) /\ IsUtf8(b, k + 2)
    ELSE IF x >= 224 /\ x < 240 THEN Cont(b, k + 1) /\ Cont(b, k + 2) /\ (x = 224 => b[k + 1] >= 160) /\ (x = 237 => b[k + 1] < 160) /\ IsUtf8(b, k + 3)
    ELSE IF x >= 240 /\ x < 245 THEN Cont(b, k + 1) /\ Cont(b, k + 2) /\ Cont(b, k + 3) /\ (x = 240 => b[k + 1] >= 144) /\ (x = 244 => b[k + 1] < 144) /\ IsUtf8(b, k + 4)
    ELSE FALSE
Panic == <<FALSE, <<"panic">>, 0>>
Take(d, p, n) == IF p + n - 1 > Len(d) THEN Fail ELSE <<TRUE, SubSeq(d, p, p + n - 1), p + n>>
RECURSIVE Dec(_, _, _, _, _), DecN(_, _, _, _, _, _, _), DecBlocks(_, _, _, _, _, _), DecFields(_, _, _, _, _, _, _)
DecStr(st, d, p) ==
  LET r == ReadVar(d, p) IN
  IF ~r[1] \/ IsNeg(r[2]) THEN Fail
  ELSE IF ~Small(r[2]) THEN Fail
  ELSE LET t == Take(d, r[3], Val(r[2])) IN
       IF ~t[1] THEN (IF st THEN Fail ELSE <<TRUE, <<"null", 0>>, r[3]>>)
       ELSE IF IsUtf8(t[2], 1) THEN <<TRUE, <<"string", t[2]>>, t[3]>> ELSE Fail
\* n more items of a block; map: items are key/value pairs
DecN(st, D, s, d, p, n, acc) ==
  IF n = 0 THEN <<TRUE, acc, p>>
  ELSE IF s[1] = "map" THEN
    LET k == DecStr(st, d, p) IN
    IF ~k[1] \/ k[2][1] # "string" THEN Fail
    ELSE LET x == Dec(st, D, s[2], d, k[3]) IN
         IF ~x[1] THEN x ELSE DecN(st, D, s, d, x[3], n - 1, Append(acc, <<k[2][2], x[2]>>))
  ELSE LET x == Dec(st, D, s[2], d, p) IN
       IF ~x[1] THEN x ELSE DecN(st, D, s, d, x[3], n - 1, Append(acc, x[2]))
DecBlocks(st, D, s, d, p, acc) ==
  LET r == ReadVar(d, p) IN
  IF ~r[1] THEN Fail
  ELSE IF IsNeg(r[2])
    THEN LET q == ReadVar(d, r[3]) n == NegVal(r[2]) IN
         IF ~q[1] \/ n < 0 THEN Fail
         ELSE LET x == DecN(st, D, s, d, q[3], n, acc) IN IF ~x[1] THEN x ELSE DecBlocks(st, D, s, d, x[3], x[2])
  ELSE IF ~Small(r[2]) THEN Fail
  ELSE IF Val(r[2]) = 0 THEN <<TRUE, acc, r[3]>>
  ELSE LET x == DecN(st, D, s, d, r[3], Val(r[2]), acc) IN IF ~x[1] THEN x ELSE DecBlocks(st, D, s, d, x[3], x[2])
DecFields(st, D, fs, k, d, p, acc) ==
  IF k > Len(fs) THEN <<TRUE, <<"record", acc>>, p>>
  ELSE LET x == Dec(st, D, fs[k][2], d, p) IN IF ~x[1] THEN x ELSE DecFields(st, D, fs, k + 1, d, x[3], Append(acc, <<fs[k][1], x[2]>>))
Dec(st, D, s0, d, p) ==
  LET s == Named(D, s0) IN
  CASE s[1] = "null" -> <<TRUE, <<"null", 0>>, p>>
    [] s[1] = "boolean" -> IF p > Len(d) THEN (IF st THEN Fail ELSE <<TRUE, <<"null", 0>>, p>>)
                           ELSE IF d[p] > 1 THEN Fail ELSE <<TRUE, <<"boolean", d[p]>>, p + 1>>
    [] s[1] = "int" -> LET r == ReadVar(d, p) IN IF r[1] /\ FitsInt(r[2]) THEN <<TRUE, <<"int", r[2]>>, r[3]>> ELSE Fail
    [] s[1] = "long" -> LET r == ReadVar(d, p) IN IF r[1] THEN <<TRUE, <<"long", r[2]>>, r[3]>> ELSE Fail
    [] s[1] = "float" -> LET t == Take(d, p, 4) IN IF t[1] THEN <<TRUE, <<"float", t[2]>>, t[3]>> ELSE Fail
    [] s[1] = "double" -> LET t == Take(d, p, 8) IN IF t[1] THEN <<TRUE, <<"double", t[2]>>, t[3]>> ELSE Fail
    [] s[1] = "fixed" -> LET t == Take(d, p, s[3]) IN IF t[1] THEN <<TRUE, <<"fixed", t[2]>>, t[3]>> ELSE Fail
    [] s[1] = "bytes" -> LET r == ReadVar(d, p) IN
                         IF ~r[1] \/ IsNeg(r[2]) \/ ~Small(r[2]) THEN Fail
                         ELSE LET t == Take(d, r[3], Val(r[2])) IN IF t[1] THEN <<TRUE, <<"bytes", t[2]>>, t[3]>> ELSE Fail
    [] s[1] = "string" -> DecStr(st, d, p)
    [] s[1] = "enum" -> LET r == ReadVar(d, p) IN
                        IF ~r[1] \/ IsNeg(r[2]) \/ ~Small(r[2]) THEN Fail
                        ELSE LET n == Val(r[2]) IN
                             IF n < Len(s[3]) THEN <<TRUE, <<"enum", n, s[3][n + 1]>>, r[3]>>
                             ELSE IF n = Len(s[3]) /\ ~st THEN Panic ELSE Fail
    [] s[1] = "array" -> LET x == DecBlocks(st, D, s, d, p, <<>>) IN IF x[1] THEN <<TRUE, <<"array", x[2]>>, x[3]>> ELSE x
    [] s[1] = "map" -> LET x == DecBlocks(st, D, s, d, p, <<>>) IN IF x[1] THEN <<TRUE, <<"map", x[2]>>, x[3]>> ELSE x
    [] s[1] = "union" -> LET r == ReadVar(d, p) IN
                         IF ~r[1] THEN (IF st \/ r[3] = 1 THEN Fail ELSE <<TRUE, <<"union", 0, <<"null", 0>>>>, Len(d) + 1>>)
                         ELSE IF IsNeg(r[2]) \/ ~Small(r[2]) \/ Val(r[2]) >= Len(s[2]) THEN Fail
                         ELSE LET x == Dec(st, D, s[2][Val(r[2]) + 1], d, r[3]) IN
                              IF x[1] THEN <<TRUE, <<"union", Val(r[2]), x[2]>>, x[3]>> ELSE x
    [] s[1] = "record" -> DecFields(st, D, s[3], 1, d, p, <<>>)

\* equality of values; maps are functions (the last binding of a key counts)
Keys(m) == {m[k][1] : k \in DOMAIN m}
At(m, key) == m[CHOOSE k \in DOMAIN m : m[k][1] = key /\ \A j \in DOMAIN m : j > k => m[j][1] # key][2]
RECURSIVE Same(_, _)
Same(v, w) ==
  IF v[1] # w[1] THEN FALSE
  ELSE CASE v[1] = "array" -> Len(v[2]) = Len(w[2]) /\ \A k \in DOMAIN v[2] : Same(v[2][k], w[2][k])
         [] v[1] = "map" -> Keys(v[2]) = Keys(w[2]) /\ \A k \in Keys(v[2]) : Same(At(v[2], k), At(w[2], k))
         [] v[1] = "union" -> v[2] = w[2] /\ Same(v[3], w[3])
         [] v[1] = "record" -> Len(v[2]) = Len(w[2]) /\ \A k \in DOMAIN v[2] : v[2][k][1] = w[2][k][1] /\ Same(v[2][k][2], w[2][k][2])
         [] OTHER -> v = w

----
(* the helper functions *)
\* values offered by name; absent fields are null, names the schema does not know are dropped
Completed(s, m) == <<"record", [j \in DOMAIN s[3] |-> <<s[3][j][1],
     IF \E k \in DOMAIN m : m[k][1] = s[3][j][1] THEN m[CHOOSE k \in DOMAIN m : m[k][1] = s[3][j][1]][2] ELSE <<"null", 0>>>>]>>
=============================================================================
