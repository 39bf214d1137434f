----------------------------- MODULE SchemaData -----------------------------
(* What a schema definition and a schema name are: models as byte sequences, names as byte sequences. *)
EXTENDS JsonText
(* ---- models ---- *)
\* An Avro model is any JSON object.
AvroOk(d) == LET v == Text(d) IN v[1] /\ v[3][1] = "o"
\* A Parquet model is a list of columns.
N_name == <<110,97,109,101>>
N_column_type == <<99,111,108,117,109,110,95,116,121,112,101>>
N_compression == <<99,111,109,112,114,101,115,115,105,111,110>>
N_bloom_filter == <<98,108,111,111,109,95,102,105,108,116,101,114>>
N_bit_width == <<98,105,116,95,119,105,100,116,104>>
N_sign == <<115,105,103,110>>
N_scale == <<115,99,97,108,101>>
N_precision == <<112,114,101,99,105,115,105,111,110>>
N_adj == <<105,115,95,97,100,106,117,115,116,101,100,95,116,111,95,117,116,99>>
N_unit == <<117,110,105,116>>
N_INTEGER == <<73,78,84,69,71,69,82>>
N_DECIMAL == <<68,69,67,73,77,65,76>>
N_TIME == <<84,73,77,69>>
N_TIMESTAMP == <<84,73,77,69,83,84,65,77,80>>
Units == {<<77,73,76,76,73,83>>, <<77,73,67,82,79,83>>, <<78,65,78,79,83>>}                       \* MILLIS MICROS NANOS
Codecs == {<<85,78,67,79,77,80,82,69,83,83,69,68>>, <<83,78,65,80,80,89>>, <<71,90,73,80>>, <<76,90,79>>,
           <<66,82,79,84,76,73>>, <<90,95,83,95,84,95,68>>, <<76,90,52,95,82,65,87>>}                    \* UNCOMPRESSED SNAPPY GZIP LZO BROTLI Z_S_T_D LZ4_RAW
Bases == {<<66,79,79,76,69,65,78>>, <<73,78,84,51,50>>, <<73,78,84,54,52>>, <<70,76,79,65,84>>, <<68,79,85,66,76,69>>,
          <<66,89,84,69,95,65,82,82,65,89>>, <<70,73,88,69,68,95,76,69,78,95,66,89,84,69,95,65,82,82,65,89>>, \* BOOLEAN INT32 INT64 FLOAT DOUBLE BYTE_ARRAY FIXED_LEN_BYTE_ARRAY
          <<83,84,82,73,78,71>>, <<85,85,73,68>>, <<68,65,84,69>>, <<73,78,84,69,82,86,65,76>>}            \* STRING UUID DATE INTERVAL
IsStr(v) == v[1] = "s"
IsBool(v) == v[1] = "b"
IsU8(v) == v[1] = "n" /\ v[2] >= 0 /\ v[2] <= 255
\* a choice without content: its name, or {name: null}
Plain(v, S) == \/ v[1] = "s" /\ v[2] \in S
               \/ v[1] = "o" /\ Len(v[2]) = 1 /\ v[2][1][1] \in S /\ v[2][1][2] = <<"z">>
IsUnit(v) == Plain(v, Units)
IsCodec(v) == Plain(v, Codecs)
\* every named part exactly once (further members are allowed), or the parts in order as a list
Part(v, n) == v[2][CHOOSE k \in DOMAIN v[2] : v[2][k][1] = n][2]
Once(v, ns) == \A n \in ns : Cardinality({k \in DOMAIN v[2] : v[2][k][1] = n}) = 1
Integer0(v) == \/ v[1] = "o" /\ Once(v, {N_bit_width, N_sign}) /\ IsU8(Part(v, N_bit_width)) /\ IsBool(Part(v, N_sign))
               \/ v[1] = "a" /\ Len(v[2]) = 2 /\ IsU8(v[2][1]) /\ IsBool(v[2][2])
Decimal0(v) == \/ v[1] = "o" /\ Once(v, {N_scale, N_precision}) /\ IsU8(Part(v, N_scale)) /\ IsU8(Part(v, N_precision))
               \/ v[1] = "a" /\ Len(v[2]) = 2 /\ IsU8(v[2][1]) /\ IsU8(v[2][2])
Time0(v) == \/ v[1] = "o" /\ Once(v, {N_adj, N_unit}) /\ IsBool(Part(v, N_adj)) /\ IsUnit(Part(v, N_unit))
            \/ v[1] = "a" /\ Len(v[2]) = 2 /\ IsBool(v[2][1]) /\ IsUnit(v[2][2])
IsType(v) == \/ Plain(v, Bases)
             \/ v[1] = "o" /\ Len(v[2]) = 1 /\ LET n == v[2][1][1]  c == v[2][1][2] IN
                  \/ n = N_INTEGER /\ Integer0(c)
                  \/ n = N_DECIMAL /\ Decimal0(c)
                  \/ n \in {N_TIME, N_TIMESTAMP} /\ Time0(c)
Column(v) == \/ v[1] = "o" /\ Once(v, {N_name, N_column_type, N_compression, N_bloom_filter})
                  /\ IsStr(Part(v, N_name)) /\ IsType(Part(v, N_column_type)) /\ IsCodec(Part(v, N_compression)) /\ IsBool(Part(v, N_bloom_filter))
             \/ v[1] = "a" /\ Len(v[2]) = 4 /\ IsStr(v[2][1]) /\ IsType(v[2][2]) /\ IsCodec(v[2][3]) /\ IsBool(v[2][4])
ParquetOk(d) == LET v == Text(d) IN v[1] /\ v[3][1] = "a" /\ \A k \in DOMAIN v[3][2] : Column(v[3][2][k])
ModelOk(type, d) == IF type = "avro" THEN AvroOk(d) ELSE ParquetOk(d)
(* ---- names: namespace.descriptor ---- *)
Upper(c) == c >= 65 /\ c <= 90
Lower(c) == IF Upper(c) THEN c + 32 ELSE c
Space(c) == c = 32 \/ (c >= 9 /\ c <= 13)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Space(Head(s)) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Dots(s) == {k \in DOMAIN s : s[k] = 46}
PartOk(s, lo, hi) == Len(s) >= lo /\ Len(s) <= hi /\ s[1] # 45 /\ s[Len(s)] # 45
BadName == <<FALSE, <<>>, <<>>>>
\* <<ok, namespace, descriptor>>; a query may leave out the descriptor
Name(s0, strict) ==
  IF Len(s0) > 32 \/ \E k \in DOMAIN s0 : s0[k] > 127 THEN BadName
  ELSE LET s == TrimR(TrimL([k \in DOMAIN s0 |-> Lower(s0[k])])) IN
  IF \E k \in DOMAIN s : ~(s[k] >= 97 /\ s[k] <= 122) /\ s[k] # 45 /\ s[k] # 46 THEN BadName
  ELSE IF Dots(s) = {} THEN (IF strict \/ ~PartOk(s, 3, 30) THEN BadName ELSE <<TRUE, s, <<>>>>)
  ELSE IF Cardinality(Dots(s)) > 1 THEN BadName
  ELSE LET p == CHOOSE k \in Dots(s) : TRUE  ns == SubSeq(s, 1, p - 1)  ds == SubSeq(s, p + 1, Len(s)) IN
       IF PartOk(ns, 3, 30) /\ PartOk(ds, 1, 28) THEN <<TRUE, ns, ds>> ELSE BadName
=============================================================================
