------------------------------ MODULE WireEval ------------------------------
(* U01: one value per line (op "value": its type and fields), with what the code made of it in `out`.
   A number comes as <<"123", its bytes, lowest first>>, a text as <<"abc", its bytes>>, bytes as bytes, an enumeration's
   value as <<position, "Name">>, what may be absent as <<>> or <<it>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, Functions
R == ndJsonDeserialize(IOEnv.IN)
F(n, k) == <<n, k, "">>
Opt(n, k) == <<n, "opt", k>>
OptNull(n, k) == <<n, "null", k>>        \* absent shows as null
Vec(n, k) == <<n, "vec", k>>
Page == <<F("page_id", "u16"), F("msa_id", "u64"), F("schema_id", "u16"), F("content_hash", "u32"), F("nonce", "u16"), F("payload", "hex")>>
Msg == <<F("provider_msa_id", "u64"), F("index", "u16"), F("block_number", "u32"), Opt("msa_id", "u64"), Opt("payload", "hex"), Opt("cid", "text"), Opt("payload_length", "u32")>>
About == <<F("schema_id", "u16")>>
How == <<F("model_type", "enum"), F("payload_location", "enum"), Vec("settings", "enum")>>
UpTo == <<F("schema_id", "compact"), F("target_hash", "compact"), F("expiration", "u32")>>
OnPage == <<F("schema_id", "compact"), F("page_id", "compact"), F("target_hash", "compact"), F("expiration", "u32")>>
Mine == <<F("msa_id", "compact")>>
Do == <<Vec("actions", "action")>>
Ty == [DelegatorId |-> <<F("id", "u64")>>, ProviderId |-> <<F("id", "u64")>>,
  SchemaGrant |-> <<F("schema_id", "u16"), F("revoked_at", "u32")>>,
  DelegationResponse |-> <<F("provider_id", "u64"), Vec("permissions", "SchemaGrant")>>,
  KeyInfoResponse |-> <<F("msa_id", "u64"), Vec("msa_keys", "text")>>,
  MessageResponse |-> Msg,
  BlockPaginationRequest |-> <<F("from_block", "u32"), F("from_index", "u32"), F("to_block", "u32"), F("page_size", "u32")>>,
  BlockPaginationResponse |-> <<Vec("content", "MessageResponse"), F("has_next", "bool"), Opt("next_block", "u32"), Opt("next_index", "u32")>>,
  HandleResponse |-> <<F("base_handle", "text"), F("canonical_base", "text"), F("suffix", "u16")>>,
  PresumptiveSuffixesResponse |-> <<F("base_handle", "text"), Vec("suffixes", "u16")>>,
  PaginatedStorageResponse |-> Page,
  ItemizedStorageResponse |-> <<F("index", "u16"), F("payload", "hex")>>,
  ItemizedStoragePageResponse |-> <<F("msa_id", "u64"), F("schema_id", "u16"), F("content_hash", "u32"), F("nonce", "u16"), Vec("items", "ItemizedStorageResponse")>>,
  SchemaResponse |-> About \o <<F("model", "text")>> \o How, SchemaInfoResponse |-> About \o How,
  SchemaVersionResponse |-> <<F("schema_name", "text"), F("schema_version", "u8"), F("schema_id", "u16")>>,
  RpcEvent |-> <<OptNull("phase", "u32"), F("pallet", "u8"), F("event", "u8"), F("data", "hex")>>,
  AddKeyData |-> <<F("msa_id", "u64"), F("expiration", "u32"), F("new_public_key", "raw32")>>,
  AddProvider |-> <<F("authorized_msa_id", "u64"), Vec("schema_ids", "u16"), F("expiration", "u32")>>,
  ClaimHandlePayload |-> <<F("base_handle", "hex"), F("expiration", "u32")>>,
  ItemizedSignaturePayload |-> Mine \o UpTo \o Do, ItemizedSignaturePayloadV2 |-> UpTo \o Do,
  PaginatedUpsertSignaturePayload |-> Mine \o OnPage \o <<F("payload", "hex")>>,
  PaginatedUpsertSignaturePayloadV2 |-> OnPage \o <<F("payload", "hex")>>,
  PaginatedDeleteSignaturePayload |-> Mine \o OnPage, PaginatedDeleteSignaturePayloadV2 |-> OnPage]
Wide == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8]
Newtype == {"DelegatorId", "ProviderId"}  \* shown as the number itself

(* ---- bytes ---- *)
\* the shortest form of a number given by its bytes
Trim(b) == LET S == {j \in DOMAIN b : b[j] # 0} IN IF S = {} THEN <<>> ELSE SubSeq(b, 1, CHOOSE j \in S : \A k \in S : k <= j)
Small(b) == IF Len(b) = 0 THEN 0 ELSE IF Len(b) = 1 THEN b[1] ELSE IF Len(b) = 2 THEN b[1] + 256 * b[2] ELSE b[1] + 256 * b[2] + 65536 * b[3]
Compact(bytes) ==
  LET b == Trim(bytes) IN
  IF Len(b) <= 1 /\ Small(b) < 64 THEN <<4 * Small(b)>>
  ELSE IF Len(b) <= 2 /\ Small(b) < 16384 THEN LET v == 4 * Small(b) + 1 IN <<v % 256, v \div 256>>
  ELSE IF Len(b) <= 3 \/ (Len(b) = 4 /\ b[4] < 64)
       THEN LET top == IF Len(b) = 4 THEN b[4] ELSE 0
                v == 4 * Small(SubSeq(b, 1, IF Len(b) < 3 THEN Len(b) ELSE 3)) + 2 \* below 2^26
            IN <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) + 4 * top>>
  ELSE <<4 * (Len(b) - 4) + 3>> \o b
Count(n) == Compact(<<n % 256, n \div 256>>)
Cat(q) == FlattenSeq(q)
RECURSIVE Bytes(_, _), Rec(_, _)
Bytes(k, v) ==
  CASE k \in DOMAIN Wide -> v[2]
    [] k = "compact" -> Compact(v[2])
    [] k = "hex" -> Count(Len(v)) \o v
    [] k = "text" -> Count(Len(v[2])) \o v[2]
    [] k = "raw32" -> v
    [] k \in {"enum", "bool"} -> <<v[1]>>
    [] k = "action" -> <<v[1]>> \o (IF v[1] = 0 THEN Count(Len(v[2])) \o v[2] ELSE v[2][2])
    [] OTHER -> Rec(k, v)
Rec(ty, f) == Cat([j \in DOMAIN Ty[ty] |-> LET d == Ty[ty][j]  v == f[d[1]] IN
  CASE d[2] \in {"opt", "null"} -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Bytes(d[3], v[1])
    [] d[2] = "vec" -> Count(Len(v)) \o Cat([x \in DOMAIN v |-> Bytes(d[3], v[x])])
    [] OTHER -> Bytes(d[2], v)])
\* every number has the bytes its type says
Open == <<60, 66, 121, 116, 101, 115, 62>>
Close == <<60, 47, 66, 121, 116, 101, 115, 62>>
Wrap(b) == Open \o b \o Close

(* ---- JSON ---- *)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexOf(b) == FoldLeft(LAMBDA s, x : s \o Hex[(x \div 16) + 1] \o Hex[(x % 16) + 1], "0x", b)
RECURSIVE Js(_, _), JRec(_, _)
Js(k, v) ==
  CASE k \in DOMAIN Wide -> "#" \o v[1]
    [] k = "hex" -> HexOf(v)
    [] k = "text" -> v[1]
    [] k = "enum" -> v[2]
    [] k = "bool" -> v[1] = 1
    [] k \in Newtype -> "#" \o v.id[1]
    [] OTHER -> JRec(k, v)
JRec(ty, f) ==
  LET D == Ty[ty]
      shown == {j \in DOMAIN D : ~(D[j][2] = "opt" /\ f[D[j][1]] = <<>>)}
      one(j) == LET d == D[j]  v == f[d[1]] IN
        CASE d[2] = "opt" -> Js(d[3], v[1])
          [] d[2] = "null" -> IF v = <<>> THEN "null!" ELSE Js(d[3], v[1])
          [] d[2] = "vec" -> [x \in DOMAIN v |-> Js(d[3], v[x])]
          [] OTHER -> Js(d[2], v)
  IN [n \in {D[j][1] : j \in shown} |-> one(CHOOSE j \in shown : D[j][1] = n)]
Value(r) ==
  LET o == r.out  b == Rec(r.ty, r.f) IN
  IF "bytes" \notin DOMAIN o THEN "bad: panic"
  ELSE IF o.bytes # b THEN "bad: bytes"
  ELSE IF ~o.back THEN "bad: bytes do not read back"
  ELSE IF ~o.cut THEN "bad: part of the bytes reads as one"
  ELSE IF o.wrapped # Wrap(b) THEN "bad: wrapping"
  ELSE IF "json" \notin DOMAIN o THEN "ok"
  ELSE IF o.json # Js(r.ty, r.f) THEN "bad: json"
  ELSE IF ~o.jback THEN "bad: json does not read back"
  ELSE "ok"
Verdict(r) ==
  IF "panic" \in DOMAIN r.out THEN "bad: panic"
  ELSE IF r.op = "text" THEN (IF r.out = [ok |-> r.utf8, opt |-> r.utf8] THEN "ok" ELSE "bad: text")
  ELSE Value(r)
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
