----------------------------- MODULE HandleData -----------------------------
(* Data-level semantics of handles: canonical form (H01), suffix order (H02),*)
(* well-formedness (H05), display-name syntax. Strings are sequences of code *)
(* points; the tables were produced once by tools/mk_handle_tables.py.       *)
EXTENDS Suffix, Json, IOUtils

Tab == JsonDeserialize(IOEnv.HDTAB)
WS == {Tab.ws[k] : k \in DOMAIN Tab.ws}
Blocked == {Tab.blocked[k] : k \in DOMAIN Tab.blocked}
Reserved == {Tab.reserved[k] : k \in DOMAIN Tab.reserved}

----
(* canonical form *)
Decomp(c) == IF c >= 196608 \/ Tab.dec[c + 1] = <<>> THEN <<c>> ELSE IF Tab.dec[c + 1] = <<-1>> THEN <<>> ELSE Tab.dec[c + 1]
Conf(c) == IF c >= 196608 \/ Tab.conf[c + 1] = 0 THEN c ELSE Tab.conf[c + 1]
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
CanonChar(c) == IF c \in WS THEN <<>> ELSE LET d == Decomp(c) IN [k \in DOMAIN d |-> Lower(Conf(d[k]))]
RECURSIVE CanonFrom(_, _)
CanonFrom(s, k) == IF k > Len(s) THEN <<>> ELSE CanonChar(s[k]) \o CanonFrom(s, k + 1)
Canon(s) == CanonFrom(s, 1)

----
(* UTF-8 *)
Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8From(_, _)
Utf8From(s, k) == IF k > Len(s) THEN <<>> ELSE Utf8Char(s[k]) \o Utf8From(s, k + 1)
Utf8(s) == Utf8From(s, 1)

\* decoding: the code points, or <<-1>> if the bytes are no UTF-8 text
Cont(b, k) == k <= Len(b) /\ b[k] >= 128 /\ b[k] < 192
RECURSIVE Utf8Dec(_, _, _)
Utf8Dec(b, k, acc) ==
  IF k > Len(b) THEN acc
  ELSE LET x == b[k] IN
    IF x < 128 THEN Utf8Dec(b, k + 1, Append(acc, x))
    ELSE IF x >= 194 /\ x < 224 /\ Cont(b, k + 1) THEN Utf8Dec(b, k + 2, Append(acc, (x - 192) * 64 + b[k + 1] - 128))
    ELSE IF x >= 224 /\ x < 240 /\ Cont(b, k + 1) /\ Cont(b, k + 2)
      THEN LET c == (x - 224) * 4096 + (b[k + 1] - 128) * 64 + b[k + 2] - 128
           IN IF c < 2048 \/ (c >= 55296 /\ c < 57344) THEN <<-1>> ELSE Utf8Dec(b, k + 3, Append(acc, c))
    ELSE IF x >= 240 /\ x < 245 /\ Cont(b, k + 1) /\ Cont(b, k + 2) /\ Cont(b, k + 3)
      THEN LET c == (x - 240) * 262144 + (b[k + 1] - 128) * 4096 + (b[k + 2] - 128) * 64 + b[k + 3] - 128
           IN IF c < 65536 \/ c > 1114111 THEN <<-1>> ELSE Utf8Dec(b, k + 4, Append(acc, c))
    ELSE <<-1>>

----
(* well-formedness *)
InRanges(c) == \E k \in DOMAIN Tab.ranges : Tab.ranges[k][1] <= c /\ c <= Tab.ranges[k][2]
Supported(s) == \A k \in DOMAIN s : InRanges(s[k])
HasBlocked(s) == \E k \in DOMAIN s : s[k] \in Blocked
IsReserved(s) == s \in Reserved
LenOk(s) == Len(s) >= 3 /\ Len(s) <= 20
WellFormed(s) ==
  /\ Len(Utf8(s)) <= 32 /\ LenOk(s)
  /\ ~IsReserved(s) /\ ~HasBlocked(s)
  /\ LET c == Canon(s) IN Supported(c) /\ LenOk(c) /\ Len(Utf8(c)) <= 32

\* verdict on the bytes offered as base handle
Claimable(b) == Len(b) <= 32 /\ LET s == Utf8Dec(b, 1, <<>>) IN s # <<-1>> /\ WellFormed(s)

\* Known finding H05-astral: characters above U+FFFF are judged by their low sixteen bits.
SupportedTrunc(s) == \A k \in DOMAIN s : InRanges(s[k] % 65536)

WellFormedTrunc(s) ==
  /\ Len(Utf8(s)) <= 32 /\ LenOk(s)
  /\ ~IsReserved(s) /\ ~HasBlocked(s)
  /\ LET c == Canon(s) IN SupportedTrunc(c) /\ LenOk(c) /\ Len(Utf8(c)) <= 32
ClaimableTrunc(b) == Len(b) <= 32 /\ LET s == Utf8Dec(b, 1, <<>>) IN s # <<-1>> /\ WellFormedTrunc(s)

----
(* display names: base '.' decimal suffix that fits sixteen bits *)
Dots(s) == {k \in DOMAIN s : s[k] = 46}
RECURSIVE DecVal(_, _, _)
DecVal(d, k, acc) == IF k > Len(d) THEN acc ELSE IF acc > 100000 THEN acc ELSE DecVal(d, k + 1, acc * 10 + d[k] - 48)
SplitName(s) ==
  IF Cardinality(Dots(s)) # 1 THEN [some |-> FALSE, base |-> <<>>, suffix |-> 0]
  ELSE LET p == CHOOSE k \in Dots(s) : TRUE
           raw == SubSeq(s, p + 1, Len(s))
           d == IF raw # <<>> /\ raw[1] = 43 THEN Tail(raw) ELSE raw   \* a leading '+' is accepted
       IN IF d = <<>> \/ (\E k \in DOMAIN d : d[k] \notin 48..57) \/ DecVal(d, 1, 0) > 65535
          THEN [some |-> FALSE, base |-> <<>>, suffix |-> 0]
          ELSE [some |-> TRUE, base |-> SubSeq(s, 1, p - 1), suffix |-> DecVal(d, 1, 0)]
=============================================================================
