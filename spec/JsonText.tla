------------------------------ MODULE JsonText ------------------------------
(* JSON texts as sequences of byte codes (RFC 8259, UTF-8), read into tagged trees:
   <<"o", <<<<key, value>>, ...>>>>, <<"a", <<value, ...>>>>, <<"s", codes>>, <<"n", k>>, <<"b", TRUE>>, <<"z">>
   where k is the value of a plain natural number below 10^6 and -1 for every other number. Every reader returns
   <<ok, next position, value>>. Nesting deeper than 127 is refused. *)
EXTENDS Integers, Sequences, FiniteSets
No == <<FALSE, 0, <<"z">>>>
Blank == {32, 9, 10, 13}
RECURSIVE Skip(_, _)
Skip(d, p) == IF p <= Len(d) /\ d[p] \in Blank THEN Skip(d, p + 1) ELSE p
At0(d, p) == IF p <= Len(d) THEN d[p] ELSE -1
Digit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(d, p) == IF p + 3 > Len(d) \/ \E k \in 0..3 : HexVal(d[p + k]) < 0 THEN -1
              ELSE 4096 * HexVal(d[p]) + 256 * HexVal(d[p+1]) + 16 * HexVal(d[p+2]) + HexVal(d[p+3])
Trail(d, p, lo, hi) == p <= Len(d) /\ d[p] >= lo /\ d[p] <= hi
\* length of the well-formed UTF-8 sequence at p, 0 if there is none
Utf8Len(d, p) ==
  LET c == d[p] IN
  CASE c < 128 -> 1
    [] c >= 194 /\ c <= 223 -> IF Trail(d, p+1, 128, 191) THEN 2 ELSE 0
    [] c >= 224 /\ c <= 239 -> IF Trail(d, p+1, IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191) /\ Trail(d, p+2, 128, 191) THEN 3 ELSE 0
    [] c >= 240 /\ c <= 244 -> IF Trail(d, p+1, IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191) /\ Trail(d, p+2, 128, 191) /\ Trail(d, p+3, 128, 191) THEN 4 ELSE 0
    [] OTHER -> 0
Simple == {34, 92, 47, 98, 102, 110, 114, 116}          \* " \ / b f n r t
SimpleVal(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
\* p is behind the opening quote; code points above ASCII are kept as one item (only equality with ASCII names matters)
RECURSIVE Str(_, _, _)
Str(d, p, acc) ==
  IF p > Len(d) THEN No
  ELSE LET c == d[p] IN
  CASE c = 34 -> <<TRUE, p + 1, <<"s", acc>>>>
    [] c < 32 -> No
    [] c = 92 -> (LET e == At0(d, p + 1) IN
         IF e \in Simple THEN Str(d, p + 2, Append(acc, SimpleVal(e)))
         ELSE IF e # 117 THEN No
         ELSE LET h == Hex4(d, p + 2) IN
              IF h < 0 THEN No
              ELSE IF h >= 55296 /\ h <= 56319 THEN
                   (IF At0(d, p + 6) = 92 /\ At0(d, p + 7) = 117 /\ Hex4(d, p + 8) >= 56320 /\ Hex4(d, p + 8) <= 57343
                      THEN Str(d, p + 12, Append(acc, 65536 + (h - 55296) * 1024 + Hex4(d, p + 8) - 56320)) ELSE No)
              ELSE IF h >= 56320 /\ h <= 57343 THEN No
              ELSE Str(d, p + 6, Append(acc, h)))
    [] OTHER -> LET n == Utf8Len(d, p) IN IF n = 0 THEN No ELSE Str(d, p + n, Append(acc, IF n = 1 THEN c ELSE 1000000 + c))
RECURSIVE Run(_, _)
Run(d, p) == IF p <= Len(d) /\ Digit(d[p]) THEN Run(d, p + 1) ELSE p
RECURSIVE Nat0(_, _, _, _)
Nat0(d, p, q, v) == IF p = q THEN v ELSE Nat0(d, p + 1, q, 10 * v + d[p] - 48)
Num(d, p0) ==
  LET neg == At0(d, p0) = 45
      p == IF neg THEN p0 + 1 ELSE p0
      q == IF At0(d, p) = 48 THEN p + 1 ELSE Run(d, p)
      frac == At0(d, q) = 46
      r == IF frac THEN Run(d, q + 1) ELSE q
      exp == At0(d, r) \in {69, 101}
      s == IF exp THEN (IF At0(d, r + 1) \in {43, 45} THEN r + 2 ELSE r + 1) ELSE r
      u == IF exp THEN Run(d, s) ELSE r
  IN IF q = p \/ (frac /\ r = q + 1) \/ (exp /\ u = s) THEN No
     ELSE <<TRUE, u, <<"n", IF neg \/ frac \/ exp \/ q - p > 6 THEN -1 ELSE Nat0(d, p, q, 0)>>>>
Word(d, p, w) == p + Len(w) - 1 <= Len(d) /\ \A k \in DOMAIN w : d[p + k - 1] = w[k]
TrueW == <<116, 114, 117, 101>>
FalseW == <<102, 97, 108, 115, 101>>
NullW == <<110, 117, 108, 108>>
RECURSIVE Val0(_, _, _), Elems(_, _, _, _), Members(_, _, _, _)
\* p is at the first byte of a value (blanks skipped)
Val0(d, p, depth) ==
  LET c == At0(d, p) IN
  CASE c = 34 -> Str(d, p + 1, <<>>)
    [] c = 45 \/ Digit(c) -> Num(d, p)
    [] c = 116 -> IF Word(d, p, TrueW) THEN <<TRUE, p + 4, <<"b", TRUE>>>> ELSE No
    [] c = 102 -> IF Word(d, p, FalseW) THEN <<TRUE, p + 5, <<"b", FALSE>>>> ELSE No
    [] c = 110 -> IF Word(d, p, NullW) THEN <<TRUE, p + 4, <<"z">>>> ELSE No
    [] c = 91 -> IF depth = 127 THEN No
                 ELSE LET q == Skip(d, p + 1) IN IF At0(d, q) = 93 THEN <<TRUE, q + 1, <<"a", <<>>>>>> ELSE Elems(d, q, depth + 1, <<>>)
    [] c = 123 -> IF depth = 127 THEN No
                  ELSE LET q == Skip(d, p + 1) IN IF At0(d, q) = 125 THEN <<TRUE, q + 1, <<"o", <<>>>>>> ELSE Members(d, q, depth + 1, <<>>)
    [] OTHER -> No
Elems(d, p, depth, acc) ==
  LET v == Val0(d, p, depth) IN
  IF ~v[1] THEN No
  ELSE LET q == Skip(d, v[2])  c == At0(d, q)  more == Append(acc, v[3]) IN
       IF c = 93 THEN <<TRUE, q + 1, <<"a", more>>>>
       ELSE IF c = 44 THEN Elems(d, Skip(d, q + 1), depth, more) ELSE No
Members(d, p, depth, acc) ==
  IF At0(d, p) # 34 THEN No
  ELSE LET k == Str(d, p + 1, <<>>) IN
  IF ~k[1] THEN No
  ELSE LET q == Skip(d, k[2]) IN
  IF At0(d, q) # 58 THEN No
  ELSE LET v == Val0(d, Skip(d, q + 1), depth) IN
  IF ~v[1] THEN No
  ELSE LET r == Skip(d, v[2])  c == At0(d, r)  more == Append(acc, <<k[3][2], v[3]>>) IN
       IF c = 125 THEN <<TRUE, r + 1, <<"o", more>>>>
       ELSE IF c = 44 THEN Members(d, Skip(d, r + 1), depth, more) ELSE No
\* a whole text
Text(d) == LET v == Val0(d, Skip(d, 1), 0) IN IF v[1] /\ Skip(d, v[2]) > Len(d) THEN v ELSE No
=============================================================================
