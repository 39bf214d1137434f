-------------------------------- MODULE Cid --------------------------------
(* Content identifiers: multibase text (as byte codes) -> bytes -> CID version 1, and the base-32 text they are served as. *)
EXTENDS Integers, Sequences, FiniteSets
Rng(lo, hi) == [k \in 1..(hi - lo + 1) |-> lo + k - 1]
Dig == Rng(48, 57)  Low == Rng(97, 122)  Upp == Rng(65, 90)
Sub(q, a, b) == SubSeq(q, a, b)
\* code -> [al: alphabet, bits: digits are groups of that many bits; 0: positional]
B58 == Sub(Dig, 2, 10) \o Sub(Upp, 1, 8) \o Sub(Upp, 10, 14) \o Sub(Upp, 16, 26) \o Sub(Low, 1, 11) \o Sub(Low, 13, 26)
Bases == [c \in {98, 66, 118, 86, 102, 70, 122, 107, 75, 109, 117, 48, 55, 57, 104} |->
  CASE c = 98 -> [al |-> Low \o Sub(Dig, 3, 8), bits |-> 5]                   \* b  base32
    [] c = 66 -> [al |-> Upp \o Sub(Dig, 3, 8), bits |-> 5]                   \* B
    [] c = 118 -> [al |-> Dig \o Sub(Low, 1, 22), bits |-> 5]                 \* v  base32hex
    [] c = 86 -> [al |-> Dig \o Sub(Upp, 1, 22), bits |-> 5]                  \* V
    [] c = 104 -> [al |-> <<121,98,110,100,114,102,103,56,101,106,107,109,99,112,113,120,111,116,49,117,119,105,115,122,97,51,52,53,104,55,54,57>>, bits |-> 5] \* h
    [] c = 102 -> [al |-> Dig \o Sub(Low, 1, 6), bits |-> 4]                  \* f  base16
    [] c = 70 -> [al |-> Dig \o Sub(Upp, 1, 6), bits |-> 4]                   \* F
    [] c = 109 -> [al |-> Upp \o Low \o Dig \o <<43, 47>>, bits |-> 6]        \* m  base64
    [] c = 117 -> [al |-> Upp \o Low \o Dig \o <<45, 95>>, bits |-> 6]        \* u  base64url
    [] c = 48 -> [al |-> <<48, 49>>, bits |-> 1]                              \* 0  base2
    [] c = 55 -> [al |-> Sub(Dig, 1, 8), bits |-> 3]                          \* 7  base8
    [] c = 57 -> [al |-> Dig, bits |-> 0]                                     \* 9  base10
    [] c = 107 -> [al |-> Dig \o Low, bits |-> 0]                             \* k  base36
    [] c = 75 -> [al |-> Dig \o Upp, bits |-> 0]                              \* K
    [] c = 122 -> [al |-> B58, bits |-> 0]]                                   \* z  base58btc
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256
            [] n = 9 -> 512 [] n = 10 -> 1024 [] n = 11 -> 2048 [] n = 12 -> 4096 [] n = 13 -> 8192 [] n = 14 -> 16384 [] OTHER -> 32768
Ix(al, c) == LET S == {k \in DOMAIN al : al[k] = c} IN IF S = {} THEN 0 - 1 ELSE (CHOOSE k \in S : TRUE) - 1
\* bit groups: acc holds n bits not yet emitted
RECURSIVE Bits(_, _, _, _, _, _)
Bits(t, k, b, acc, n, out) ==
  IF k > Len(t) THEN (IF n >= b.bits \/ acc # 0 THEN <<FALSE, <<>>>> ELSE <<TRUE, out>>)
  ELSE LET v == Ix(b.al, t[k]) IN
  IF v < 0 THEN <<FALSE, <<>>>>
  ELSE LET a == acc * Pow2(b.bits) + v  m == n + b.bits IN
       IF m >= 8 THEN Bits(t, k + 1, b, a % Pow2(m - 8), m - 8, Append(out, a \div Pow2(m - 8))) ELSE Bits(t, k + 1, b, a, m, out)
\* positional: little-endian bytes
RECURSIVE MulAdd(_, _, _, _)
MulAdd(g, k, base, carry) ==
  IF k > Len(g) THEN (IF carry = 0 THEN <<>> ELSE <<carry % 256>> \o MulAdd(g, k, base, carry \div 256))
  ELSE LET v == g[k] * base + carry IN <<v % 256>> \o MulAdd(g, k + 1, base, v \div 256)
RECURSIVE Pos(_, _, _, _)
Pos(t, k, al, g) == IF k > Len(t) THEN g ELSE Pos(t, k + 1, al, MulAdd(g, 1, Len(al), Ix(al, t[k])))
RECURSIVE Lead(_, _, _)
Lead(t, k, c) == IF k <= Len(t) /\ t[k] = c THEN 1 + Lead(t, k + 1, c) ELSE 0
Reverse0(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Zeros(n) == [k \in 1..n |-> 0]
\* <<ok, bytes>>
Decoded(d) ==
  IF d = <<>> \/ d[1] \notin DOMAIN Bases THEN <<FALSE, <<>>>>
  ELSE LET b == Bases[d[1]]  t == SubSeq(d, 2, Len(d)) IN
  IF b.bits > 0 THEN Bits(t, 1, b, 0, 0, <<>>)
  ELSE IF \E k \in DOMAIN t : Ix(b.al, t[k]) < 0 THEN <<FALSE, <<>>>>
  ELSE <<TRUE, Zeros(Lead(t, 1, b.al[1])) \o Reverse0(Pos(t, 1, b.al, <<>>))>>
\* unsigned varint at p: <<ok, next, value (big ones: 10^9)>>; at most ten bytes, no trailing zero group
RECURSIVE VarEnd(_, _, _)
VarEnd(b, p, n) == IF p > Len(b) \/ n = 10 THEN 0 ELSE IF b[p] < 128 THEN p ELSE VarEnd(b, p + 1, n + 1)
Varint(b, p) ==
  LET e == VarEnd(b, p, 0) IN
  IF e = 0 \/ (b[e] = 0 /\ e > p) \/ (e = p + 9 /\ b[e] > 1) THEN <<FALSE, 0, 0>>
  ELSE <<TRUE, e + 1, IF e - p >= 3 THEN 1000000000 ELSE IF e = p THEN b[p] ELSE IF e = p + 1 THEN (b[p] - 128) + 128 * b[e] ELSE (b[p] - 128) + 128 * (b[p + 1] - 128) + 16384 * b[e]>>
\* a version 1 identifier: version, content type, multihash of at most 64 bytes
V1(b) ==
  LET v == Varint(b, 1) IN v[1] /\ v[3] = 1 /\
  LET c == Varint(b, v[2]) IN c[1] /\
  LET h == Varint(b, c[2]) IN h[1] /\
  LET s == Varint(b, h[2]) IN s[1] /\ s[3] <= 64 /\ s[2] + s[3] - 1 <= Len(b)
Ascii(d) == \A k \in DOMAIN d : d[k] < 128
\* the old form without a base prefix begins with Qm, and no base is written with a Q
CidOf(d) == LET x == Decoded(d) IN IF Len(d) > 2 /\ Ascii(d) /\ x[1] /\ V1(x[2]) THEN <<TRUE, x[2]>> ELSE <<FALSE, <<>>>>
\* base-32 text of bytes
RECURSIVE Enc(_, _, _, _, _)
Enc(b, k, acc, n, out) ==
  IF n >= 5 THEN Enc(b, k, acc % Pow2(n - 5), n - 5, Append(out, Bases[98].al[acc \div Pow2(n - 5) + 1]))
  ELSE IF k > Len(b) THEN (IF n > 0 THEN Append(out, Bases[98].al[acc * Pow2(5 - n) + 1]) ELSE out)
  ELSE Enc(b, k + 1, acc * 256 + b[k], n + 8, out)
Base32(b) == <<98>> \o Enc(b, 1, 0, 0, <<>>)
=============================================================================
