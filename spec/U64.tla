-------------------------------- MODULE U64 --------------------------------
(* Unsigned 64-bit arithmetic on little-endian sequences of eight bytes      *)
(* (TLC's integers have 32 bits).                                            *)
EXTENDS Integers, Sequences, Bitwise, TLC

B64 == 1..8
Zero64 == [k \in B64 |-> 0]
OfInt(n) == [k \in B64 |-> IF k > 4 THEN 0 ELSE (n \div (IF k = 1 THEN 1 ELSE IF k = 2 THEN 256 ELSE IF k = 3 THEN 65536 ELSE 16777216)) % 256]

RECURSIVE AddC(_, _, _, _, _)
AddC(x, y, k, c, acc) ==
  IF k > 8 THEN acc
  ELSE LET t == x[k] + y[k] + c IN AddC(x, y, k + 1, t \div 256, Append(acc, t % 256))
Add(x, y) == AddC(x, y, 1, 0, <<>>)

\* column k (1-based) of the schoolbook product
RECURSIVE Col(_, _, _, _)
Col(x, y, k, i) == IF i > k THEN 0 ELSE x[i] * y[k + 1 - i] + Col(x, y, k, i + 1)
RECURSIVE MulC(_, _, _, _, _)
MulC(x, y, k, c, acc) ==
  IF k > 8 THEN acc
  ELSE LET t == Col(x, y, k, 1) + c IN MulC(x, y, k + 1, t \div 256, Append(acc, t % 256))
Mul(x, y) == MulC(x, y, 1, 0, <<>>)

X64(x, y) == TLCEval([k \in B64 |-> x[k] ^^ y[k]])
Pow2(r) == CASE r = 0 -> 1 [] r = 1 -> 2 [] r = 2 -> 4 [] r = 3 -> 8 [] r = 4 -> 16 [] r = 5 -> 32 [] r = 6 -> 64 [] r = 7 -> 128 [] OTHER -> 256
At(x, k) == IF k \in B64 THEN x[k] ELSE 0
Shl(x, n) == LET b == n \div 8  r == n % 8 IN
  TLCEval([k \in B64 |-> ((At(x, k - b) * Pow2(r)) % 256) + (At(x, k - b - 1) \div Pow2(8 - r))])
Shr(x, n) == LET b == n \div 8  r == n % 8 IN
  TLCEval([k \in B64 |-> (At(x, k + b) \div Pow2(r)) + ((At(x, k + b + 1) * Pow2(8 - r)) % 256)])
\* the two halves never overlap, so addition is "or"
RotL(x, n) == LET a == Shl(x, n)  b == Shr(x, 64 - n) IN TLCEval([k \in B64 |-> a[k] + b[k]])
Low32(x) == TLCEval([k \in B64 |-> IF k <= 4 THEN x[k] ELSE 0])
\* rotate the low 32 bits right by n
RotR32(x, n) == LET l == Low32(x)  a == Shr(l, n)  b == Low32(Shl(l, 32 - n)) IN
  IF n = 0 THEN l ELSE TLCEval([k \in B64 |-> a[k] + b[k]])
=============================================================================
