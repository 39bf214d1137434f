-------------------------------- MODULE Frac --------------------------------
(* Parts per billion of amounts below two million, in 32-bit arithmetic.     *)
EXTENDS Integers, Sequences
Billion == 1000000000
\* <<quotient, remainder>> of x * parts / 10^9
MulDiv(x, parts) ==
  LET a == parts \div 1000000  b == (parts \div 1000) % 1000  c == parts % 1000
      t0 == x * c
      t1 == x * b + (t0 \div 1000)
      t2 == x * a + (t1 \div 1000)
  IN <<t2 \div 1000, (t2 % 1000) * 1000000 + (t1 % 1000) * 1000 + (t0 % 1000)>>
MulNearestDown(x, parts) == LET m == MulDiv(x, parts) IN m[1] + (IF m[2] > 500000000 THEN 1 ELSE 0)
MulUp(x, parts) == LET m == MulDiv(x, parts) IN m[1] + (IF m[2] > 0 THEN 1 ELSE 0)
RECURSIVE Digits(_, _, _, _)
Digits(p, q, k, acc) == IF k = 0 THEN acc ELSE Digits((p * 10) % q, q, k - 1, acc * 10 + ((p * 10) \div q))
\* p / q in parts per billion, rounded down, at most one
Ratio(p, q) == IF p >= q THEN Billion ELSE Digits(p, q, 9, 0)
=============================================================================
