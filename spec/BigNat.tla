------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: base 10000, least significant digit first,
   no leading zeros (TLC's integers have 32 bits). *)
EXTENDS Integers, Sequences
RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Dig(x, k) == IF k \in 1..Len(x) THEN x[k] ELSE 0
RECURSIVE PlusC(_, _, _, _, _)
PlusC(x, y, k, c, acc) == IF k > Len(x) /\ k > Len(y) THEN Trim(Append(acc, c)) ELSE LET t == Dig(x, k) + Dig(y, k) + c IN PlusC(x, y, k + 1, t \div 10000, Append(acc, t % 10000))
Plus(x, y) == PlusC(x, y, 1, 0, <<>>)
RECURSIVE LessAt(_, _, _)
LessAt(x, y, k) == IF k = 0 THEN FALSE ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE LessAt(x, y, k - 1)
Less(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LessAt(x, y, Len(x))
Leq(x, y) == ~Less(y, x)
RECURSIVE MinusC(_, _, _, _, _)
MinusC(x, y, k, c, acc) == IF k > Len(x) THEN Trim(acc) ELSE LET t == Dig(x, k) - Dig(y, k) - c IN MinusC(x, y, k + 1, IF t < 0 THEN 1 ELSE 0, Append(acc, IF t < 0 THEN t + 10000 ELSE t))
\* zero when y is larger
Minus(x, y) == IF Less(x, y) THEN <<>> ELSE MinusC(x, y, 1, 0, <<>>)
\* columns stay below 2^31 for up to twenty digits
RECURSIVE Column(_, _, _, _)
Column(x, y, k, i) == IF i > k THEN 0 ELSE Dig(x, i) * Dig(y, k + 1 - i) + Column(x, y, k, i + 1)
RECURSIVE TimesC(_, _, _, _, _)
TimesC(x, y, k, c, acc) == IF k > Len(x) + Len(y) THEN Trim(Append(acc, c)) ELSE LET t == Column(x, y, k, 1) + c IN TimesC(x, y, k + 1, t \div 10000, Append(acc, t % 10000))
Times(x, y) == TimesC(x, y, 1, 0, <<>>)
One == <<1>>
\* 2^32 - 1, 2^64 - 1 and 2^128 - 1
MaxU32 == <<7295, 9496, 42>>
MaxU64 == <<1615, 955, 737, 6744, 1844>>
MaxU128 == <<1455, 6821, 4317, 4607, 6337, 4634, 938, 6692, 2823, 340>>
=============================================================================
