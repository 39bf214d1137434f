------------------------------- MODULE Suffix -------------------------------
(* The suffix sequence of a canonical base (properties H02, H04).            *)
(*                                                                           *)
(* Seed   == XXH64 of the UTF-8 canonical base followed by four zero bytes.  *)
(* Order  == Fisher-Yates over min..max driven by PCG-XSH-RR from that seed. *)
(* The order decides which suffix numbers have been handed out already, so   *)
(* it must never change for a given (min, max, canonical base).              *)
EXTENDS U64, SequencesExt, FiniteSets, TLC

Prime1 == <<135, 202, 235, 133, 177, 121, 55, 158>>
Prime2 == <<79, 235, 212, 39, 61, 174, 178, 194>>
Prime3 == <<249, 121, 55, 158, 177, 103, 86, 22>>
Prime4 == <<99, 174, 178, 194, 119, 202, 235, 133>>
Prime5 == <<197, 103, 86, 22, 47, 235, 212, 39>>
PcgMul == <<45, 127, 149, 76, 45, 244, 81, 88>>
PcgInc == <<159, 2, 207, 238, 253, 246, 10, 40>>
XxV1 == <<214, 181, 192, 173, 238, 39, 234, 96>>
XxV2 == Prime2
XxV3 == Zero64
XxV4 == <<121, 53, 20, 122, 78, 134, 200, 97>>

----
(* XXH64 with seed 0 *)
Word8(d, o) == [k \in B64 |-> d[o + k]]
Word4(d, o) == [k \in B64 |-> IF k <= 4 THEN d[o + k] ELSE 0]
Round(v, w) == Mul(RotL(Add(v, Mul(w, Prime2)), 31), Prime1)
RECURSIVE Chunks(_, _, _)
Chunks(d, o, v) ==
  IF o + 32 > Len(d) THEN <<o, v>>
  ELSE Chunks(d, o + 32, [k \in 1..4 |-> Round(v[k], Word8(d, o + 8 * (k - 1)))])
MixOne(h, v) == Add(Mul(X64(h, Mul(RotL(Mul(v, Prime2), 31), Prime1)), Prime1), Prime4)
Merge(v) ==
  LET h0 == Add(Add(RotL(v[1], 1), RotL(v[2], 7)), Add(RotL(v[3], 12), RotL(v[4], 18)))
  IN MixOne(MixOne(MixOne(MixOne(h0, v[1]), v[2]), v[3]), v[4])
RECURSIVE Tail8(_, _, _), Tail4(_, _, _), Tail1(_, _, _)
Tail1(d, o, h) ==
  IF o >= Len(d) THEN h
  ELSE Tail1(d, o + 1, Mul(RotL(X64(h, Mul(OfInt(d[o + 1]), Prime5)), 11), Prime1))
Tail4(d, o, h) ==
  IF o + 4 > Len(d) THEN Tail1(d, o, h)
  ELSE Tail4(d, o + 4, Add(Mul(RotL(X64(h, Mul(Word4(d, o), Prime1)), 23), Prime2), Prime3))
Tail8(d, o, h) ==
  IF o + 8 > Len(d) THEN Tail4(d, o, h)
  ELSE Tail8(d, o + 8,
         Add(Mul(RotL(X64(h, Mul(RotL(Mul(Word8(d, o), Prime2), 31), Prime1)), 27), Prime1), Prime4))
Avalanche(h) ==
  LET a == Mul(X64(h, Shr(h, 33)), Prime2)
      b == Mul(X64(a, Shr(a, 29)), Prime3)
  IN X64(b, Shr(b, 32))
XXH64(d) ==
  LET c == Chunks(d, 0, <<XxV1, XxV2, XxV3, XxV4>>)
      h0 == IF Len(d) >= 32 THEN Merge(c[2]) ELSE Prime5
  IN Avalanche(Tail8(d, c[1], Add(h0, OfInt(Len(d)))))

Seed(bytes) == XXH64(bytes \o <<0, 0, 0, 0>>)

----
(* PCG-XSH-RR 32 *)
PcgStep(s) == Add(Mul(s, PcgMul), PcgInc)
PcgOut(s) == RotR32(Low32(Shr(X64(Shr(s, 18), s), 27)), s[8] \div 8)
\* state after seeding: one step from 0, add the seed, one more step
PcgInit(seed) == PcgStep(Add(PcgStep(Zero64), seed))

RECURSIVE TwoTo32Mod(_, _, _)
TwoTo32Mod(s, r, k) == IF k = 0 THEN r ELSE TwoTo32Mod(s, (2 * r) % s, k - 1)
Left(m) == m[1] + 256 * m[2] + 65536 * (IF m[3] > 100 THEN 100 ELSE m[3]) + (IF m[4] > 0 THEN 9000000 ELSE 0)
High(m) == m[5] + 256 * m[6] + 65536 * m[7]
\* Lemire's unbiased draw from 0..s-1 : <<value, state>>
RECURSIVE Draw(_, _)
Draw(s, st) ==
  LET m == Mul(PcgOut(st), OfInt(s))  nx == PcgStep(st)
  IN IF Left(m) < s /\ Left(m) < TwoTo32Mod(s, 1 % s, 32) THEN Draw(s, nx) ELSE <<High(m), nx>>

----
(* Fisher-Yates as an explicit transition: the abstract step picks ANY j, *)
     \* which is all the permutation property needs; the concrete step draws it.
FYInit(min, max, st) == [idx |-> [k \in 1..(max - min + 1) |-> min + k - 1], i |-> max - min + 1, out |-> <<>>, st |-> st]
FYPick(s, j) ==
  LET idx == [s.idx EXCEPT ![s.i] = s.idx[j], ![j] = s.idx[s.i]]
  IN [s EXCEPT !.idx = idx, !.i = s.i - 1, !.out = Append(s.out, idx[s.i])]
RECURSIVE FYRun(_, _)
FYRun(s, n) ==
  IF s.i = 0 \/ n = 0 THEN s.out
  ELSE LET d == Draw(s.i, s.st) IN FYRun([FYPick(s, d[1] + 1) EXCEPT !.st = d[2]], n - 1)

SuffixSeqN(min, max, bytes, n) == IF min > max THEN <<>> ELSE FYRun(FYInit(min, max, PcgInit(Seed(bytes))), n)
SuffixSeq(min, max, bytes) == SuffixSeqN(min, max, bytes, 70000)

IsPermutation(q, min, max) ==
  /\ Len(q) = (IF min > max THEN 0 ELSE max - min + 1)
  /\ {q[k] : k \in DOMAIN q} = min..max
=============================================================================
