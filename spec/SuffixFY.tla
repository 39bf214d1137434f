------------------------------ MODULE SuffixFY ------------------------------
(* The permutation argument of H02 for every possible draw: a Fisher-Yates   *)
(* walk over N numbers, whatever index each step picks, emits every number   *)
(* exactly once and its prefixes never change.                               *)
EXTENDS Suffix
CONSTANT N
VARIABLES s
Init == s = FYInit(10, 9 + N, 0)
Next == /\ s.i > 0
        /\ \E j \in 1..s.i : s' = FYPick(s, j)
Spec == Init /\ [][Next]_s
NoDuplicates == \A a, b \in DOMAIN s.out : a # b => s.out[a] # s.out[b]
Remaining == {s.idx[k] : k \in 1..s.i} \cup {s.out[k] : k \in DOMAIN s.out} = 10..(9 + N)
Complete == s.i = 0 => IsPermutation(s.out, 10, 9 + N)
PrefixStable == [][IsPrefix(s.out, s'.out)]_s
=============================================================================
