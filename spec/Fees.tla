-------------------------------- MODULE Fees --------------------------------
(* What a transaction costs in capacity: fixed (stable) weights per call, whatever the
   benchmarks say, a price per byte and a base price. *)
EXTENDS BigNat
RECURSIVE ToBig(_)
ToBig(n) == IF n = 0 THEN <<>> ELSE <<n % 10000>> \o ToBig(n \div 10000)
RECURSIVE ToInt(_)
ToInt(x) == IF x = <<>> THEN 0 ELSE Head(x) + 10000 * ToInt(Tail(x))
\* x / 10, rounded down
RECURSIVE TenthC(_, _, _, _)
TenthC(x, k, c, acc) == IF k = 0 THEN Trim(acc) ELSE LET t == c * 10000 + x[k] IN TenthC(x, k - 1, t % 10, <<t \div 10>> \o acc)
Tenth(x) == TenthC(x, Len(x), 0, <<>>)
\* x / 10^9, rounded down
Billionth(x) == IF Len(x) <= 2 THEN <<>> ELSE Tenth(SubSeq(x, 3, Len(x)))

(* name |-> base weight, weight per unit of size, storage reads and writes *)
Table == [
  create_sponsored_account_with_delegation |-> <<123084817, 138668, 10, 7>>,
  add_public_key_to_msa |-> <<177629000, 0, 8, 7>>,
  grant_delegation |-> <<115947313, 192710, 8, 4>>,
  add_onchain_message |-> <<174064230, 1527, 4, 1>>,
  add_ipfs_message |-> <<159242000, 0, 3, 1>>,
  apply_item_actions |-> <<104137090, 7325, 4, 1>>,
  upsert_page |-> <<32297181, 594, 4, 1>>,
  delete_page |-> <<37792000, 0, 4, 1>>,
  apply_item_actions_with_signature |-> <<158947612, 13664, 3, 1>>,
  apply_item_actions_with_signature_v2 |-> <<158947612, 13664, 3, 1>>,
  upsert_page_with_signature |-> <<87768259, 6648, 3, 1>>,
  upsert_page_with_signature_v2 |-> <<87768259, 6648, 3, 1>>,
  delete_page_with_signature |-> <<90631000, 0, 3, 1>>,
  delete_page_with_signature_v2 |-> <<90631000, 0, 3, 1>>,
  claim_handle |-> <<85480476, 107272, 3, 3>>,
  change_handle |-> <<95748064, 212118, 3, 4>>]
Read == 25000000  Write == 100000000
Eligible(n) == n \in DOMAIN Table
Weight(n, s) == LET t == Table[n] IN Plus(Plus(ToBig(t[1]), Times(ToBig(t[2]), ToBig(s))), ToBig(t[3] * Read + t[4] * Write))
RECURSIVE WeightsFrom(_, _)
WeightsFrom(cs, k) == IF k > Len(cs) THEN <<>> ELSE Plus(Weight(cs[k].n, cs[k].s), WeightsFrom(cs, k + 1))
\* half a second, the heaviest block
MaxBlock == <<0, 0, 5000>>
\* a tenth of a cent (10^6) for the 59 307 000 of an empty extrinsic: 1 686 141 parts of 10^9
ToFee(w) == Billionth(Times(IF Less(MaxBlock, w) THEN MaxBlock ELSE w, <<6141, 168>>))
BaseWeight == <<5000, 545, 1>>      \* 105 455 000
PerByte == 10000
FeeBig(len, cs) == Plus(Plus(ToFee(BaseWeight), ToFee(WeightsFrom(cs, 1))), Times(ToBig(len), ToBig(PerByte)))
Fee(len, cs) == ToInt(FeeBig(len, cs))
=============================================================================
