------------------------------ MODULE FeesEval ------------------------------
(* One transaction that pays with capacity per line, with what became of it in `out`;
   and calls that may or may not be paid with capacity. *)
EXTENDS Fees, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.IN)
ED == 1000000
\* P02: every call is eligible;  P01: the key's account exists, its MSA has the capacity
Charge(r) ==
  LET was == [rem |-> IF r.ledger THEN r.rem ELSE <<>>, iss |-> IF r.ledger THEN r.iss ELSE <<>>, last |-> IF r.ledger THEN r.last ELSE 0]
      refill == r.last < r.epoch
      have == IF refill THEN r.iss ELSE r.rem
      cost == FeeBig(r.len, r.calls)
      good == (\A k \in DOMAIN r.calls : Eligible(r.calls[k].n)) /\ r.bal >= ED /\ r.who = "k" /\ r.ledger /\ Leq(cost, have)
      now == IF good /\ r.via # "validate" THEN [rem |-> Minus(have, cost), iss |-> r.iss, last |-> IF refill THEN r.epoch ELSE r.last] ELSE was
  IN [ok |-> good, rem |-> now.rem, iss |-> now.iss, last |-> now.last, same |-> TRUE]
Pallets == [create_sponsored_account_with_delegation |-> "Msa", add_public_key_to_msa |-> "Msa", grant_delegation |-> "Msa",
            add_onchain_message |-> "Messages", add_ipfs_message |-> "Messages", claim_handle |-> "Handles", change_handle |-> "Handles"]
\* P03: the quote of a capacity payment is never below its charge, part by part; an eligible call that is not
\* wrapped is quoted exactly; there is no quote where nothing can be paid with capacity
Quote(r) ==
  LET all == \A k \in DOMAIN r.calls : Eligible(r.calls[k].n)
      none == \A k \in DOMAIN r.calls : ~Eligible(r.calls[k].n)
      o == r.out
      w == ToFee(WeightsFrom(r.calls, 1))
  IN IF r.garble \/ r.len = 0 THEN (IF "err" \in DOMAIN o THEN "ok" ELSE "bad: quote for no transaction")
     ELSE IF "some" \notin DOMAIN o THEN "bad: no answer"
     ELSE IF o.tip # <<>> THEN "bad: tip"
     ELSE IF none THEN (IF o.some THEN "bad: quote for what cannot be paid" ELSE "ok")
     ELSE IF ~all THEN "ok"
     ELSE IF ~o.some THEN "bad: no quote"
     ELSE IF o.base # ToFee(BaseWeight) \/ o.len # Times(ToBig(r.len), ToBig(PerByte)) THEN "bad: base or length part"
     ELSE IF ~Leq(w, o.weight) THEN "bad: quoted below the charge"
     ELSE IF r.how = "none" /\ o.weight # w THEN "bad: unwrapped call"
     ELSE "ok"
Verdict(r) ==
  IF r.op = "quote" THEN Quote(r) ELSE
  IF r.op = "charge" THEN
    IF "ok" \notin DOMAIN r.out THEN "bad: panic"
    ELSE LET w == Charge(r)  o == r.out IN
      IF w = [ok |-> o.ok, rem |-> o.rem, iss |-> o.iss, last |-> o.last, same |-> o.same] THEN "ok"
      ELSE IF o.ok # w.ok THEN (IF o.ok THEN "bad: admitted" ELSE "bad: refused") ELSE "bad: amount"
  ELSE IF r.out = (Eligible(r.call.n) /\ (IF r.call.n \in DOMAIN Pallets THEN Pallets[r.call.n] ELSE "StatefulStorage") = r.call.p) THEN "ok" ELSE "bad: eligibility"
CHUNKS == 64
VARIABLE i
Init == i \in {0 - k : k \in 1..CHUNKS}
Next == i < 0 /\ i' \in {k \in 1..Len(R) : k % CHUNKS = (0 - i) % CHUNKS}
Judge == i > 0 => LET v == Verdict(R[i]) IN v = "ok" \/ PrintT(ToJson([i |-> i, v |-> v]))
=============================================================================
