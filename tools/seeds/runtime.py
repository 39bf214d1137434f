import json
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
RT = "runtime/frequency/src/lib.rs"
TXP, PAY = ("pallets/frequency-tx-payment/src/" + f for f in ("lib.rs", "payment.rs"))
PK = "pallets/passkey/src/lib.rs"
NONCE = "runtime/common/src/extensions/check_nonce.rs"
BASE = {k: v for k, v in cfg("tx_full").items() if k != "mc"}
def leaf(s, ty=""):
    p, n = s.split(".")
    return {"p": p, "n": n, "in": [], "ty": ty}
def wrap(s, inner, ty=""): return dict(leaf(s, ty), **{"in": inner})
def case(op, net="testnet", **k): return dict(net=net, op=op, **k)
def c(kind, s=0, to="", inner=()): return {"c": kind, "s": s, "to": to, "in": list(inner)}
def tx(who, nonce, call, **k): return dict({"k": "tx", "who": who, "nonce": nonce, "call": call, "len": 0, "tip": 0}, **k)
def pk(who, nonce, call, sig="ok", k="pk"): return {"k": k, "who": who, "nonce": nonce, "sig": sig, "call": call}
def limbs(n):
    o = []
    while n: o.append(n % 10000); n //= 10000
    return o
def charge(calls, rem, **k):
    r = dict(op="charge", net="testnet", calls=[{"n": n, "s": s} for n, s in calls], batch=len(calls) > 1, len=0, who="k", bal=1000000, ledger=True, tip=0, epoch=5, last=5, via="pre_dispatch", rem=limbs(rem), iss=limbs(10**12))
    r.update(k)
    return r
rem = leaf("System.remark")
MSG = c("msg", 10)
SEEDS = [
 # ---- F01
 dict(id="f01-nested-batches-checked-not-refused", property="F01", driver="d-runtime",
  needs="a batch inside a batch whose inner calls are all harmless",
  breaks="batches can be nested again",
  edits=[(RT, "\t\t\tRuntimeCall::Utility(pallet_utility::Call::batch { .. }) |\n\t\t\tRuntimeCall::Utility(pallet_utility::Call::batch_all { .. }) |\n\t\t\tRuntimeCall::Utility(pallet_utility::Call::force_batch { .. }) => false,", "\t\t\tRuntimeCall::Utility(inner) => Self::is_utility_call_allowed(inner),")],
  cases=[case("base", call=wrap("Utility.batch", [wrap("Utility.batch_all", [rem])])), case("base", call=wrap("Utility.batch", [rem]))], expect=[(0, "out", False), (1, "out", True)]),
 dict(id="f01-free-calls-by-class-in-batches", property="F01", driver="d-runtime",
  needs="a free retire call inside a batch",
  breaks="only the free revocations are recognised in batches, so retire_msa and retire_handle go through unpaid checks",
  edits=[(RT, "\t\tcall.get_dispatch_info().pays_fee == Pays::No\n", "\t\tmatch call {\n\t\t\tRuntimeCall::Msa(pallet_msa::Call::retire_msa { .. }) | RuntimeCall::Handles(_) => false,\n\t\t\t_ => call.get_dispatch_info().pays_fee == Pays::No,\n\t\t}\n")],
  cases=[case("base", call=wrap("Utility.batch_all", [rem, leaf("Msa.retire_msa")])), case("base", call=wrap("Utility.batch_all", [rem, leaf("Msa.delete_msa_public_key")]))], expect=[(0, "out", False), (1, "out", False)]),
 dict(id="f01-nontransfer-proxy-gives-any", property="F01", driver="d-runtime",
  needs="a NonTransfer proxy that adds an Any proxy",
  breaks="a NonTransfer proxy counts as a superset of Any and can hand out full control",
  edits=[(RT, "\t\t\t(_, ProxyType::Any) => false,\n\t\t\t(ProxyType::NonTransfer, _) => true,", "\t\t\t(ProxyType::NonTransfer, _) => true,\n\t\t\t(_, ProxyType::Any) => false,")],
  cases=[case("superset", ty="NonTransfer", of="Any"), case("superset", ty="NonTransfer", of="Staking")], expect=[(0, "out", False), (1, "out", True)]),
 dict(id="f01-nontransfer-proxy-releases-tokens", property="F01", driver="d-runtime",
  needs="a NonTransfer proxy calling a scheduled time-release transfer",
  breaks="a proxy that may not move tokens can send them with a release schedule",
  edits=[(RT, "\t\t\t\t| RuntimeCall::TimeRelease(pallet_time_release::Call::claim{..})\n", "\t\t\t\t| RuntimeCall::TimeRelease(pallet_time_release::Call::claim{..} | pallet_time_release::Call::transfer{..})\n")],
  cases=[case("proxy", ty="NonTransfer", call=leaf("TimeRelease.transfer")), case("proxy", ty="NonTransfer", call=leaf("TimeRelease.claim"))], expect=[(0, "out", False), (1, "out", True)]),
 # ---- F02
 dict(id="f02-treasury-rejection-by-half", property="F02", driver="d-runtime",
  needs="a treasury rejection with exactly half of an even council",
  breaks="half of the council suffices to reject a treasury proposal",
  edits=[(RT, "\ttype RejectOrigin = EitherOfDiverse<\n\t\tEnsureRoot<AccountId>,\n\t\tpallet_collective::EnsureProportionMoreThan<AccountId, CouncilCollective, 1, 2>,", "\ttype RejectOrigin = EitherOfDiverse<\n\t\tEnsureRoot<AccountId>,\n\t\tpallet_collective::EnsureProportionAtLeast<AccountId, CouncilCollective, 1, 2>,")],
  cases=[case("auth", what="treasury.reject", by=dict(o="members", i=1, n=2, m=4)), case("auth", what="treasury.reject", by=dict(o="members", i=1, n=3, m=4))], expect=[(0, "out", False), (1, "out", True)]),
 dict(id="f02-council-cancels-proposals", property="F02", driver="d-runtime",
  needs="a unanimous council, not the committee, cancelling a public proposal",
  breaks="the wrong collective holds the power to cancel proposals",
  edits=[(RT, "\ttype CancelProposalOrigin = EitherOfDiverse<\n\t\tEnsureRoot<AccountId>,\n\t\tpallet_collective::EnsureProportionAtLeast<AccountId, TechnicalCommitteeCollective, 1, 1>,", "\ttype CancelProposalOrigin = EitherOfDiverse<\n\t\tEnsureRoot<AccountId>,\n\t\tpallet_collective::EnsureProportionAtLeast<AccountId, CouncilCollective, 1, 1>,")],
  cases=[case("auth", what="democracy.cancel_proposal", by=dict(o="members", i=1, n=3, m=3)), case("auth", what="democracy.cancel_proposal", by=dict(o="members", i=2, n=3, m=3))], expect=[(0, "out", False), (1, "out", True)]),
 dict(id="f02-providers-by-a-third-of-the-council", property="F02", driver="d-runtime",
  needs="a council member outside the collective's own vote creating a provider: another collective's single vote",
  breaks="a vote of the technical committee can create providers",
  edits=[(RT, "\t\tpallet_collective::EnsureMembers<AccountId, CouncilCollective, 1>,", "\t\tpallet_collective::EnsureMembers<AccountId, TechnicalCommitteeCollective, 1>,")],
  cases=[case("auth", what="Msa.create_provider_via_governance", by=dict(o="members", i=2, n=1, m=3)), case("auth", what="Msa.create_provider_via_governance", by=dict(o="members", i=1, n=1, m=3))], expect=[(0, "out", False), (1, "out", True)]),
 # ---- P01
dict(id="p01-affordable-before-the-refill", property="P01", driver="d-runtime",
  needs="the first capacity transaction of an epoch by an MSA that spent its capacity in an earlier epoch",
  breaks="capacity is refilled only while some is left, so a spent MSA stays locked out",
  edits=[(PAY, "\t\tif T::Capacity::can_replenish(msa_id) {\n", "\t\tif T::Capacity::can_replenish(msa_id) && !sp_runtime::traits::Zero::is_zero(&T::Capacity::balance(msa_id)) {\n")],
  cases=[charge([("add_ipfs_message", 9)], 0, last=4)], expect=[(0, "out.ok", True)]),
 dict(id="p01-frozen-deposit-does-not-count", property="P01", driver="d-runtime", cfg=dict(BASE),
  needs="a key holding exactly the minimum deposit",
  breaks="a key with exactly the minimum deposit is refused",
  edits=[(PAY, "\t\t\tCurr::total_balance(key) >= Curr::minimum_balance(),", "\t\t\tCurr::total_balance(key) > Curr::minimum_balance(),")],
  acts=[tx("q", 0, c("pay", inner=[MSG]))], expect=[(0, "r.r", "ok")]),
 # ---- P02
 dict(id="p02-batch-length-counted-in-a-byte", property="P02", driver="d-runtime", cfg=dict(BASE, cap={"1": {"iss": 2000000000, "first": "p"}, "2": {"iss": 0, "first": "u"}, "3": {"iss": 0, "first": "w"}}),
  needs="a batch of 257 calls",
  breaks="the length of a capacity batch is compared modulo 256",
  edits=[(TXP, "\t\t\t\tcalls.len() <= T::MaximumCapacityBatchLength::get().into(),", "\t\t\t\tcalls.len() as u8 <= T::MaximumCapacityBatchLength::get(),")],
  acts=[tx("p", 0, c("paybatch", inner=[c("msg", 1)] * 257)), tx("p", 1, c("paybatch", inner=[c("msg", 1)] * 11))], expect=[(0, "r.r", "fail"), (0, "t.msgs", 0), (1, "r.r", "fail")]),
 dict(id="p02-ineligible-calls-ride-along", property="P02", driver="d-runtime", cfg=dict(BASE),
  needs="a batch whose first call is eligible and a later one is not",
  breaks="once the batch has an eligible call, ineligible ones after it count as weightless and are executed",
  edits=[(TXP, "\t\t\t\t.ok_or(ChargeFrqTransactionPaymentError::CallIsNotCapacityEligible.into())?;\n", "\t\t\t\t.or_else(|| (!calls_weight_sum.is_zero()).then(Weight::zero))\n\t\t\t\t.ok_or(ChargeFrqTransactionPaymentError::CallIsNotCapacityEligible.into())?;\n")],
  acts=[tx("p", 0, c("paybatch", inner=[MSG, c("remark", 3)])), tx("p", 0, c("paybatch", inner=[c("remark", 3), MSG]))], expect=[(0, "r.r", "invalid"), (1, "r.r", "invalid")]),
 dict(id="p02-batches-keep-what-ran", property="P02", driver="d-runtime", cfg=dict(BASE),
  needs="a batch with a failing call after one that succeeded",
  breaks="the calls before the failing one stay applied",
  edits=[(RT, "\t\tUtility::batch_all(origin, calls)\n", "\t\tUtility::batch(origin, calls)\n")],
  acts=[tx("p", 0, c("paybatch", inner=[MSG, c("bad", 3)]))], expect=[(0, "r.r", "fail"), (0, "t.msgs", 0)]),
 # ---- P03
 dict(id="p03-quotes-for-ineligible-calls", property="P03", driver="d-runtime",
  needs="a quote for a wrapped call that cannot be paid with capacity",
  breaks="the wrapper's own weight is quoted for a payment that can never be admitted",
  edits=[(TXP, "\t\tif !calls_weight_sum.is_zero() {\n\t\t\tif let Some(weight) = calls_weight_sum.checked_add(dispatch_weight) {\n", "\t\t{\n\t\t\tif let Some(weight) = calls_weight_sum.checked_add(dispatch_weight).filter(|w| !w.is_zero()) {\n")],
  cases=[case("quote", calls=[{"n": "Balances.transfer_keep_alive", "s": 0}], how="pay", len=100), case("quote", calls=[{"n": "add_ipfs_message", "s": 0}], how="pay", len=100)], expect=[(0, "out.some", False), (1, "out.some", True)]),
 dict(id="p03-quotes-count-the-first-call", property="P03", driver="d-runtime",
  needs="a quote for a batch of several calls",
  breaks="the wrapper's weight is left out and only the first call is counted, so a batch is quoted below its charge",
  edits=[(RT, "\t\t\t) => return Some(calls.iter().collect()),", "\t\t\t) => return Some(calls.iter().take(1).collect()),"), (RT, "\t\t\t\t\t<<Block as BlockT>::Extrinsic as GetDispatchInfo>::get_dispatch_info(&uxt).weight\n", "\t\t\t\t\tWeight::zero()\n")],
  cases=[case("quote", calls=[{"n": "add_ipfs_message", "s": 0}] * 2, how="batch", len=100), case("quote", calls=[{"n": "add_ipfs_message", "s": 0}], how="pay", len=100)], expect=[(1, "out.some", True), (0, "out.some", True), (0, "out.weight", [4726, 200])]),
 # ---- N01
 dict(id="n01-free-transactions-replay", property="N01", driver="d-runtime", cfg=dict(BASE),
  needs="the same fee-less transaction submitted twice by an existing account",
  breaks="a fee-less transaction does not advance the nonce of an existing account, so it can be replayed",
  edits=[(NONCE, "\t\tif info.pays_fee == Pays::Yes || existing_account {\n", "\t\tif info.pays_fee == Pays::Yes || (existing_account && account.providers == 0) {\n")],
  acts=[tx("w", 0, c("revoke")), tx("w", 0, c("remark", 1))], expect=[(0, "r.r", "ok"), (0, "t.acc.w.n", 1), (1, "r.e", "stale")]),
 dict(id="n01-next-but-one-does-not-wait", property="N01", driver="d-runtime", cfg=dict(BASE),
  needs="a transaction one ahead of the account's nonce in the pool",
  breaks="the transaction right after the next one does not wait for its predecessor",
  edits=[(NONCE, "\t\tlet requires = if account.nonce < self.0 {\n", "\t\tlet requires = if account.nonce + T::Nonce::one() < self.0 {\n")],
  acts=[tx("p", 1, MSG, k="check"), tx("p", 0, MSG, k="check"), tx("p", 2, MSG, k="check")], expect=[(0, "r.wait", True), (1, "r.wait", False), (2, "r.wait", True)]),
 dict(id="n01-unborn-accounts-skip-nonces", property="N01", driver="d-runtime", cfg=dict(BASE),
  needs="a fee-less transaction with a future nonce from an account that does not exist",
  breaks="an account that does not exist may use any nonce",
  edits=[(NONCE, "\t\tif self.0 != account.nonce {\n", "\t\tif self.0 != account.nonce && (account.providers > 0 || info.pays_fee == Pays::Yes) {\n")],
  acts=[tx("u", 3, c("revoke"))], expect=[(0, "r.r", "invalid"), (0, "r.e", "future")]),
 # ---- K01
 dict(id="k01-block-import-skips-ownership", property="K01", driver="d-runtime", cfg=dict(BASE),
  needs="a passkey transaction with a foreign ownership proof that reaches a block without passing the pool",
  breaks="the account's signature is checked in the pool only",
  edits=[(PK, "\t\t\tSelf::validate_signatures(&payload)?;\n\t\t\tlet nonce_check", "\t\t\tlet nonce_check")],
  acts=[pk("p", 0, c("xfer", 100000000, "v"), "v", "pkcheck"), pk("p", 0, c("xfer", 100000000, "v"), "v")], expect=[(0, "r.r", "invalid"), (1, "r.r", "invalid"), (1, "t.tok.p", 500000000)]),
 dict(id="k01-bare-key-signature-accepted", property="K01", driver="d-runtime", cfg=dict(BASE),
  needs="an ownership proof over the passkey's bare bytes",
  breaks="a signature over the unwrapped key bytes counts as proof of ownership",
  edits=[(PK, "\t\tlet verified = signature.verify(&signed_payload[..], &key);\n", "\t\tlet verified = signature.verify(&signed_payload[..], &key) || signature.verify(&signed_data[..], &key);\n")],
  acts=[pk("p", 0, c("xfer", 100000000, "v"), "raw")], expect=[(0, "r.r", "invalid")]),
 dict(id="k01-last-passkey-nonce-again", property="K01", driver="d-runtime", cfg=dict(BASE),
  needs="a passkey transaction submitted again right after it ran",
  breaks="block import checks the nonce but does not advance it, so a passkey transaction can be repeated",
  edits=[(PK, "\t\t\tnonce_check.pre_dispatch()?;\n", "\t\t\tif nonce_check.0.account_nonce != frame_system::Pallet::<T>::account_nonce(&nonce_check.0.account_id) {\n\t\t\t\tnonce_check.pre_dispatch()?;\n\t\t\t}\n")],
  acts=[pk("p", 0, c("xfer", 100000000, "v")), pk("p", 0, c("xfer", 100000000, "v"))], expect=[(0, "r.r", "ok"), (1, "r.r", "invalid"), (1, "t.tok.v", 400000000)]),
]
