------------------------------- MODULE Filters -------------------------------
(* Which calls may be dispatched, by whom and through what: the runtime's call filters, the
   proxy types, the passkey filter, and the authority of every privileged action.
   A call is [p |-> pallet, n |-> name, in |-> inner calls, ty |-> proxy type or ""]. *)
EXTENDS Naturals, Sequences, FiniteSets
Is(c, p, names) == c.p = p /\ c.n \in names
Batches == {"batch", "batch_all", "force_batch"}
IsBatch(c) == Is(c, "Utility", Batches)
\* new providers and schemas go through governance
Gated(c) == Is(c, "Msa", {"create_provider"}) \/ Is(c, "Schemas", {"create_schema", "create_schema_v2", "create_schema_v3"})
\* calls that cost no fee
Free(c) ==
  \/ Is(c, "Msa", {"revoke_delegation_by_delegator", "revoke_delegation_by_provider", "delete_msa_public_key", "retire_msa"})
  \/ Is(c, "Handles", {"retire_handle"})
(* A batch holds no batch, nothing paid with capacity, nothing free and nothing gated. *)
InBatch(c) == ~IsBatch(c) /\ c.p # "FrequencyTxPayment" /\ ~Gated(c) /\ ~Free(c)
Base(net, c) ==
  /\ IsBatch(c) => \A k \in DOMAIN c.in : InBatch(c.in[k])
  /\ net = "mainnet" => ~Gated(c)

Types == {"Any", "NonTransfer", "Governance", "Staking", "CancelProxy"}
\* what a delegate of that type may do: NonTransfer moves no tokens and administers nothing
TypeAllows(t, c) ==
  CASE t = "Any" -> TRUE
    [] t = "NonTransfer" ->
         \/ c.p \in {"Capacity", "CollatorSelection", "Council", "Democracy", "FrequencyTxPayment", "Handles", "Messages", "Msa", "Multisig", "Preimage",
                     "Scheduler", "Schemas", "Session", "StatefulStorage", "TechnicalCommittee", "Treasury", "Utility"}
         \/ Is(c, "TimeRelease", {"claim", "claim_for"})
    [] t = "Governance" -> c.p \in {"Treasury", "Democracy", "TechnicalCommittee", "Council", "Utility"}
    [] t = "Staking" -> Is(c, "Capacity", {"stake"}) \/ Is(c, "CollatorSelection", {"set_candidacy_bond"})
    [] t = "CancelProxy" -> Is(c, "Proxy", {"reject_announcement"})
Superset(t, o) == t = o \/ t = "Any" \/ (t = "NonTransfer" /\ o # "Any")
(* a delegate cannot hand out or take away more than it has *)
Delegable(t, c) ==
  IF Is(c, "Proxy", {"add_proxy", "remove_proxy"}) /\ ~Superset(t, c.ty) THEN FALSE
  ELSE IF Is(c, "Proxy", {"remove_proxies", "kill_pure"}) /\ t # "Any" THEN FALSE
  ELSE TypeAllows(t, c)
Passkey(c) == Is(c, "Balances", {"transfer_keep_alive", "transfer_allow_death", "transfer_all"})

(* Is anything stopped when `who` dispatches the call?  Filters follow the call through every
   wrapper: f = [nba: no batch_all inside batch_all, types: of the proxies passed]. *)
Clean == [nba |-> FALSE, types |-> {}]
Passes(net, f, c) == Base(net, c) /\ (f.nba => ~Is(c, "Utility", {"batch_all"})) /\ \A t \in f.types : Delegable(t, c)
RECURSIVE Stopped(_, _, _, _)
Stopped(net, f, who, c) ==
  IF ~Passes(net, f, c) THEN TRUE
  ELSE IF Is(c, "Utility", {"batch", "force_batch"}) THEN \E k \in DOMAIN c.in : Stopped(net, f, who, c.in[k])
  ELSE IF Is(c, "Utility", {"batch_all"}) \/ Is(c, "FrequencyTxPayment", {"pay_with_capacity_batch_all"})
    THEN \E k \in DOMAIN c.in : Stopped(net, [f EXCEPT !.nba = TRUE], who, c.in[k])
  ELSE IF Is(c, "Utility", {"as_derivative"}) THEN Stopped(net, f, "other", c.in[1])
  ELSE IF Is(c, "FrequencyTxPayment", {"pay_with_capacity"}) THEN Stopped(net, f, who, c.in[1])
  ELSE IF Is(c, "Proxy", {"proxy"}) /\ who # "other" THEN Stopped(net, [Clean EXCEPT !.types = {c.ty}], "real", c.in[1])
  ELSE FALSE

(* ---- authority ---- by = [o |-> "root" | "none" | "signed" | "members" | "member", i, n, m] *)
Root(by) == by.o = "root"
Signed(by) == by.o = "signed"
Council == 1  Committee == 2
AtLeast(by, i, x, y) == by.o = "members" /\ by.i = i /\ by.n * y >= x * by.m
MoreThan(by, i, x, y) == by.o = "members" /\ by.i = i /\ by.n * y > x * by.m
Member(by, i) == by.o = "member" /\ by.i = i
RootOnly == {"Capacity.set_epoch_length", "Schemas.set_max_schema_model_bytes", "TimeRelease.update_release_schedules", "council.members", "committee.members", "democracy.blacklist"}
MayDo(what, by) ==
  CASE what \in RootOnly -> Root(by)
    [] what = "Msa.create_provider_via_governance" -> Root(by) \/ (by.o = "members" /\ by.i = Council /\ by.n >= 1)
    [] what \in {"Schemas.create_schema_via_governance", "Schemas.create_schema_via_governance_v2", "Schemas.create_schema_name_via_governance"} -> Root(by) \/ MoreThan(by, Council, 1, 2)
    [] what = "Passkey.proxy" -> by.o = "none"
    [] what = "scheduler" -> Root(by) \/ AtLeast(by, Council, 1, 2)
    [] what = "preimage" -> Root(by) \/ Member(by, Committee)
    [] what = "democracy.external_default" -> Root(by) \/ AtLeast(by, Council, 1, 1)
    [] what = "democracy.external_majority" -> Root(by) \/ MoreThan(by, Council, 1, 2)
    [] what = "democracy.external" -> Root(by) \/ AtLeast(by, Council, 1, 2)
    [] what = "democracy.submit" -> Signed(by)
    [] what = "democracy.fast_track" -> Root(by) \/ AtLeast(by, Committee, 2, 3)
    [] what = "democracy.instant" -> Root(by) \/ AtLeast(by, Committee, 1, 1)
    [] what = "democracy.cancellation" -> Root(by) \/ AtLeast(by, Council, 2, 3)
    [] what = "democracy.cancel_proposal" -> Root(by) \/ AtLeast(by, Committee, 1, 1)
    [] what = "democracy.veto" -> Member(by, Committee)
    [] what \in {"treasury.approve", "collators"} -> Root(by) \/ AtLeast(by, Council, 3, 5)
    [] what = "treasury.reject" -> Root(by) \/ MoreThan(by, Council, 1, 2)
    [] what = "treasury.spend" -> FALSE
    [] OTHER -> Signed(by)        \* every other call of a Frequency pallet is an account's own
=============================================================================
