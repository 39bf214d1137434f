#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the list is this file)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))
H="pallets/handles/src/lib.rs"; HU="pallets/handles/src/handles-utils/src/"
M="pallets/msa/src/lib.rs"; S="pallets/schemas/src/lib.rs"; G="pallets/messages/src/lib.rs"
T="pallets/stateful-storage/src/lib.rs"; TT="pallets/stateful-storage/src/types.rs"; TC="pallets/stateful-storage/src/stateful_child_tree.rs"
C="pallets/capacity/src/lib.rs"; CT="pallets/capacity/src/types.rs"; R="pallets/time-release/src/lib.rs"; RT="pallets/time-release/src/types.rs"
F="pallets/frequency-tx-payment/src/lib.rs"

# ---- handles
p("H01","Look-alike spellings of a handle share one canonical base",
 "Converting a base handle to its canonical form is idempotent, and any two base handles that differ only by letter case, white space, diacritical marks (of the listed combining blocks, after decomposition) or characters listed as confusable with one another have the same canonical form; the conversion is exactly: drop white space, decompose and drop diacritical marks, replace confusables, lower-case.",
 ["inputs"],"every string of any scripts, including multi-code-point decompositions and strings whose every character is replaced",
 "The unit tests convert one example per confusable row; they never combine rules, never iterate the conversion and never decompose-then-replace.",
 [HU+"converter.rs","pallets/handles/src/handles-utils/build.rs",HU+"data/confusable_characters.txt"],
 [("convert_to_canonical pipeline (white space, diacritics, confusables, lower case)",HU+"converter.rs"),("generated CONFUSABLES map","pallets/handles/src/handles-utils/build.rs")],
 observe=["convert_to_canonical(string)"])
p("H02","Suffixes of a base enumerate the configured range, each exactly once",
 "For every canonical base and every configured range [min,max], the suffix sequence contains every number of the range exactly once and nothing else, depends only on (min, max, canonical base), and asking for a shorter prefix yields a prefix of the same sequence.",
 ["inputs","configurations"],"all canonical bases and all ranges 0<=min<=max<=65535, all prefix lengths",
 "The tests compare a few sequences for three fixed ranges; a duplicated, skipped or out-of-range suffix for another base or range is never observed.",
 [HU+"suffix.rs"],[("lazy Fisher-Yates shuffle seeded by the canonical base",HU+"suffix.rs")],observe=["generate_unique_suffixes"])
p("H03","A handle resolves to one MSA and an MSA owns at most one handle",
 "At every point of every history the (canonical base, suffix) pair of each MSA's current display handle resolves to that MSA and to no other, and every resolvable pair is the current handle of the MSA it resolves to.",
 ["histories","inputs"],"every sequence of claim, change and retire operations by any number of accounts with any base handles",
 "Tests run one or two claims with friendly ASCII names; collisions between different bases after canonicalisation and storage of the canonical key are not exercised.",
 [H,"pallets/handles/src/lib.rs"],[("do_claim_handle / do_retire_handle keep both maps in step",H)],
 [("MSAIdToDisplayName","MSA -> (display handle, expiration)",H),("CanonicalBaseHandleAndSuffixToMSAId","(canonical, suffix) -> MSA",H)],
 ["claim_handle","change_handle","retire_handle","get_handle_for_msa","get_msa_id_for_handle"])
p("H04","A base.suffix pair is issued at most once, retired or not",
 "No (canonical base, suffix) pair is ever handed out twice, even after the handle holding it was retired or changed, as long as the suffix range is kept, or changed only to ranges disjoint from the earlier ones; a base with no unused suffix left rejects claims; the previewed next suffixes are the ones then issued.",
 ["histories","configurations"],"every interleaving of claims, changes and retirements, over every base and range, including exhaustion",
 "Exhaustion and re-issue need full ranges of claims on one base interleaved with retirements; tests reach one exhaustion case.",
 [H,HU+"suffix.rs"],[("per-base suffix sequence index, monotone",H)],
 [("CanonicalBaseHandleToSuffixIndex","canonical -> (next index, suffix_min)",H)],["claim_handle","change_handle","get_next_suffixes"])
p("H05","Only well-formed, permitted handles can be claimed",
 "A claim or change succeeds only when the base handle has 3 to 20 characters (also in canonical form), fits 32 bytes (also in canonical form), is not a reserved word, contains no blocked character and has only characters of the supported scripts; the validation query gives exactly the same verdict.",
 ["inputs"],"every byte string offered as base handle",
 "Tests offer a few dozen hand-picked strings; boundaries of the character ranges, characters outside the basic plane and canonical lengths are not covered.",
 [H,HU+"validator.rs","pallets/handles/src/handles-utils/constants.rs"],
 [("verify_handle / validate_base_handle / validate_canonical_handle",H),("is_reserved_handle, contains_blocked_characters, consists_of_supported_unicode_character_sets",HU+"validator.rs")],
 observe=["claim_handle","change_handle","validate_handle","handles-utils validators"])
p("H06","Handle payloads need the owner's fresh signature and cannot be replayed",
 "A handle is claimed or changed only with a payload signed by a key of the MSA that is unexpired and expires within the mortality window; a handle can be retired free of charge only by its owner and only once its claim payload has expired, so no signed claim whose handle was retired can produce a handle again (a change may be followed by a resubmission of the same change while its payload lives, because a change retires the earlier handle at once).",
 ["histories","inputs"],"every schedule of submissions and blocks, including resubmission of any earlier signed payload by anyone",
 "Replay needs a history claim - retire - resubmit across block numbers; one such scenario is tested with fixed blocks.",
 [H,"pallets/handles/src/handles_signed_extension.rs"],[("verify_signature_mortality, verify_signed_payload",H),("HandlesSignedExtension::validate","pallets/handles/src/handles_signed_extension.rs")],
 observe=["claim_handle","change_handle","retire_handle","signed extension validity"])
# ---- MSA
p("M01","A public key controls at most one MSA; key counts are exact and bounded",
 "At all times every public key maps to at most one MSA, the recorded number of keys of an MSA equals the number of keys that map to it, that number never exceeds the configured maximum, and an MSA with any key left can lose its last key only by being retired.",
 ["histories"],"every sequence of create, sponsor, add-key, delete-key and retire operations by any accounts",
 "Unit tests check counts after one or two operations; the key/count pair must agree after every interleaving.",
 [M],[("add_key / delete_key_for_msa update map and counter together",M)],
 [("PublicKeyToMsaId","key -> MSA",M),("PublicKeyCountForMsaId","MSA -> number of keys",M)],["all key-changing calls","get_public_key_count_by_msa_id","get_owner_of"])
p("M02","MSA identifiers are dense, strictly increasing and never reused",
 "Each newly created MSA receives the identifier one above the highest ever issued, starting at 1, whichever way it is created and whatever was retired before; an identifier never names two different accounts over the life of the chain.",
 ["histories"],"every interleaving of creations by all three routes, failures and retirements",
 "Tests create a handful of accounts; reuse after retirement or after failed creations is not explored.",
 [M],[("create_account / get_next_msa_id / set_msa_identifier",M)],[("CurrentMsaIdentifierMaximum","highest issued id",M)],["MsaCreated event","key lookup"])
p("M03","A signed payload takes effect at most once",
 "While a signed authorisation is within its lifetime, the same signature is accepted at most once, for whatever operation it was registered; signatures still alive are never evicted from the registry, so a full registry rejects new ones rather than forgetting live ones.",
 ["histories","schedules"],"every order of submissions, resubmissions and blocks, with the registry anywhere between empty and full",
 "The registry is a linked list with head, tail and count; tests walk fixed fill/evict sequences of one size.",
 [M,"pallets/msa/src/types.rs"],[("register_signature / enqueue_signature / dequeue of expired oldest",M)],
 [("PayloadSignatureRegistryList","signature -> (expiry, previous key)",M),("PayloadSignatureRegistryPointer","newest, oldest, count",M)],["add_public_key_to_msa","grant_delegation","create_sponsored_account_with_delegation"])
p("M04","Delegated actions need valid, timely signatures over the exact payload",
 "Adding a key, sponsoring an account and granting a delegation succeed only if every required signature verifies over exactly the submitted payload with the stated key, the payload names the caller's MSA, and its expiration lies strictly after the current block and inside the mortality window.",
 ["inputs","histories"],"every combination of signer, payload field, expiration and submitting account, at every block",
 "Tests try one wrong value per field at one block height.",
 [M],[("verify_signature, register_signature mortality check, ensure_msa_owner",M)],observe=["dispatch result"])
p("M05","A delegation is in force exactly from grant to revocation",
 "A provider is considered delegated by a user at a given block if and only if a delegation is recorded and its latest revocation, if any, is at or after that block (grants keep no start block, and a new grant clears an earlier revocation); revocation by either side is final until the user signs a new grant, and questions about future blocks are refused.",
 ["histories"],"every sequence of grant, revoke by either side, re-grant and query, at every past, current and future block",
 "Tests query one block before and after one revocation.",
 [M],[("ensure_valid_delegation, revoke_provider, try_mutate_delegation",M)],[("DelegatorAndProviderToDelegation","(delegator, provider) -> delegation",M)],["grant_delegation","revoke_delegation_by_delegator","revoke_delegation_by_provider","ensure_valid_delegation"])
p("M06","A schema permission holds exactly between its grant and its revocation",
 "A provider may act for a user under a schema at a block if and only if the delegation is in force then and the schema was granted and not revoked before that block (only the latest revocation since the latest grant counts); granting replaces the permission set, never touches other schemas' history, only admits existing schemas and respects the maximum.",
 ["histories"],"every sequence of grants with arbitrary schema lists, single-schema revocations and whole revocations, queried at every block",
 "Tests use one or two schemas and a single revocation.",
 [M,"pallets/msa/src/types.rs"],[("ensure_valid_schema_grant, upsert_schema_permissions, revoke_permissions_for_schemas",M)],
 [("Delegation.schema_permissions","schema -> block of revocation (0 = in force)","common/primitives/src/msa.rs")],["grant_delegation","revoke_schema_permissions","ensure_valid_schema_grant","get_granted_schemas_by_msa_id"])
p("M07","Only registered providers receive delegations; registration is once and final",
 "A delegation can be granted only to an MSA registered as a provider, an MSA is registered at most once with a name within the size limit and is never silently re-registered, and governance proposals act only for an existing MSA of the stated key.",
 ["histories"],"every order of provider creation (direct, governance), delegation and retirement",
 "Single happy/unhappy path per call in the tests.",
 [M],[("create_provider_for, add_provider / ensure registered provider",M)],[("ProviderToRegistryEntry","MSA -> provider name",M)],["create_provider","create_provider_via_governance","propose_to_be_provider","grant_delegation"])
p("M08","Retiring an MSA leaves nothing of it behind",
 "An MSA can be retired by a transaction only by its sole remaining key, when it is no provider, owns no handle and has no delegation in force; after retirement no key, handle or delegation of it is in force, and the key can join or create another MSA.",
 ["histories"],"every history of keys, delegations, handles and provider registrations before the retirement",
 "Each precondition is tested alone on a freshly built account.",
 [M],[("CheckFreeExtrinsicUse::ensure_msa_can_retire, retire_msa",M)],observe=["retire_msa through transaction validation"])
p("M09","A free transaction is admitted only if it will do its work",
 "Every fee-less call submitted as a transaction that passes validation at a state succeeds when executed at that state, and validation admits exactly the calls whose documented conditions hold at that state, so nobody can fill blocks with free failing transactions.",
 ["histories","inputs"],"every fee-less call with every argument and caller at every reachable state and block",
 "Tests check validation and dispatch separately on chosen states; their agreement everywhere is not tested.",
 [M,"pallets/handles/src/handles_signed_extension.rs"],[("CheckFreeExtrinsicUse::validate",M),("HandlesSignedExtension::validate","pallets/handles/src/handles_signed_extension.rs")],observe=["signed-extension validity and dispatch result on the same state"])
p("M10","The off-chain key index converges to the on-chain keys",
 "Once the off-chain worker has processed the finalized blocks up to the last change of keys, the locally indexed key list of every MSA equals the set of its keys on chain, whether indexing started before or after the keys were added, whatever blocks it skipped or saw again, whatever the node's replies were in between, and wherever in the worker the node died; a run for a finalized block the node knows catches up to it, and one without such a block changes nothing.",
 ["histories","schedules","crash_points"],"every history of key events over blocks, every finality lag, every set of worker runs including missed ones",
 "Tests run the worker once after two events.",
 ["pallets/msa/src/offchain_storage.rs",M],[("offchain_index_event, do_offchain_worker, process_offchain_events","pallets/msa/src/offchain_storage.rs")],observe=["per-MSA key list in local off-chain storage"])
# ---- schemas
p("S01","Schema ids are dense and increasing; a stored schema never changes",
 "Every registered schema receives the next identifier starting at 1, and from then on a query for it returns the same model, model type, payload location and settings for ever; identifiers not yet issued return nothing and are not accepted as valid schemas.",
 ["histories"],"every sequence of successful and failed creations by all routes and size-limit changes",
 "Tests create at most a few schemas and read them once.",
 [S],[("add_schema, get_next_schema_id",S)],[("SchemaInfos / SchemaPayloads","id -> schema",S),("CurrentSchemaIdentifierMaximum","highest id",S)],["create_schema*","get_schema_by_id","are_all_schema_ids_valid"])
p("S02","Only valid schema definitions are registered",
 "A schema is registered only when its model is a JSON object (Avro) or a well-formed Parquet model, its size lies between the minimum and the governance-set maximum (itself never above the hard limit), and the append-only setting is used only with the itemized location.",
 ["inputs","configurations"],"every model byte string, model type, location, settings and limit, by every creation route",
 "Tests try about a dozen models on one route.",
 [S,"pallets/schemas/src/serde.rs","common/primitives/src/parquet"],[("ensure_valid_model, create_schema_for",S)],observe=["create_schema, create_schema_v2, create_schema_v3, create_schema_via_governance*","set_max_schema_model_bytes"])
p("S03","Schema names list versions in registration order and never lose one",
 "A schema name is stored in canonical lower-case namespace.descriptor form, maps to its schemas in registration order with versions 1..n and no duplicates, a schema gets at most one name, malformed names are rejected, and a name query by namespace or full name returns exactly the registered versions.",
 ["histories","inputs"],"every sequence of name registrations by direct and governance routes with arbitrary name bytes",
 "Tests check about twenty literal names and one multi-version case.",
 [S,"pallets/schemas/src/types.rs"],[("SchemaName::try_parse, SchemaVersionId::add, parse_and_verify_schema_name",S)],[("SchemaNameToIds","(namespace, descriptor) -> ids",S)],["create_schema_v3","create_schema_name_via_governance","get_schema_versions"])
# ---- messages
p("G01","Every message of a block keeps a unique, ordered index",
 "Within each block and schema, messages are retrievable with strictly increasing indices in submission order, no accepted message overwrites or shadows another, stored messages of earlier blocks never change, and the index restarts with each block; a block holds at most 65535 messages and refuses further ones.",
 ["histories"],"every sequence of messages over schemas and blocks up to the block limit",
 "Tests submit a few messages in a block or two.",
 [G],[("add_message, on_initialize index reset",G)],[("MessagesV2","(block, schema, index) -> message",G),("BlockMessageIndex","next index",G)],["add_onchain_message","add_ipfs_message","get_messages_by_schema_and_block"])
p("G02","Block pagination returns every message once, in order",
 "Iterating pages of a block range with the returned continuation yields exactly the messages of the range, each once and in order, never more than a page at a time, and invalid page requests are rejected.",
 ["inputs","histories"],"every message distribution over blocks, every page size and every range",
 "Tests page over uniform fixtures; early ends, empty blocks and full pages at the range end are sampled once.",
 ["common/primitives/src/messages.rs","pallets/messages/src/rpc/src/lib.rs"],[("BlockPaginationRequest::validate, BlockPaginationResponse::check_end_condition_and_set_next_pagination","common/primitives/src/messages.rs")],observe=["messages_getBySchemaId"])
p("G03","A message is stored only for an authorised author in the right form",
 "A message is accepted only if the caller is a registered MSA key, the schema exists with the matching payload location, on-chain payloads are within the size limit, IPFS references are valid version-1 content ids, and publishing on behalf of another user requires that user's current permission for the schema.",
 ["inputs","histories"],"every caller, schema, delegation state, payload and content id",
 "Tests check each rejection once.",
 [G],[("find_schema..., validate_cid, ensure_valid_schema_grant use",G)],observe=["add_onchain_message","add_ipfs_message"])
# ---- stateful storage
p("T01","A write based on stale content never takes effect",
 "An update or deletion of a stored page succeeds only if the supplied hash equals the hash of the current content at execution time (an absent or empty page has hash 0), successive non-empty contents of a live page always have different hashes even when the bytes repeat, and a rejected write changes nothing.",
 ["histories","schedules"],"every order of concurrent writers and of repeated contents on every page",
 "Tests perform one stale write; the A-B-A history is not covered.",
 [T,TT],[("target hash check in update_itemized/update_paginated/delete_paginated",T),("page nonce in the hash","pallets/stateful-storage/src/types.rs")],observe=["apply_item_actions*","upsert_page*","delete_page*","content hash in responses"])
p("T02","Item actions apply exactly as requested and atomically",
 "Applying a list of item actions deletes exactly the addressed existing items, keeps the others in order, appends the added ones in order, enforces item and page size limits, and either applies the whole list or nothing.",
 ["inputs","histories"],"every prior item list and every action list, including duplicates, out-of-range indices and sizes at the limits",
 "Tests use up to five items with fixed actions.",
 [TT,T],[("ItemizedPage::apply_item_actions / parse","pallets/stateful-storage/src/types.rs")],observe=["apply_item_actions*","get_itemized_storage"])
p("T03","Stateful writes obey delegation, signature and schema policy",
 "A page or item of a user can be written only by the user, by a provider with that user's current permission for the schema, or with the user's signature; signature-required schemas refuse delegated writes, append-only schemas refuse deletions, and the storage kind must match the schema.",
 ["histories","inputs"],"every caller, owner, schema setting, delegation state and route",
 "Tests try each restriction on one route.",
 [T],[("check_schema_for_write, check_grants",T)],observe=["all nine storage calls"])
p("T04","Stored data of different users, schemas and pages never mix",
 "Reading the storage of one user, schema and page after any sequence of writes returns exactly what was last written under that same address; enumerating the pages of a user and schema returns exactly its live pages and nobody else's.",
 ["histories","inputs"],"every set of addresses and every interleaving of writes and deletes, including key parts that are prefixes or equal hashes of others",
 "Tests write a few addresses in one tree.",
 [TC,T],[("StatefulChildTree key derivation and prefix iteration",TC)],observe=["get_itemized_storage","get_paginated_storage"])
p("T05","Signed storage payloads bind key, content and lifetime",
 "A signature-carrying storage call succeeds only if the signature is by the stated key over exactly the submitted payload, the key belongs to the affected account, the payload is unexpired and expires within the mortality window; a payload takes effect only against exactly the page content it was signed against, so it never takes effect twice on a page that stays live and non-empty.",
 ["histories","inputs"],"every payload, signer and block, with every earlier payload resubmitted at any time",
 "Tests alter one field at a time and do not resubmit after intermediate writes.",
 [T],[("check_payload_expiration, check_signature, target_hash guard",T)],observe=["*_with_signature and *_with_signature_v2 calls"])
# ---- capacity
p("C01","Staked and unlocking tokens are always exactly frozen",
 "For every account the tokens recorded as actively staked equal the sum of its stakes to providers, the tokens frozen for staking equal active plus unlocking tokens, and no operation lets the same tokens be staked twice or withdrawn before they thaw.",
 ["histories"],"every sequence of stake, unstake, withdraw and transfers over accounts, targets and epochs",
 "Tests check one account with one target over a couple of operations.",
 [C,CT],[("set_staking_account_and_lock, decrease_active_staking_balance, do_withdraw_unstaked",C)],
 [("StakingAccountLedger","account -> active stake",C),("StakingTargetLedger","(account, provider) -> stake, capacity",C),("UnstakeUnlocks","account -> unlock chunks",C)],["stake","unstake","withdraw_unstaked"])
p("C02","Provider capacity always reflects the tokens staked to it",
 "For every provider the recorded tokens staked equal the sum over its stakers, the capacity issued is the configured fraction of the stakes minus what unstaking removed, unstaking everything removes everything it issued, and no provider keeps capacity from stake that is gone.",
 ["histories"],"every interleaving of stake and unstake by any number of stakers on any number of providers, with rounding at every amount",
 "Tests use round amounts and one staker/one target.",
 [C,CT],[("increase_stake_and_issue_capacity, reduce_capacity",C)],[("CapacityLedger","provider -> capacity details",C)],["stake","unstake","get_capacity_for"])
p("C03","Unstaked tokens thaw after the configured number of epochs, never before",
 "Each unstaked amount becomes withdrawable exactly when the thaw period has passed, withdrawing returns the sum of the thawed amounts once, unthawed amounts stay frozen, and the number of pending unlocks never exceeds the limit.",
 ["histories","schedules"],"every sequence of unstakes and withdrawals across epoch boundaries and epoch length changes",
 "Tests advance fixed epochs with fixed chunks.",
 [C,CT],[("add_unlock_chunk, unlock_chunks_reap_thawed",CT)],observe=["withdraw_unstaked","freeze on the account"])
p("C04","Capacity is refilled once per epoch and never overspent",
 "A provider can spend in an epoch at most what was issued to it (plus stake added during the epoch), refill restores the balance to the issued amount exactly at its first use in a new epoch, spending never goes below zero, and epochs advance exactly when the epoch length has elapsed.",
 ["histories","schedules"],"every interleaving of spending, staking, unstaking, replenishing and blocks, with epoch lengths changing",
 "Tests replenish and deduct once or twice in a fixed epoch.",
 [C,CT],[("Nontransferable / Replenishable impls, start_new_epoch_if_needed",C)],[("CapacityDetails","remaining, issued, last replenished epoch",CT)],["deduct","replenish_all_for","CurrentEpoch"])
# ---- time release
p("R01","Vested tokens are released exactly by the schedule, never early",
 "At every block the amount frozen by a schedule equals its per-period amount times the number of periods not yet completed, it never increases with time, reaches zero at the end block and not before, and expired schedules are pruned by claiming.",
 ["inputs","schedules"],"every start, period, count and amount, at every block including overflow boundaries",
 "Tests evaluate a handful of schedules at a handful of blocks.",
 [R,RT],[("ReleaseSchedule::frozen_amount / end / total_amount",RT)],observe=["claim","claim_for","freeze on the account"])
p("R02","Frozen vesting balance always equals the outstanding schedules",
 "After every transfer, claim or schedule update the tokens frozen for vesting cover the outstanding amounts of the account's schedules, and equal them after every claim and update, schedule counts stay bounded, invalid schedules are rejected, and a rejected operation changes neither schedules, freezes nor balances.",
 ["histories","inputs"],"every sequence of vested transfers, claims, claims for others and root updates on any accounts",
 "Tests run single operations on fresh accounts.",
 [R],[("do_transfer, do_claim, do_update_release_schedules",R)],[("ReleaseSchedules","account -> schedules",R)],["transfer","claim","claim_for","update_release_schedules"])
# ---- fees
p("P01","A capacity transaction is charged its exact fee or not admitted",
 "A call paid with capacity is admitted only if its key belongs to an MSA whose (refilled) capacity covers the fee and the account meets the minimum deposit; exactly the computed fee is deducted, tokens are never touched, and no tip is taken.",
 ["histories","inputs"],"every call, length, caller, capacity balance and epoch",
 "Tests check single calls with ample or zero capacity.",
 [F,"pallets/frequency-tx-payment/src/payment.rs"],[("withdraw_capacity_fee, CapacityAdapter::withdraw_fee",F)],observe=["transaction validity","CapacityLedger","token balances"])
p("P02","Only eligible calls are payable with capacity; batches are bounded, atomic",
 "Only calls with a stable capacity weight can be paid with capacity, alone or batched; a batch with any ineligible call or above the maximum length is refused, its fee covers the sum of all its calls, and a failing call undoes the whole batch.",
 ["inputs"],"every batch of eligible and ineligible calls of any length",
 "Tests use two-call batches.",
 [F,"runtime/frequency/src/lib.rs"],[("CapacityCalls::get_stable_weight, pay_with_capacity_batch_all",F)],observe=["transaction validity","dispatch result"])
p("P03","A capacity fee quote never falls below what will be charged",
 "For every payment with capacity of eligible calls, the fee details the node quotes hold the same base and length parts as the charge and a weight part at least as large, with no tip; an eligible call quoted on its own gets its exact weight part, and calls that cannot be paid with capacity get no quote.",
 ["inputs"],"every call, single or batched, with every size and encoded length",
 "Tests only check that some quote is returned.",
 [F,"runtime/frequency/src/lib.rs"],[("compute_capacity_fee_details, get_inner_calls",F)],observe=["fee details"])
p("F01","Blocked and free calls cannot be smuggled inside batches or proxies",
 "A utility batch is accepted only if every call in it is allowed there: nested batches, capacity payments, fee-less calls and the restricted creation calls are refused in any position, and a proxy type never admits a call outside its declared purpose.",
 ["inputs","programs"],"every batch of any length and composition and every proxy type",
 "No unit test builds mixed batches against the runtime filter.",
 ["runtime/frequency/src/lib.rs","runtime/common/src/proxy.rs"],[("BaseCallFilter, ProxyType filter","runtime/frequency/src/lib.rs")],observe=["call filter verdict"])
p("F02","Privileged actions need the governance authority assigned to them",
 "Each privileged action (scheduling, preimages, council and committee membership, democracy powers, treasury approval, rejection and spending, collator selection, and the governance calls of the chain's own pallets) is open only to root or to the collective with the share of its members in favour that the runtime assigns to it (a veto: one technical committee member), never to another account, the other collective or a smaller share.",
 ["inputs","configurations"],"every origin: root, none, signed accounts, single members and every count of ayes over every collective size",
 "No unit test exercises the runtime's origin configuration.",
 ["runtime/frequency/src/lib.rs"],[("EnsureOrigin types in the pallet Config implementations","runtime/frequency/src/lib.rs")],observe=["origin accepted or refused per power"])
p("N01","Account nonces admit each transaction once and in order",
 "A signed transaction executes only with exactly the account's current nonce, which executing it advances by one for every account that exists; older nonces are refused as stale, higher ones wait for their predecessors, and a fee-less transaction creates no entry for an account that does not exist.",
 ["histories","schedules"],"every order of submissions with every nonce, for existing and non-existing accounts and paying and fee-less calls",
 "There is no unit test of the modified nonce check.",
 ["runtime/common/src/extensions/check_nonce.rs"],[("CheckNonce::validate / pre_dispatch","runtime/common/src/extensions/check_nonce.rs")],observe=["transaction validity","account nonce"])
p("K01","Passkey transactions execute only for the proven account, once, for a fee",
 "A passkey transaction is admitted only if the inner call is permitted, the named account signed the passkey's public key, its nonce is current and it can pay the fee; executing it charges that account, advances its nonce and runs the inner call with exactly that account's authority.",
 ["histories","inputs"],"every inner call, account, proof, nonce and balance, with resubmissions",
 "Tests check each failing condition once.",
 ["pallets/passkey/src/lib.rs"],[("validate_unsigned / pre_dispatch, PasskeyNonce, ChargeTransactionPayment","pallets/passkey/src/lib.rs")],observe=["unsigned validity","account nonce and balance","inner call origin"])
# ---- common
p("A01","Avro data written under a schema reads back unchanged",
 "Records serialized under a schema and read back with the same schema equal the original values, data that does not fit the schema, or malformed containers (bytes after a complete record aside), are reported as errors and never panic, and a schema's fingerprint depends only on its canonical form.",
 ["inputs"],"every record schema with its values and every malformed model or payload byte string",
 "Tests use two schemas and a couple of literal records.",
 ["common/helpers/src/avro.rs"],[("populate_schema_and_serialize, get_schema_data_map, fingerprint_raw_schema, validate_raw_avro_schema","common/helpers/src/avro.rs")],observe=["avro helper functions"])
p("U01","Values keep their meaning on the wire",
 "The identifiers, signed payloads and query answers that cross the node's boundary are encoded field by field in their declared order, with nothing lost: the bytes read back to the same value and no proper part of them reads as one; the JSON rendering shows every field under its name, bytes as hex, text as text, numbers with all their digits, absent optional fields left out, and reads back to the same value; what a wallet signs is exactly the payload's bytes between <Bytes> and </Bytes>; text is only taken as text if it is valid UTF-8.",
 ["inputs"],"every value of every identifier, signed payload and answer type, up to the largest numbers and sizes",
 "Tests convert single values.",
 ["common/primitives/src/utils.rs","common/primitives/src/msa.rs","common/primitives/src/messages.rs","common/primitives/src/schema.rs","common/primitives/src/handles.rs","common/primitives/src/stateful_storage.rs","common/primitives/src/rpc.rs","pallets/msa/src/types.rs","pallets/stateful-storage/src/types.rs"],
 [("as_hex, as_hex_option, as_string, as_string_option, wrap_binary_data","common/primitives/src/utils.rs"),("signed payload types","pallets/stateful-storage/src/types.rs"),("AddKeyData, AddProvider","pallets/msa/src/types.rs")],observe=["encoded bytes, decoding, JSON rendering and wrap_binary_data of a value"])
p("X01","Storage migrations keep all data and run once",
 "A storage migration run on any old-format state yields a new-format state holding the same information: every message keeps its block, schema, position, MSA, provider and content; every schema keeps its definition; every account's lock of released-later tokens becomes a freeze of the tokens not yet released, never more than the lock held; it bumps the stored version, and running it again, or on a state that is already new, changes nothing.",
 ["histories","crash_points"],"every old-format state, migrated zero, one or several times, with the stored version anywhere",
 "Migration tests use one fixture each.",
 ["pallets/messages/src/migration/v2.rs","pallets/schemas/src/migration/v4.rs","pallets/time-release/src/migration/v2.rs"],
 [("on_runtime_upgrade of each migration","pallets/*/src/migration")],observe=["state before and after"])
p("U02","Missing nonces and block events are told exactly",
 "Asked which nonces keep an account's transactions from running, the node answers exactly those from the first one the account still needs up to the last one held back that no transaction held back has, in ascending order, the first thousand at most: whatever other accounts hold, however many transactions share a nonce, in whatever order they arrived, and also while the pool still holds transactions the newest block has made obsolete; submitting them lets everything held back run. The events told for a block are that block's own, all of them and in order, each with its pallet, variant and data, and with the position of its transaction if and only if it belongs to one.",
 ["schedules","histories"],"every state of the transaction pool reached by submissions in any order, new blocks, evictions and tidying, including pools behind the chain; every list of events of a block",
 "No test looks at a pool; the events are tested with one record.",
 ["node/service/src/rpc/frequency_rpc.rs","common/primitives/src/rpc.rs"],
 [("get_missing_nonces, get_events","node/service/src/rpc/frequency_rpc.rs"),("RpcEvent from EventRecord","common/primitives/src/rpc.rs")],
 [("transaction pool","ready and future transactions with their tags, and the account's nonce on chain","node/service/src/rpc/frequency_rpc.rs")],
 ["frequency_getMissingNonceValues","frequency_getEvents"])
p("Q01","What the node answers over RPC is what is on chain",
 "After every history each question the node answers over RPC is answered from the state of the chain, completely and without side effects: which of a list of accounts delegated to a provider (or granted a schema) at a block, in the order asked; an account's delegations with their permissions and the block each ends; its keys as the node's local index has them, an unreadable entry or an absent index being an error; its handle, the account of a handle, whether a base handle can be claimed, the next suffixes (one if no number is given, a hundred at most); a schema, the versions of a name, whether a model is valid; the items and pages of an account under a schema, refused when the schema is of another kind; the messages of a schema, page by page. What is asked for but does not exist is answered by nothing, not by an error or a default.",
 ["histories","inputs"],"every history of transactions on the whole runtime and every question, including questions about what does not exist, was revoked or retired, and about blocks past and future",
 "The RPC crates' tests use a stub instead of a chain, and never compare an answer with what transactions did.",
 ["pallets/msa/src/rpc/src/lib.rs","pallets/handles/src/rpc/src/lib.rs","pallets/schemas/src/rpc/src/lib.rs","pallets/stateful-storage/src/rpc/src/lib.rs","pallets/messages/src/rpc/src/lib.rs","runtime/frequency/src/lib.rs","common/primitives/src/utils.rs"],
 [("RPC handlers over the runtime's interfaces","pallets/*/src/rpc/src/lib.rs"),("impl_runtime_apis","runtime/frequency/src/lib.rs"),("JSON form of the answers","common/primitives/src/utils.rs")],
 observe=["every frequency-specific RPC method's serialized answer"])
p("Q02","The parts of the chain agree with each other",
 "In every state the whole chain reaches, whatever is referred to exists: a key's, provider's, delegation's, handle's, page's and message's account has been created, a delegation's provider is registered and is not the delegator itself, a permission's, page's, item's, message's and name version's schema exists and is of the kind it is used for, every handle resolves to its owner and every resolvable handle is its owner's, and nothing claims to have happened in a later block. No schema is listed twice among the names. An account no key controls any more keeps no handle, no active delegation in either role, and authors nothing.",
 ["histories"],"every interleaving of transactions of all of the chain's own parts (accounts, handles, schemas, messages, stateful storage) on the composed runtime, and of blocks",
 "Each pallet's tests run against mocks of the others; the composed runtime is only ever tested call by call.",
 ["runtime/frequency/src/lib.rs","pallets/msa/src/lib.rs","pallets/handles/src/lib.rs","pallets/schemas/src/lib.rs","pallets/messages/src/lib.rs","pallets/stateful-storage/src/lib.rs"],
 [("wiring of the pallets (SchemaValidator, HandleProvider, MsaInfoProvider, SchemaGrantValidator, SchemaProvider)","runtime/frequency/src/lib.rs"),("CheckFreeExtrinsicUse","pallets/msa/src/lib.rs")],
 observe=["storage of all pallets after every transaction"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
