import json
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
L = "pallets/msa/src/lib.rs"; C = "pallets/capacity/src/lib.rs"; H = "pallets/handles/src/lib.rs"; G = "pallets/messages/src/lib.rs"
HU = "pallets/handles/src/handles-utils/src/"
def grant(by, auth, key, sch, exp): return {"k": "grant", "by": by, "auth": auth, "key": key, "signer": key, "tamper": "none", "schemas": sch, "exp": exp}
def addkey(owner, key, msa, exp): return {"k": "addkey", "owner": owner, "key": key, "osigner": owner, "nsigner": key, "otamper": "none", "ntamper": "none", "msa": msa, "exp": exp}
def tx(k, key, **kw): return dict({"k": k, "key": key, "free": True}, **kw)
def blk(n): return {"k": "block", "n": n}
def stake(x, m, n): return {"k": "stake", "acc": x, "target": m, "amount": n}
def unstake(x, m, n): return {"k": "unstake", "acc": x, "target": m, "amount": n}
def claim(k, key, base, exp, signer=None, tamper="none"):
    return {"k": k, "key": key, "signer": signer or key, "base": base, "exp": exp, "tamper": tamper}
MB = {k: v for k, v in cfg("messages_pages").items() if k not in ("mc",)}
def say(by="o1", of="", s=1, x=("a", 1)): return {"k": "onchain", "by": by, "of": of, "s": s, "c": list(x)}
def link(by="o1", s=2, cid="ok_b32", n=9): return {"k": "ipfs", "by": by, "s": s, "cid": cid, "len": n}
def walk(s=1, frm=1, to=4, size=2): return {"k": "walk", "s": s, "from": frm, "to": to, "size": size}
SEEDS = [
 dict(id="m01-limit-off-by-one", property="M01", driver="d-msa", cfg=dict(cfg("msa_keys"), maxkeys=1, window=9),
  needs="an MSA that already holds the maximum number of keys and one more signed key addition",
  breaks="the limit is compared before counting the new key, so an MSA ends up with one key more than the maximum",
  edits=[(L, "\t\t\t\t\tincremented_key_count <= T::MaxPublicKeysPerMsa::get(),\n", "\t\t\t\t\t*key_count <= T::MaxPublicKeysPerMsa::get(),\n")],
  acts=[{"k": "create", "key": "k1"}, addkey("k1", "k2", 1, 4)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err"), (1, "t.key.k2", None)]),
 dict(id="m02-highest-id-given-twice", property="M02", driver="d-msa", cfg=dict(cfg("msa_prov"), pre=[]),
  needs="the counter of identifiers at the end of its range, and two more accounts",
  breaks="the last identifier is issued again and again instead of refusing, so it names several accounts",
  edits=[(L, "\t\tlet next = Self::get_current_msa_identifier_maximum()\n\t\t\t.checked_add(1)\n\t\t\t.ok_or(Error::<T>::MsaIdOverflow)?;\n",
   "\t\tlet next = Self::get_current_msa_identifier_maximum().saturating_add(1);\n\t\tensure!(next != 0, Error::<T>::MsaIdOverflow);\n")],
  acts=[{"k": "create", "key": "k1"}, {"k": "create", "key": "k2"}, {"k": "create", "key": "k3"}],
  expect=[(1, "r.r", "ok"), (2, "r.r", "err")]),
 dict(id="m03-first-signature-not-remembered", property="M03", driver="d-msa", cfg="msa_sigs",
  needs="the very first signature the registry holds, submitted again before any other",
  breaks="the newest signature is only compared once a second one is registered, so the first takes effect twice",
  edits=[(L, "!(pointer.count != 0 && pointer.newest.eq(signature)),", "!(pointer.count > 1 && pointer.newest.eq(signature)),")],
  acts=[grant("k1", 1, "k2", [], 4), grant("k1", 1, "k2", [], 4)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err")]),
 dict(id="m04-payload-may-name-the-user", property="M04", driver="d-msa", cfg="msa_deleg",
  needs="a grant whose signed payload names the user's own MSA instead of the provider's",
  breaks="a payload naming another MSA than the caller's is accepted, so any provider can use it",
  edits=[(L, "\t\t\tensure!(\n\t\t\t\tadd_provider_payload.authorized_msa_id == provider_id.0,\n", "\t\t\tensure!(\n\t\t\t\t[provider_id.0, delegator_id.0].contains(&add_provider_payload.authorized_msa_id),\n")],
  acts=[grant("k1", 3, "k3", [1], 8), grant("k1", 2, "k3", [1], 8), grant("k1", 1, "k3", [1], 8)],
  expect=[(0, "r.r", "err"), (1, "r.r", "err"), (2, "r.r", "ok")]),
 dict(id="m05-revoked-bare-delegation-forgotten", property="M05", driver="d-msa", cfg="msa_deleg",
  needs="a delegation without any schema revoked, then a question about a block up to its revocation",
  breaks="the record is dropped with the revocation, so the delegation is denied for blocks at which it was in force",
  edits=[(L, "\t\t\t\tinfo.revoked_at = current_block;\n\t\t\t\t*maybe_info = Some(info);\n", "\t\t\t\tinfo.revoked_at = current_block;\n\t\t\t\tif !info.schema_permissions.is_empty() {\n\t\t\t\t\t*maybe_info = Some(info);\n\t\t\t\t}\n")],
  acts=[grant("k1", 1, "k3", [], 8), tx("revd", "k3", id=1), blk(1), {"k": "ask", "b": 1}],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (3, "r.valid_set.0.0", 3)]),
 dict(id="m06-dropped-with-the-old-delegation", property="M06", driver="d-msa", cfg="msa_deleg",
  needs="a revoked delegation granted again without one of its schemas, then a question about a block in between",
  breaks="the dropped permission ends with the earlier revocation instead of the new grant",
  edits=[(L, "\t\t\tlet current_block = frame_system::Pallet::<T>::block_number();\n\n\t\t\t// Revoke any that",
   "\t\t\tlet mut current_block = frame_system::Pallet::<T>::block_number();\n\t\t\tif !delegation.revoked_at.is_zero() {\n\t\t\t\tcurrent_block = delegation.revoked_at;\n\t\t\t}\n\n\t\t\t// Revoke any that")],
  acts=[grant("k1", 1, "k3", [2, 1], 8), tx("revd", "k3", id=1), blk(1), grant("k1", 1, "k3", [1], 9), blk(1), {"k": "ask", "b": 2}],
  expect=[(1, "r.r", "ok"), (3, "r.r", "ok")]),
 dict(id="m07-governed-key-without-msa", property="M07", driver="d-msa", cfg="msa_prov",
  needs="a governance approval for a key whose MSA is gone or never existed",
  breaks="the approval registers MSA 0 as a provider instead of failing",
  edits=[(L, "\t\t\tT::CreateProviderViaGovernanceOrigin::ensure_origin(origin)?;\n\t\t\tlet provider_msa_id = Self::ensure_valid_msa_key(&provider_key)?;\n",
   "\t\t\tT::CreateProviderViaGovernanceOrigin::ensure_origin(origin)?;\n\t\t\tlet provider_msa_id = Self::get_msa_by_public_key(&provider_key).unwrap_or_default();\n")],
  acts=[{"k": "govern", "key": "k3", "name": "P", "root": True}],
  expect=[(0, "r.r", "err")]),
 dict(id="m08-only-the-first-delegation", property="M08", driver="d-msa", cfg=dict(cfg("msa_deleg")),
  needs="a user with two delegations, the first in storage order revoked, retiring its MSA",
  breaks="only one delegation is looked at, so an MSA is retired while the other stays in force",
  edits=[(L, "\t\t.any(|provider_id| {\n\t\t\tPallet::<T>::ensure_valid_delegation(provider_id, delegator_id, None).is_ok()\n\t\t});",
   "\t\t.next()\n\t\t.map_or(false, |provider_id| {\n\t\t\tPallet::<T>::ensure_valid_delegation(provider_id, delegator_id, None).is_ok()\n\t\t});")],
  acts=[grant("k1", 1, "k3", [], 8), grant("k2", 2, "k3", [], 8), tx("revd", "k3", id=1), blk(1), tx("retire", "k3")],
  expect=[(2, "r.r", "ok"), (4, "t.key.k3", 3)]),
 dict(id="m09-key-already-gone", property="M09", driver="d-msa", cfg="msa_keys",
  needs="a free deletion of a key that belongs to no MSA (any more)",
  breaks="the deletion passes validation and then fails, so it can be repeated for free",
  edits=[(L, "\t\t\tPallet::<T>::ensure_valid_msa_key(&public_key_to_delete)\n\t\t\t\t.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidMsaKey as u8))?;\n", "\t\t\tPallet::<T>::ensure_valid_msa_key(&public_key_to_delete).unwrap_or(maybe_owner_msa_id);\n")],
  acts=[{"k": "create", "key": "k1"}, tx("del", "k1", **{"del": "k2"})],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err")]),
 dict(id="c01-thawed-counted-out-early", property="C01", driver="d-capacity", cfg="capacity_small",
  needs="a chunk that has thawed but is not withdrawn yet, then a further stake",
  breaks="staking more leaves thawed but unwithdrawn chunks out of the freeze, so less is frozen than active plus unlocking",
  edits=[(C, "\t\tlet unlocks = Self::get_unstake_unlocking_for(staker).unwrap_or_default();\n\t\tlet total_to_lock", "\t\tlet mut unlocks = Self::get_unstake_unlocking_for(staker).unwrap_or_default();\n\t\tunlock_chunks_reap_thawed::<T>(&mut unlocks, Self::get_current_epoch());\n\t\tlet total_to_lock")],
  acts=[stake("a", "1", 8), unstake("a", "1", 2), {"k": "block", "n": 2}, stake("a", "1", 1)],
  expect=[(1, "t.frz.a", 8), (3, "r.r", "ok"), (3, "t.frz.a", 9)]),
 dict(id="c02-full-only-when-alone", property="C02", driver="d-capacity", cfg="capacity_small",
  needs="a staker withdrawing its whole stake from a provider that others stake to, where rounding differs",
  breaks="unstaking everything removes a rounded share of the provider's capacity instead of what the stake issued",
  edits=[(C, "if staking_target_details.amount.eq(&amount) {", "if capacity_details.total_tokens_staked.eq(&amount) {")],
  acts=[stake("a", "1", 4), stake("b", "1", 7), unstake("a", "1", 4)],
  expect=[(1, "r.r", "ok"), (2, "r.r", "ok"), (2, "t.cap.1.iss", 3)]),
 dict(id="c03-thawed-chunk-makes-room", property="C03", driver="d-capacity", cfg="capacity_small",
  needs="a full list of unlocking chunks of which one has thawed, and a further unstake",
  breaks="the thawed chunk is dropped to make room without being paid out, so its tokens stay frozen for ever",
  edits=[(C, "\t\tunlocks\n\t\t\t.try_push(unlock_chunk)\n", "\t\tif unlocks.is_full() {\n\t\t\tunlock_chunks_reap_thawed::<T>(&mut unlocks, current_epoch);\n\t\t}\n\t\tunlocks\n\t\t\t.try_push(unlock_chunk)\n")],
  acts=[stake("a", "1", 9), unstake("a", "1", 1), unstake("a", "1", 1), {"k": "block", "n": 2}, unstake("a", "1", 1)],
  expect=[(2, "r.r", "ok"), (4, "r.r", "err")]),
 dict(id="h01-canonical-only", property="H01", driver="d-hdata",
  needs="a character with a compatibility decomposition only (full-width or ligature letters)",
  breaks="look-alikes that are compatibility characters keep a canonical form of their own",
  edits=[(HU + "converter.rs", "\t\t.nfkd()\n", "\t\t.nfd()\n")],
  cases=[{"op": "same", "s": [0x62, 0x6F, 0x62], "v": [0xFF42, 0x6F, 0x62]}],
  expect=[(0, "out.canon", [0x62, 0x6F, 0x62]), (0, "out.vcanon", [0x62, 0x6F, 0x62])]),
 dict(id="h03-second-handle-after-expiry", property="H03", driver="d-handles", cfg="handles_small",
  needs="a second claim by an MSA whose first claim payload has expired",
  breaks="the MSA gets a second handle and both resolve to it",
  edits=[(H, "\t\t\t\tSelf::get_display_name_for_msa_id(msa_id).is_none(),\n", "\t\t\t\tSelf::get_display_name_for_msa_id(msa_id).map_or(true, |(_, expiration)| {\n\t\t\t\t\texpiration < frame_system::Pallet::<T>::block_number()\n\t\t\t\t}),\n")],
  acts=[claim("claim", "k1", "a1", 2), blk(3), claim("claim", "k1", "b", 5)],
  expect=[(0, "r.r", "ok"), (2, "r.r", "err")]),
 dict(id="h04-counter-of-unused-base-cleared", property="H04", driver="d-handles", cfg="handles_small",
  needs="the only holder of a base retiring its handle, and the base claimed again",
  breaks="the counter of a base nobody uses any more is dropped, so its suffixes are issued a second time",
  edits=[(H, "\t\t\tCanonicalBaseHandleAndSuffixToMSAId::<T>::remove(canonical_base, suffix_num);\n", "\t\t\tCanonicalBaseHandleAndSuffixToMSAId::<T>::remove(canonical_base.clone(), suffix_num);\n\t\t\tif CanonicalBaseHandleAndSuffixToMSAId::<T>::iter_key_prefix(canonical_base.clone())\n\t\t\t\t.next()\n\t\t\t\t.is_none()\n\t\t\t{\n\t\t\t\tCanonicalBaseHandleToSuffixIndex::<T>::remove(canonical_base);\n\t\t\t}\n")],
  acts=[claim("claim", "k1", "a1", 2), {"k": "retire", "key": "k1"}, claim("claim", "k1", "a2", 2)],
  expect=[(0, "r.r", "ok"), (2, "r.r", "ok")]),
 dict(id="h06-change-keeps-earlier-expiry", property="H06", driver="d-handles", cfg="handles_small",
  needs="a handle changed with a payload that lives longer than the one it was claimed with, then retired free of charge in between",
  breaks="the handle can be retired by the earlier payload's expiry, so the later payload can be submitted again",
  edits=[(H, "\t\t\tSelf::get_display_name_for_msa_id(msa_id).ok_or(Error::<T>::MSAHandleDoesNotExist)?;\n\n\t\t\t// Retire old handle", "\t\t\tlet (_, claimed_until) = Self::get_display_name_for_msa_id(msa_id)\n\t\t\t\t.ok_or(Error::<T>::MSAHandleDoesNotExist)?;\n\n\t\t\t// Retire old handle"),
         (H, "\t\t\tlet display_handle = Self::do_claim_handle(msa_id, payload.clone())?;\n", "\t\t\tlet display_handle = Self::do_claim_handle(msa_id, payload.clone())?;\n\t\t\tMSAIdToDisplayName::<T>::mutate_extant(msa_id, |(_, expiration)| {\n\t\t\t\t*expiration = claimed_until;\n\t\t\t});\n")],
  acts=[claim("claim", "k1", "a1", 2), blk(1), claim("change", "k1", "b", 3), blk(1), {"k": "retiretx", "key": "k1"}, claim("claim", "k1", "b", 3)],
  expect=[(0, "r.r", "ok"), (2, "r.r", "ok")]),
 dict(id="g01-same-text-told-once", property="G01", driver="d-msg", cfg=MB,
  needs="two messages with the same payload by the same author in one block",
  breaks="of two identical messages of a block only one is returned",
  edits=[(G, "messages.sort_by(|a, b| a.index.cmp(&b.index));", "messages.sort_by(|a, b| a.index.cmp(&b.index));\n\t\t\t\tmessages.dedup_by(|a, b| a.payload == b.payload && a.cid == b.cid && a.msa_id == b.msa_id);")],
  acts=[say(), say(), blk(1), walk(size=9)], expect=[(3, "r.got.0.i", 0), (3, "r.got.1.i", 1)]),
 dict(id="g03-any-location-but-chain", property="G03", driver="d-msg", cfg=MB,
  needs="an IPFS reference sent for a schema of stateful storage",
  breaks="an IPFS message is stored for an itemized or paginated schema, where nobody can read it",
  edits=[(G, "\t\t\t\t\tschema.payload_location == PayloadLocation::IPFS,\n", "\t\t\t\t\tschema.payload_location != PayloadLocation::OnChain,\n")],
  acts=[link(), link(s=4)], expect=[(0, "r.r", "ok"), (1, "r.r", "err")]),
]
