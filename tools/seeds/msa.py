import json, os
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
L = "pallets/msa/src/lib.rs"
def grant(by, auth, key, sch, exp): return {"k": "grant", "by": by, "auth": auth, "key": key, "signer": key, "tamper": "none", "schemas": sch, "exp": exp}
def addkey(owner, key, msa, exp): return {"k": "addkey", "owner": owner, "key": key, "osigner": owner, "nsigner": key, "otamper": "none", "ntamper": "none", "msa": msa, "exp": exp}
def tx(k, key, **kw): return dict({"k": k, "key": key, "free": True}, **kw)
def blk(n): return {"k": "block", "n": n}
SEEDS = [
 dict(id="m01-own-key-added-again", property="M01", driver="d-msa", cfg=dict(cfg("msa_retire"), maxkeys=3),
  needs="a key of an MSA added to the same MSA again with a fresh signed payload",
  breaks="adding a key the MSA already has succeeds and counts it twice, so the count disagrees with the keys",
  edits=[(L, "ensure!(maybe_msa_id.is_none(), Error::<T>::KeyAlreadyRegistered);", "ensure!(\n\t\t\t\tmaybe_msa_id.map_or(true, |id| id == msa_id),\n\t\t\t\tError::<T>::KeyAlreadyRegistered\n\t\t\t);")],
  acts=[addkey("k2", "k3", 2, 4), addkey("k3", "k2", 2, 3)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err"), (1, "t.cnt.1", 2)]),
 dict(id="m02-last-id-handed-back", property="M02", driver="d-msa", cfg="msa_keys",
  needs="the most recently created MSA retired before the next one is created",
  breaks="retiring the newest account frees its identifier, which the next account receives",
  edits=[(L, "\t\t\t\t\tSelf::delete_key_for_msa(msa_id, &who)?;\n\t\t\t\t\tlet event = Event::PublicKeyDeleted { key: who };",
   "\t\t\t\t\tSelf::delete_key_for_msa(msa_id, &who)?;\n\t\t\t\t\tif Self::get_current_msa_identifier_maximum() == msa_id {\n\t\t\t\t\t\tSelf::set_msa_identifier(msa_id.saturating_sub(1))?;\n\t\t\t\t\t}\n\t\t\t\t\tlet event = Event::PublicKeyDeleted { key: who };")],
  acts=[{"k": "create", "key": "k1"}, tx("retire", "k1"), {"k": "create", "key": "k2"}],
  expect=[(2, "t.max", 2), (2, "t.key.k2", 2)]),
 dict(id="m03-evicts-by-newest", property="M03", driver="d-msa", cfg="msa_sigs",
  needs="a full registry whose oldest entry lives longer than its newest one",
  breaks="a live signature is forgotten because the newest remembered one has expired, and can be used again",
  edits=[(L, "\t\t\t\tcurrent_block.gt(&expire_block_number),\n", "\t\t\t\tcurrent_block.gt(&expire_block_number.min(pointer.newest_expires_at)),\n")],
  acts=[grant("k1", 1, "k2", [], 4), blk(1), grant("k1", 1, "k2", [], 5), grant("k1", 1, "k2", [], 3), blk(2), grant("k1", 1, "k2", [], 6)],
  expect=[(0, "r.r", "ok"), (2, "r.r", "ok"), (3, "r.r", "ok"), (5, "r.r", "err")]),
 dict(id="m04-window-one-too-long", property="M04", driver="d-msa", cfg="msa_deleg",
  needs="an expiration exactly at the end of the mortality window",
  breaks="a payload expiring exactly at the window's end is accepted",
  edits=[(L, "ensure!(max_lifetime > signature_expires_at, Error::<T>::ProofNotYetValid);", "ensure!(max_lifetime >= signature_expires_at, Error::<T>::ProofNotYetValid);")],
  acts=[grant("k1", 1, "k3", [1], 10), grant("k1", 1, "k3", [1], 9)],
  expect=[(0, "r.r", "err"), (1, "r.r", "ok")]),
 dict(id="m05-empty-grant-keeps-revocation", property="M05", driver="d-msa", cfg="msa_deleg",
  needs="a revoked delegation granted again with an empty schema list",
  breaks="the new signed grant is reported as done but the delegation stays revoked",
  edits=[(L, "\t\t\tdelegation.revoked_at = BlockNumberFor::<T>::zero();\n", "\t\t\tif !schema_ids.is_empty() {\n\t\t\t\tdelegation.revoked_at = BlockNumberFor::<T>::zero();\n\t\t\t}\n")],
  acts=[grant("k1", 1, "k3", [1], 8), tx("revd", "k3", id=1), grant("k1", 1, "k3", [], 9), blk(1), {"k": "ask", "b": -1}],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (2, "r.r", "ok"), (4, "r.valid_set.0.0", 3)]),
 dict(id="m06-revocation-moves-on", property="M06", driver="d-msa", cfg="msa_deleg",
  needs="a schema dropped by one grant and still absent from a later grant",
  breaks="the block at which the permission was revoked moves to the later grant, so it counts as in force in between",
  edits=[(L, "\t\t\t\t\t\tSome(block) =>\n\t\t\t\t\t\t\tif *block == BlockNumberFor::<T>::zero() {\n\t\t\t\t\t\t\t\trevoke_ids.push(*existing_schema_id);\n\t\t\t\t\t\t\t},\n",
   "\t\t\t\t\t\tSome(_) => revoke_ids.push(*existing_schema_id),\n")],
  acts=[grant("k1", 1, "k3", [2, 1], 8), grant("k1", 1, "k3", [1], 8), blk(1), grant("k1", 1, "k3", [1], 9), {"k": "ask", "b": 2}],
  expect=[(3, "r.r", "ok"), (4, "r.grants_set.0.2", 1), (4, "r.grants_set.1", None)]),
 dict(id="m07-same-name-again", property="M07", driver="d-msa", cfg="msa_prov",
  needs="a provider registering again with the name it already has",
  breaks="a second registration of the same MSA with the same name succeeds and is announced again",
  edits=[(L, "\t\t\t\tensure!(\n\t\t\t\t\tmaybe_metadata.take().is_none(),\n\t\t\t\t\tError::<T>::DuplicateProviderRegistryEntry\n\t\t\t\t);\n",
   "\t\t\t\tensure!(\n\t\t\t\t\tmaybe_metadata\n\t\t\t\t\t\t.take()\n\t\t\t\t\t\t.map_or(true, |entry| entry.provider_name == bounded_name),\n\t\t\t\t\tError::<T>::DuplicateProviderRegistryEntry\n\t\t\t\t);\n")],
  acts=[{"k": "create", "key": "k1"}, {"k": "provider", "key": "k1", "name": "P"}, {"k": "provider", "key": "k1", "name": "P"}],
  expect=[(1, "r.r", "ok"), (2, "r.r", "err")]),
 dict(id="m08-bare-delegation-overlooked", property="M08", driver="d-msa", cfg="msa_retire",
  needs="a delegation in force that carries no schema permission",
  breaks="an MSA with such a delegation can be retired and the delegation stays in force",
  edits=[(L, "\t\t\tPallet::<T>::ensure_valid_delegation(provider_id, delegator_id, None).is_ok()\n", "\t\t\tPallet::<T>::ensure_valid_delegation(provider_id, delegator_id, None)\n\t\t\t\t.map_or(false, |delegation| !delegation.schema_permissions.is_empty())\n")],
  acts=[grant("k1", 1, "k2", [], 8), tx("retire", "k2")],
  expect=[(0, "r.r", "ok"), (1, "t.key.k2", 2)]),
 dict(id="m09-shared-msa-deletes-any-key", property="M09", driver="d-msa", cfg="msa_keys",
  needs="a key deletion naming a key of another MSA with a higher identifier",
  breaks="validation admits a free deletion that then fails, because it compares identifiers by order",
  edits=[(L, "\t\t\tmaybe_owner_msa_id == msa_id_for_key_to_delete,\n", "\t\t\tmaybe_owner_msa_id <= msa_id_for_key_to_delete,\n")],
  acts=[{"k": "create", "key": "k1"}, {"k": "create", "key": "k2"}, tx("del", "k1", **{"del": "k2"})],
  expect=[(2, "r.r", "err")]),
]
