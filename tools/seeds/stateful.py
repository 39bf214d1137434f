import json
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
L, T, C = ("pallets/stateful-storage/src/" + f for f in ("lib.rs", "types.rs", "stateful_child_tree.rs"))
SCH = cfg("stateful_items")["schemas"]
BASE = {k: v for k, v in cfg("stateful_items").items() if k not in ("mc", "pre")}
def base(pre, **kw): return dict(BASE, pre=pre, **kw)
OWN = [{"k": "key", "key": "o1", "m": "o"}, {"k": "key", "key": "p1", "m": "p"}]
E = [0, []]
def page(by, owner, s, p, target, data): return {"k": "write", "w": "page", "by": by, "owner": owner, "s": s, "p": p, "target": target, "acts": [], "data": data}
def drop(by, owner, s, p, target): return dict(page(by, owner, s, p, target, ["", 0]), w="drop")
def items(by, owner, s, target, acts): return {"k": "write", "w": "items", "by": by, "owner": owner, "s": s, "p": 0, "target": target, "acts": acts, "data": ["", 0]}
def signed(a, key, exp, v=2, **kw):
    a = {k: x for k, x in a.items() if k not in ("by", "owner")}
    return dict(a, k="signed", key=key, signer=key, msa="o", exp=exp, v=v, tamper="none", **kw)
A, B = ["a", 1], ["b", 1]
add = lambda x: ["add", x]
rm = lambda i: ["del", i]
SEEDS = [
 dict(id="t01-same-bytes-keep-nonce", property="T01", driver="d-state", cfg=base(OWN),
  needs="a page rewritten with the bytes it already holds",
  breaks="rewriting the same bytes leaves the content hash as it was, so an earlier writer's stale hash is accepted",
  edits=[(L, "\t\tnew_page.nonce = existing_page.nonce.wrapping_add(1);\n\n\t\tStatefulChildTree", "\t\tnew_page.nonce = match new_page.data == existing_page.data {\n\t\t\ttrue => existing_page.nonce,\n\t\t\tfalse => existing_page.nonce.wrapping_add(1),\n\t\t};\n\n\t\tStatefulChildTree")],
  acts=[page("o1", "o", 2, 0, E, A), page("o1", "o", 2, 0, [1, [A]], A), page("o1", "o", 2, 0, [1, [A]], B)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (2, "r.r", "err")]),
 dict(id="t01-empty-page-deleted-on-any-hash", property="T01", driver="d-state", cfg=base(OWN),
  needs="a delete carrying the hash zero aimed at a live page",
  breaks="a delete with the hash of an absent page removes a page that has content",
  edits=[(L, "\t\t\tensure!(target_hash == prev_content_hash, Error::<T>::StalePageState);\n\t\t\tStatefulChildTree::<T::KeyHasher>::kill(",
   "\t\t\tensure!(\n\t\t\t\ttarget_hash == prev_content_hash || target_hash == PageHash::default(),\n\t\t\t\tError::<T>::StalePageState\n\t\t\t);\n\t\t\tStatefulChildTree::<T::KeyHasher>::kill(")],
  acts=[page("o1", "o", 2, 0, E, A), drop("o1", "o", 2, 0, E)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err"), (1, "t.page_set.0.m", "o")]),
 dict(id="t01-nonce-sticks-at-the-end", property="T01", driver="d-state", cfg=base(OWN + [{"k": "worn", "m": "o", "s": 2, "p": 0, "n": 65534, "v": [A]}]),
  needs="a page rewritten 65535 times",
  breaks="the nonce stops growing, so rewriting the same bytes no longer changes the hash",
  edits=[(L, "new_page.nonce = existing_page.nonce.wrapping_add(1);", "new_page.nonce = existing_page.nonce.saturating_add(1);")],
  acts=[page("o1", "o", 2, 0, [65534, [A]], A), page("o1", "o", 2, 0, [65535, [A]], A), page("o1", "o", 2, 0, [65535, [A]], B)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (2, "r.r", "err")]),
 dict(id="t02-delete-index-after-earlier-delete", property="T02", driver="d-state", cfg=base(OWN, blob=6, ipage=40),
  needs="one call that deletes an item and, after it in the list, an item with a higher index",
  breaks="indices shift after the first deletion in a call, so another item is deleted than the one addressed",
  edits=[(T, "\t\t\t\t\tensure!(\n\t\t\t\t\t\tparsed.items.contains_key(&index),\n\t\t\t\t\t\tPageError::InvalidAction(\"item index is invalid\")\n\t\t\t\t\t);\n\t\t\t\t\tparsed.items.remove(&index);\n",
   "\t\t\t\t\tlet key = parsed.items.keys().nth(*index as usize).copied();\n\t\t\t\t\tlet key = key.filter(|k| k >= index).ok_or(PageError::InvalidAction(\n\t\t\t\t\t\t\"item index is invalid\",\n\t\t\t\t\t))?;\n\t\t\t\t\tparsed.items.remove(&key);\n")],
  acts=[items("o1", "o", 1, E, [add(A), add(B), add(["c", 1])]), items("o1", "o", 1, [1, [A, B, ["c", 1]]], [rm(0), rm(1)])],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (1, "t.page_set.0.v", [["c", 1]])]),
 dict(id="t02-delete-adds-of-same-call-lost", property="T02", driver="d-state", cfg=base(OWN, blob=6, ipage=40),
  needs="a call whose list adds an item and later deletes one",
  breaks="items added before a deletion in the same list are lost",
  edits=[(T, "\t\t\t\t\tparsed.items.remove(&index);\n", "\t\t\t\t\tparsed.items.remove(&index);\n\t\t\t\t\tif parsed.items.is_empty() {\n\t\t\t\t\t\tadd_buffer.clear();\n\t\t\t\t\t}\n")],
  acts=[items("o1", "o", 1, E, [add(A)]), items("o1", "o", 1, [1, [A]], [add(B), rm(0)])],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (1, "t.page_set.0.v", [B])]),
 dict(id="t03-append-only-deletes-in-v2-lists", property="T03", driver="d-state", cfg=base(OWN),
  needs="a second-version signed item list of an append-only schema that ends with an addition and deletes before it",
  breaks="only the last action of a signed list decides whether it deletes, so append-only items can be removed",
  edits=[(L, "\t\t\t\tpayload.expiration,\n\t\t\t)?;\n\t\t\tSelf::check_signature(&proof, &delegator_key.clone(), payload.encode())?;\n\t\t\tlet state_owner_msa_id = T::MsaInfoProvider::ensure_valid_msa_key(&delegator_key)\n\t\t\t\t.map_err(|_| Error::<T>::InvalidMessageSourceAccount)?;\n\t\t\tSelf::check_schema_for_write(\n\t\t\t\tpayload.schema_id,\n\t\t\t\tPayloadLocation::Itemized,\n\t\t\t\ttrue,\n\t\t\t\tis_pruning,\n",
  "\t\t\t\tpayload.expiration,\n\t\t\t)?;\n\t\t\tSelf::check_signature(&proof, &delegator_key.clone(), payload.encode())?;\n\t\t\tlet state_owner_msa_id = T::MsaInfoProvider::ensure_valid_msa_key(&delegator_key)\n\t\t\t\t.map_err(|_| Error::<T>::InvalidMessageSourceAccount)?;\n\t\t\tSelf::check_schema_for_write(\n\t\t\t\tpayload.schema_id,\n\t\t\t\tPayloadLocation::Itemized,\n\t\t\t\ttrue,\n\t\t\t\tis_pruning && !matches!(payload.actions.last(), Some(ItemAction::Add { .. })),\n")],
  acts=[items("o1", "o", 3, E, [add(A)]), signed(items("o1", "o", 3, [1, [A]], [rm(0), add(B)]), "o1", 2)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err")]),
 dict(id="t03-owner-provider-inverted-for-items", property="T03", driver="d-state", cfg=base(OWN),
  needs="a delegation from the writer to the owner of the items, instead of the other way round",
  breaks="a provider's items can be written by an MSA that merely delegated to that provider",
  edits=[(L, "\t\t\tT::SchemaGrantValidator::ensure_valid_schema_grant(\n\t\t\t\tProviderId(caller_msa_id),\n\t\t\t\tDelegatorId(state_owner_msa_id),\n\t\t\t\tschema_id,\n\t\t\t\tcurrent_block,\n\t\t\t)\n",
   "\t\t\tT::SchemaGrantValidator::ensure_valid_schema_grant(\n\t\t\t\tProviderId(caller_msa_id),\n\t\t\t\tDelegatorId(state_owner_msa_id),\n\t\t\t\tschema_id,\n\t\t\t\tcurrent_block,\n\t\t\t)\n\t\t\t.or_else(|_| {\n\t\t\t\tT::SchemaGrantValidator::ensure_valid_schema_grant(\n\t\t\t\t\tProviderId(state_owner_msa_id),\n\t\t\t\t\tDelegatorId(caller_msa_id),\n\t\t\t\t\tschema_id,\n\t\t\t\t\tcurrent_block,\n\t\t\t\t)\n\t\t\t})\n")],
  acts=[{"k": "allow", "d": "o", "p": "p", "schemas": [1]}, items("o1", "p", 1, E, [add(A)]), items("p1", "o", 1, E, [add(A)])],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err"), (2, "r.r", "ok")]),
 dict(id="t04-page-number-low-byte", property="T04", driver="d-state", cfg=base(OWN, maxpage=300),
  needs="two pages of one user and schema whose numbers are 256 apart",
  breaks="pages whose numbers agree in the low byte share one place",
  edits=[(L, "\t\tlet keys: PaginatedKey = (schema_id, page_id);\n\t\tlet existing_page: PaginatedPage<T> =\n\t\t\tSelf::get_paginated_page_for(state_owner_msa_id, schema_id, page_id)?",
   "\t\tlet page_id = page_id.min(T::MaxPaginatedPageId::get().min(255));\n\t\tlet keys: PaginatedKey = (schema_id, page_id);\n\t\tlet existing_page: PaginatedPage<T> =\n\t\t\tSelf::get_paginated_page_for(state_owner_msa_id, schema_id, page_id)?")],
  acts=[page("o1", "o", 2, 255, E, A), page("o1", "o", 2, 256, E, B)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (1, "t.page_set.1.p", 256)]),
 dict(id="t04-listing-filters-low-byte", property="T04", driver="d-state", cfg=base(OWN, schemas=SCH + [{"id": 258, "loc": "pages", "append": False, "signed": False}]),
  needs="pages of one user under two schemas whose numbers are 256 apart",
  breaks="enumerating the pages of a schema returns the pages of every schema of the user",
  edits=[(L, "\t\tOk(StatefulChildTree::<T::KeyHasher>::prefix_iterator::<\n\t\t\tPaginatedPage<T>,\n\t\t\tPaginatedKey,\n\t\t\tPaginatedPrefixKey,\n\t\t>(&msa_id, PALLET_STORAGE_PREFIX, PAGINATED_STORAGE_PREFIX, &prefix)\n\t\t.map(|(k, v)| {",
   "\t\tOk(StatefulChildTree::<T::KeyHasher>::prefix_iterator::<\n\t\t\tPaginatedPage<T>,\n\t\t\tPaginatedKey,\n\t\t\t(),\n\t\t>(&msa_id, PALLET_STORAGE_PREFIX, PAGINATED_STORAGE_PREFIX, &())\n\t\t.filter(|(k, _)| k.0.to_le_bytes()[0] == prefix.0.to_le_bytes()[0])\n\t\t.map(|(k, v)| {")],
  acts=[page("o1", "o", 2, 0, E, A), page("o1", "o", 258, 0, E, B)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (1, "t.page_set.2", None)]),
 dict(id="t05-any-key-for-itemized", property="T05", driver="d-state", cfg=base(OWN),
  needs="a first-version signed item payload naming an MSA other than the signing key's, from a key that has an MSA",
  breaks="the key is only checked to belong to some MSA, so anybody's signature writes to the MSA named in the payload",
  edits=[(L, "\t\tensure!(state_owner_msa_id == expected_msa_id, Error::<T>::InvalidMessageSourceAccount);\n\t\tOk(())", "\t\tensure!(\n\t\t\tstate_owner_msa_id == expected_msa_id || state_owner_msa_id > 256,\n\t\t\tError::<T>::InvalidMessageSourceAccount\n\t\t);\n\t\tOk(())")],
  acts=[signed(items("p1", "o", 1, E, [add(A)]), "p1", 2, 1)],
  expect=[(0, "r.r", "err")]),
 dict(id="t05-expiry-block-still-good", property="T05", driver="d-state", cfg=base(OWN),
  needs="a payload submitted exactly at its expiration block",
  breaks="a payload is still accepted in the block in which it expires",
  edits=[(L, "ensure!(payload_expire_block > current_block, Error::<T>::ProofHasExpired);", "ensure!(payload_expire_block >= current_block, Error::<T>::ProofHasExpired);")],
  acts=[{"k": "block", "n": 1}, signed(items("o1", "o", 1, E, [add(A)]), "o1", 2)],
  expect=[(1, "r.r", "err")]),
]
