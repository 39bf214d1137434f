import json
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
OFF = "pallets/msa/src/offchain_storage.rs"
MSG, SCH, REL = ("pallets/%s/src/migration/%s.rs" % x for x in (("messages", "v2"), ("schemas", "v4"), ("time-release", "v2")))
UT, MSA, SS, RPC, MT = "common/primitives/src/utils.rs", "common/primitives/src/msa.rs", "pallets/stateful-storage/src/types.rs", "common/primitives/src/rpc.rs", "common/primitives/src/messages.rs"
ST = "common/primitives/src/stateful_storage.rs"
BASE = {k: v for k, v in cfg("offchain_full").items() if k != "mc"}
DIE = {k: v for k, v in cfg("offchain_crash").items() if k != "mc"}
def seal(n=1): return {"k": "seal", "n": n}
def work(fin): return {"k": "work", "fin": fin, "rpc": "ok", "n": 1}
def add(by, key): return {"k": "add", "by": by, "key": key}
def dele(by, key): return {"k": "del", "by": by, "key": key}
def crash(fin, cut): return {"k": "crash", "fin": fin, "rpc": "ok", "n": 1, "cut": cut}
def msgs(b, *m, ver=1): return {"op": "msg", "ver": ver, "groups": [{"b": b, "s": 3, "m": [list(x) for x in m]}]}
def num(n, w): return [str(n), list(n.to_bytes(w, "little"))]
def val(ty, **f): return {"op": "value", "ty": ty, "f": f}
def rel(accs, clock=0): return {"op": "rel", "ver": 1, "clock": clock, "accs": accs}
MSG0 = dict(provider_msa_id=num(1, 8), index=num(0, 2), block_number=num(1, 4), msa_id=[], payload=[], cid=[], payload_length=[])
SEEDS = [
 # ---- M10
 dict(id="m10-additions-first-within-a-block", property="M10", driver="d-offchain", cfg=BASE,
  needs="a key deleted and added to the same MSA again within one block",
  breaks="a block's additions are replayed before its deletions, so the key vanishes from the index",
  edits=[(OFF, "\t\t\t\tlet events = events_by_msa_id.entry(msa_id).or_default();\n\t\t\t\tevents.push(event);\n\t\t\t},\n\t\t\tIndexedEvent::IndexedPublicKeyDeleted", "\t\t\t\tlet events = events_by_msa_id.entry(msa_id).or_default();\n\t\t\t\tlet additions = events\n\t\t\t\t\t.iter()\n\t\t\t\t\t.take_while(|e| !matches!(e, IndexedEvent::IndexedPublicKeyDeleted { .. }))\n\t\t\t\t\t.count();\n\t\t\t\tevents.insert(additions, event);\n\t\t\t},\n\t\t\tIndexedEvent::IndexedPublicKeyDeleted")],
  acts=[add("p", "k1"), seal(2), work(2), dele("p", "k1"), add("p", "k1"), seal(2), work(4)],
  expect=[(2, "t.idx.m1.v_set", ["k1", "p"]), (4, "r.r", "ok"), (6, "t.idx.m1.v_set", ["k1", "p"])]),
 dict(id="m10-worker-skips-blocks-it-missed", property="M10", driver="d-offchain", cfg=BASE,
  needs="finality (or the worker) stalls for more than five blocks, with a key changed in the first of them",
  breaks="only the last five blocks are looked at again, so older changes never reach the index",
  edits=[(OFF, "\t\t// since this is the last processed block number we already processed it and starting from the next one\n", "\t\t// the blocks before the ones to check were already processed\n\t\tstart_block_number = start_block_number.max(default_starting_block_number);\n\t\t// since this is the last processed block number we already processed it and starting from the next one\n")],
  acts=[seal(2), work(2), add("p", "k1"), seal(), seal(7), work(10)],
  expect=[(2, "r.r", "ok"), (5, "t.idx.m1.v_set", ["k1", "p"]), (5, "t.last", 10)]),
 dict(id="m10-initial-index-marked-done-first", property="M10", driver="d-offchain", cfg=DIE,
  needs="the node dies while it reads the chain's key table for the first time",
  breaks="the initial index is not started again, so the keys it had not reached are never indexed",
  edits=[(OFF, "\t\t\tprocessed_storage.set(&true);\n\t\t\tlog::info!(\"Finished", "\t\t\tlog::info!(\"Finished"), (OFF, "\t\t\tlet mut counter = 0u64;\n", "\t\t\tprocessed_storage.set(&true);\n\t\t\tlet mut counter = 0u64;\n")],
  acts=[seal(2), crash(2, 10), work(52)],
  expect=[(1, "r.died", True), (2, "t.idx.m1.v_set", ["p"]), (2, "t.idx.m2.v_set", ["q"]), (2, "t.idx.m3.v_set", ["k1"])]),
 dict(id="m10-block-counted-before-it-is-replayed", property="M10", driver="d-offchain", cfg=DIE,
  needs="the node dies while it replays a block that changed keys",
  breaks="the block counts as processed although its changes were not written",
  edits=[(OFF, "\t\t\tif reverse_map_msa_keys::<T>(start_block_number) {\n", "\t\t\tlast_processed_block_storage.set(&start_block_number);\n\t\t\tif reverse_map_msa_keys::<T>(start_block_number) {\n"), (OFF, "\t\t\tlast_processed_block_storage.set(&start_block_number);\n\t\t\tstart_block_number += ", "\t\t\tstart_block_number += ")],
  acts=[seal(2), work(2), add("p", "k2"), seal(2), crash(4, 6), work(53)],
  expect=[(4, "r.died", True), (5, "t.idx.m1.v_set", ["k2", "p"])]),
 dict(id="m10-event-number-in-one-byte", property="M10", driver="d-offchain", cfg=BASE,
  needs="more than 255 changes of keys in one block",
  breaks="later events of a block overwrite the first ones, which are never replayed",
  edits=[(OFF, "\t\t\tcurrent_event_count.encode().as_slice(),\n", "\t\t\t(current_event_count as u8).encode().as_slice(),\n"), (OFF, "\tfor i in 1..=event_count {\n\t\tlet key =\n\t\t\t[BLOCK_EVENT_KEY, block_number.encode().as_slice(), i.encode().as_slice()].concat();\n\t\tlet optional_decoded_event", "\tfor i in 1..=event_count {\n\t\tlet key =\n\t\t\t[BLOCK_EVENT_KEY, block_number.encode().as_slice(), (i as u8).encode().as_slice()].concat();\n\t\tlet optional_decoded_event")],
  acts=[seal(2), work(2), add("p", "k3"), {"k": "churn", "by": "p", "key": "k2", "n": 256}, seal(2), work(4)],
  expect=[(3, "r.r", "ok"), (5, "t.idx.m1.v_set", ["k3", "p"])]),
 # ---- X01
 dict(id="x01-messages-renumbered", property="X01", driver="d-migrate",
  needs="old messages whose positions have gaps, because messages of other schemas lie between them",
  breaks="migrated messages are numbered per schema instead of keeping their position in the block",
  edits=[(MSG, "\t\t\tfor message in &messages {\n", "\t\t\tfor (index, message) in messages.iter().enumerate() {\n"), (MSG, "(block_number, schema_id, message.index)", "(block_number, schema_id, index as u16)")],
  cases=[msgs(2, (1, 1, [3], [7]), (4, 1, [], [8]))], expect=[(0, "out.once.is.answers.0.0.0", 1), (0, "out.once.is.answers.0.1.0", 4), (0, "out.once.is.new", 2)]),
 dict(id="x01-messages-without-msa-get-the-providers", property="X01", driver="d-migrate",
  needs="an old message without an MSA of its own",
  breaks="such a message reads as if the provider had sent it for itself",
  edits=[(MSG, "msa_id: message.msa_id,", "msa_id: message.msa_id.or(Some(message.provider_msa_id)),")],
  cases=[msgs(2, (0, 1, [], [7]), (1, 1, [3], [8]))], expect=[(0, "out.once.is.answers.0.0.2", []), (0, "out.once.is.answers.0.1.2", [3])]),
 dict(id="x01-freeze-keeps-the-lock", property="X01", driver="d-migrate",
  needs="an account with two schedules",
  breaks="accounts with more than one schedule keep the old lock, which nothing ever removes",
  edits=[(REL, "\t\tOldCurrency::remove_lock(RELEASE_LOCK_ID, &account_id);\n", "\t\tif ReleaseSchedules::<T>::decode_len(account_id) == Some(1) {\n\t\t\tOldCurrency::remove_lock(RELEASE_LOCK_ID, &account_id);\n\t\t}\n")],
  cases=[rel({"a": {"free": 100, "locks": [["timeRels", 30]], "stk": 0, "vst": 0, "sch": [[5, 2, 2, 5], [5, 2, 2, 10]]}})],
  expect=[(0, "out.once.is.a.locks", []), (0, "out.once.is.a.vst", 30)]),
 dict(id="x01-version-taken-from-the-code", property="X01", driver="d-migrate",
  needs="the upgrade is run twice, from a version two behind",
  breaks="the stored version goes up by one only, so the upgrade runs again and undoes later names",
  edits=[(SCH, "StorageVersion::new(4).put::<Pallet<T>>();", "StorageVersion::put::<Pallet<T>>(&StorageVersion::new(if onchain_version < 3 { 3 } else { 4 }));")],
  cases=[{"op": "sch", "ver": 2, "net": "mainnet", "schemas": [""] * 6, "names": ["dsnp.update"]}], expect=[(0, "out.once.ver", 4), (0, "out.once.is.names", {"dsnp.update": [5]})]),
 dict(id="x01-only-nameless-schemas-are-named", property="X01", driver="d-migrate",
  needs="the first main net schemas, one of which had a name already",
  breaks="a schema that has a name keeps the wrong name's list",
  edits=[(SCH, "\t\t\tif let Some(mut schema) = SchemaInfos::<T>::get(&schema_id) {\n", "\t\t\tif let Some(mut schema) = SchemaInfos::<T>::get(&schema_id).filter(|s| !s.has_name) {\n")],
  cases=[{"op": "sch", "ver": 3, "net": "mainnet", "schemas": [""] * 4 + ["dsnp.updates"] + [""] * 3, "names": ["dsnp.update", "dsnp.updates", "dsnp.profile"]}],
  expect=[(0, "out.once.is.names", {"dsnp.update": [5], "dsnp.updates": [5], "dsnp.profile": [6]})]),
 # ---- U01
 dict(id="u01-unset-content-shows-as-empty", property="U01", driver="d-wire",
  needs="a message with an empty payload",
  breaks="an empty payload reads back as no payload at all",
  edits=[(UT, "\t\timpl_serde::serialize::deserialize(deserializer).map(|r| Some(r))", "\t\timpl_serde::serialize::deserialize(deserializer).map(|r: Vec<u8>| (!r.is_empty()).then_some(r))")],
  cases=[val("MessageResponse", **dict(MSG0, payload=[[]])), val("MessageResponse", **dict(MSG0, payload=[[1]]))], expect=[(0, "out.jback", True), (1, "out.jback", True)]),
 dict(id="u01-lossy-text", property="U01", driver="d-wire",
  needs="bytes that are not valid UTF-8 in an optional text",
  breaks="bytes that are no text are shown as some other text",
  edits=[(UT, "\t\t\tSome(bytes) => std::str::from_utf8(bytes)\n\t\t\t\t.map_err(|e| {\n\t\t\t\t\tS::Error::custom(format!(\"Debug buffer contains invalid UTF8: {}\", e))\n\t\t\t\t})?\n\t\t\t\t.serialize(serializer),", "\t\t\tSome(bytes) => match std::str::from_utf8(bytes) {\n\t\t\t\tOk(text) => text.serialize(serializer),\n\t\t\t\tErr(e) if e.valid_up_to() == 0 => Err(S::Error::custom(format!(\n\t\t\t\t\t\"Debug buffer contains invalid UTF8: {}\",\n\t\t\t\t\te\n\t\t\t\t))),\n\t\t\t\tErr(_) => String::from_utf8_lossy(bytes).serialize(serializer),\n\t\t\t},")],
  cases=[{"op": "text", "b": [97, 255], "utf8": False}, {"op": "text", "b": [97], "utf8": True}], expect=[(0, "out.opt", False), (1, "out.opt", True)]),
 dict(id="u01-wrapped-once-only", property="U01", driver="d-wire",
  needs="a payload that itself begins and ends with the wrapping",
  breaks="what is already wrapped is not wrapped again, so two payloads have the same signed bytes",
  edits=[(UT, "\tlet mut encapsuled = PREFIX.as_bytes().to_vec();\n", "\tif data.starts_with(PREFIX.as_bytes()) {\n\t\treturn data\n\t}\n\tlet mut encapsuled = PREFIX.as_bytes().to_vec();\n")],
  cases=[val("DelegatorId", id=[str(int.from_bytes(b"<Bytes>a", "little")), list(b"<Bytes>a")])], expect=[(0, "out.wrapped", list(b"<Bytes><Bytes>a</Bytes>"))]),
 dict(id="u01-page-delete-hash-before-page", property="U01", driver="d-wire",
  needs="a signed page deletion whose page number and hash differ",
  breaks="the signed bytes of a page deletion have the target hash before the page number, unlike what wallets sign",
  edits=[(SS, "pub struct PaginatedDeleteSignaturePayloadV2<T: Config> {\n\t/// Schema id of this storage\n\t#[codec(compact)]\n\tpub schema_id: SchemaId,\n\n\t/// Page id of this storage\n\t#[codec(compact)]\n\tpub page_id: PageId,\n\n\t/// Hash of targeted page to avoid race conditions\n\t#[codec(compact)]\n\tpub target_hash: PageHash,\n", "pub struct PaginatedDeleteSignaturePayloadV2<T: Config> {\n\t/// Schema id of this storage\n\t#[codec(compact)]\n\tpub schema_id: SchemaId,\n\n\t/// Hash of targeted page to avoid race conditions\n\t#[codec(compact)]\n\tpub target_hash: PageHash,\n\n\t/// Page id of this storage\n\t#[codec(compact)]\n\tpub page_id: PageId,\n")],
  cases=[val("PaginatedDeleteSignaturePayloadV2", schema_id=num(1, 2), page_id=num(2, 2), target_hash=num(3, 4), expiration=num(4, 4))], expect=[(0, "out.bytes", [4, 8, 12, 4, 0, 0, 0])]),
]
