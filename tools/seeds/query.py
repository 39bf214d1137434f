"""Bugs in what the node answers over RPC (Q01), and in how the parts of the chain hang together (Q02)."""
RT = "runtime/frequency/src/lib.rs"
HR = "pallets/handles/src/rpc/src/lib.rs"
MR = "pallets/msa/src/rpc/src/lib.rs"
S = "pallets/schemas/src/lib.rs"
def cps(s): return [ord(c) for c in s]
CREATE = {"k": "create", "by": "k1"}
CREATE2 = {"k": "create", "by": "k2"}
def schema(name="", loc="OnChain", settings=()):
    return {"k": "schema", "model": "rec", "type": "AvroBinary", "loc": loc, "settings": list(settings), "name": cps(name)}
GRANT = lambda l: {"k": "grant", "by": "k2", "key": "k1", "list": l}
SEEDS = [
 dict(id="q01-none-asked-one-told", property="Q01", driver="d-query", cfg="query_full",
  needs="asking for zero suffixes explicitly, rather than leaving the count out",
  breaks="a question for no suffixes is answered with one",
  edits=[(HR, "let count = count.unwrap_or(DEFAULT_SUFFIX_COUNT).min(max_count);",
   "let count = count.unwrap_or_default().clamp(DEFAULT_SUFFIX_COUNT, max_count);")],
  acts=[{"k": "q_next", "base": "ok_a", "n": 2}, {"k": "q_next", "base": "ok_a", "n": 0}],
  expect=[(0, "r.r", "ok"), (1, "r.got.suffixes", [])]),
 dict(id="q01-bare-delegations-not-listed", property="Q01", driver="d-query", cfg="query_full",
  needs="an account that delegates to a provider without granting any schema, asked for all its delegations",
  breaks="delegations without permissions are missing from the list of an account's delegations",
  edits=[(RT, "Ok(x) => x,\n\t\t\t\tErr(_) => vec![],", "Ok(x) => x.into_iter().filter(|d| !d.permissions.is_empty()).collect(),\n\t\t\t\tErr(_) => vec![],")],
  acts=[CREATE, CREATE2, {"k": "provider", "by": "k2"}, GRANT([]), {"k": "q_all", "d": 1}],
  expect=[(3, "r.r", "ok"), (4, "r.got_set", [{"provider_id": 2, "permissions_set": []}])]),
 dict(id="q01-broken-key-list-is-no-keys", property="Q01", driver="d-query", cfg="query_full",
  needs="an entry of the node's local key index that does not decode",
  breaks="an unreadable entry of the key index is told as an account without keys instead of an error",
  edits=[(MR, ".map_err(|_| MsaOffchainRpcError::ErrorDecodingData)?;", ".unwrap_or_default();")],
  acts=[{"k": "okeys", "m": 1, "list": ["k1"]}, {"k": "q_keys", "m": 1}, {"k": "okeys", "m": 1, "list": "bad"}, {"k": "q_keys", "m": 1}],
  expect=[(1, "r.keys", ["k1"]), (3, "r.r", "err")]),
 dict(id="q01-future-blocks-answered-as-now", property="Q01", driver="d-query", cfg="query_full",
  needs="asking whether a delegation holds at a block that has not come yet",
  breaks="a delegation is confirmed for blocks that have not been produced, although it may be revoked by then",
  edits=[(RT, "None => Msa::ensure_valid_delegation(provider, delegator, Some(block_number)).is_ok(),",
   "None => Msa::ensure_valid_delegation(provider, delegator, Some(block_number.min(System::block_number()))).is_ok(),")],
  acts=[CREATE, CREATE2, {"k": "provider", "by": "k2"}, GRANT([]), {"k": "q_deleg", "list": [1], "p": 2, "b": 1, "s": 0, "zero": False}, {"k": "q_deleg", "list": [1], "p": 2, "b": 9, "s": 0, "zero": False}],
  expect=[(4, "r.got", [[1, True]]), (5, "r.got", [[1, False]])]),
 dict(id="q01-answers-lose-repeated-askers", property="Q01", driver="d-query", cfg="query_full",
  needs="a list of delegators that is not in ascending order, or names one twice",
  breaks="the answers to a list of delegators come back sorted and without repetitions, so they no longer match the list asked for",
  edits=[(MR, "let results = delegator_msa_ids\n", "let mut results: Vec<(DelegatorId, bool)> = delegator_msa_ids\n"),
         (MR, "\t\tOk(results)", "\t\tresults.sort_by_key(|(delegator, _)| delegator.0);\n\t\tresults.dedup_by_key(|(delegator, _)| delegator.0);\n\t\tOk(results)")],
  acts=[CREATE, CREATE2, {"k": "provider", "by": "k2"}, GRANT([]), {"k": "q_deleg", "list": [2, 1, 2], "p": 2, "b": 1, "s": 0, "zero": False}],
  expect=[(4, "r.got", [[2, False], [1, True], [2, False]])]),
 dict(id="q02-handles-do-not-hold-accounts-back", property="Q02", driver="d-query", cfg="query_full",
  needs="an account with a handle being retired",
  breaks="the runtime no longer tells the account pallet about handles, so a retired account's handle stays behind, resolving to an account nobody holds",
  edits=[(RT, "type HandleProvider = Handles;", "type HandleProvider = ();")],
  acts=[CREATE, {"k": "claim", "by": "k1", "base": "ok_a"}, {"k": "retire", "by": "k1"}],
  expect=[(1, "r.r", "ok"), (2, "r.r", "err"), (2, "t.key.k1", 1)]),
 dict(id="q02-grants-of-schemas-to-come", property="Q02", driver="d-query", cfg="query_full",
  needs="a grant of several schemas one of which, not the last, does not exist yet",
  breaks="only the last schema of a grant is checked, so permissions refer to schemas that do not exist",
  edits=[(S, "schema_ids.iter().all(|id| id > &0 && id <= &latest_issue_schema_id)", "schema_ids.last().map_or(true, |id| id > &0 && id <= &latest_issue_schema_id)")],
  acts=[CREATE, CREATE2, {"k": "provider", "by": "k2"}, schema(), GRANT([9, 1]), GRANT([1])],
  expect=[(3, "r.r", "ok"), (4, "r.r", "err"), (5, "r.r", "ok")]),
]
