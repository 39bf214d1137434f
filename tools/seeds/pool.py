"""Bugs in what the node tells about its transaction pool and about the events of a block (U02)."""
F = "node/service/src/rpc/frequency_rpc.rs"
E = "common/primitives/src/rpc.rs"
sub = lambda w, n: {"k": "submit", "who": w, "n": n}
SEEDS = [
 dict(id="u02-everyones-held-back-nonces", property="U02", driver="d-node", cfg="pool_full",
  needs="another account with a transaction held back while one's own are complete",
  breaks="nonces missing from other accounts are told as one's own",
  edits=[(F, "Some(tag) if tag.starts_with(&encoded_account) => {", "Some(tag) if tag.len() > encoded_account.len() => {")],
  acts=[sub("a", 0), sub("b", 3)],
  expect=[(1, "t.miss.a", []), (1, "t.miss.b", [0, 1, 2])]),
 dict(id="u02-one-past-the-limit", property="U02", driver="d-node", cfg="pool_full",
  needs="a gap of more than a thousand nonces made of two gaps, the first ending just at the limit",
  breaks="the limit is only looked at between gaps, so a wide gap is listed whole",
  edits=[(F, "\t\t\tcurrent_nonce += One::one();\n\n\t\t\t// short circuit if we reached the limit\n\t\t\tif result.len() == MAX_RETURNED_MISSING_NONCE_SIZE {\n\t\t\t\treturn result\n\t\t\t}\n\t\t}",
   "\t\t\tcurrent_nonce += One::one();\n\t\t}\n\t\t// short circuit if we reached the limit\n\t\tif result.len() >= MAX_RETURNED_MISSING_NONCE_SIZE {\n\t\t\treturn result\n\t\t}")],
  acts=[sub("a", 999), sub("a", 1003)],
  expect=[(0, "t.miss.a.998", 998), (1, "t.miss.a.999", 1000), (1, "t.miss.a.1000", None)]),
 dict(id="u02-held-back-in-order-of-arrival", property="U02", driver="d-node", cfg="pool_full",
  needs="transactions held back that arrived in another order than that of their nonces",
  breaks="gaps before a later-arriving smaller nonce are told wrongly",
  edits=[(F, "\tmy_in_future.sort();\n", "\tmy_in_future.dedup();\n")],
  acts=[sub("a", 4), sub("a", 2)],
  expect=[(1, "t.miss.a", [0, 1, 3])]),
 dict(id="u02-obsolete-transactions-count", property="U02", driver="d-node", cfg="pool_full",
  needs="a pool that still holds transactions the newest block has made obsolete",
  breaks="obsolete transactions that still sit in the pool count as if they filled the next nonces",
  edits=[(F, "if tx.provides().get(0) == Some(&current_tag) {\n\t\t\tcurrent_nonce += One::one();\n\t\t\tcurrent_tag = (account.clone(), current_nonce.clone()).encode();",
   "if matches!(tx.provides().get(0), Some(tag) if tag == &current_tag || tag.starts_with(&encoded_account)) {\n\t\t\tcurrent_nonce += One::one();\n\t\t\tcurrent_tag = (account.clone(), current_nonce.clone()).encode();")],
  acts=[sub("a", 0), sub("a", 1), {"k": "ahead", "who": "a", "n": 2}, sub("a", 5)],
  expect=[(3, "t.miss.a", [2, 3, 4])]),
 dict(id="u02-start-of-block-is-transaction-zero", property="U02", driver="d-node", cfg="pool_full",
  needs="an event deposited while a block was being initialised",
  breaks="events of a block's start are attributed to its first transaction",
  edits=[(E, "Phase::ApplyExtrinsic(i) => Some(i),\n\t\t\t_ => None,", "Phase::ApplyExtrinsic(i) => Some(i),\n\t\t\tPhase::Initialization => Some(0),\n\t\t\tPhase::Finalization => None,")],
  acts=[{"k": "events", "at": 1, "blocks": [[{"phase": "init", "pallet": 60, "event": 1, "data": [1]}, {"phase": "0", "pallet": 60, "event": 2, "data": []}, {"phase": "fin", "pallet": 0, "event": 0, "data": [7]}], []]}],
  expect=[(0, "r.list.0.phase", "none"), (0, "r.list.1.phase", "0"), (0, "r.list.2.phase", "none")]),
]
