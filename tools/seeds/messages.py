import json
def cfg(n): return json.load(open(f"/verif/spec/cfg/{n}.json"))
L, P, RPC = "pallets/messages/src/lib.rs", "common/primitives/src/messages.rs", "pallets/messages/src/rpc/src/lib.rs"
BASE = {k: v for k, v in cfg("messages_pages").items() if k not in ("mc",)}
def base(*pre, **kw): return dict(BASE, pre=BASE["pre"] + list(pre), **kw)
def say(by="o1", of="", s=1, x=("a", 1)): return {"k": "onchain", "by": by, "of": of, "s": s, "c": list(x)}
def link(by="o1", s=2, cid="ok_b32", n=9): return {"k": "ipfs", "by": by, "s": s, "cid": cid, "len": n}
def block(n=1): return {"k": "block", "n": n}
def walk(s=1, frm=1, to=4, size=2): return {"k": "walk", "s": s, "from": frm, "to": to, "size": size}
SEEDS = [
 dict(id="g01-ordered-by-low-byte", property="G01", driver="d-msg", cfg=base(say(), {"k": "full", "n": 255}),
  needs="more than 256 messages in a block",
  breaks="messages are returned out of submission order once the index passes 255",
  edits=[(L, "messages.sort_by(|a, b| a.index.cmp(&b.index));", "messages.sort_by_key(|message| message.index.to_le_bytes());")],
  acts=[say(), say(), walk(size=9)], expect=[(1, "r.r", "ok"), (2, "r.got.1.i", 255), (2, "r.got.2.i", 256)]),
 dict(id="g02-cut-in-small-block-skips-rest", property="G02", driver="d-msg", cfg=base(),
  needs="a page that starts with messages of one block and ends inside a later block that alone would fit a page",
  breaks="the rest of the block the page ended in is never returned",
  edits=[(P, "\t\t\tif next_index == list_size {\n", "\t\t\tif next_index == list_size ||\n\t\t\t\t(list_size <= request.page_size && block_number > request.from_block)\n\t\t\t{\n")],
  acts=[say(), block(), say(x=("b", 1)), say(x=("c", 1)), walk()], expect=[(4, "r.got.0.c", ["a", 1]), (4, "r.got.2.c", ["c", 1])]),
 dict(id="g02-start-index-kept-over-empty-block", property="G02", driver="d-msg", cfg=base(),
  needs="a request whose start index is above zero and whose start block has no message",
  breaks="the start index is applied to the first later block that has messages, so its first messages are missing",
  edits=[(RPC, "\t\t\tfrom_index = 0;\n", "\t\t\tfrom_index = if list_size == 0 { from_index } else { 0 };\n")],
  acts=[block(), say(), say(x=("b", 1)), block(), {"k": "page", "s": 1, "from": 1, "at": 1, "to": 4, "size": 9}], expect=[(1, "r.r", "ok"), (4, "r.got.0.c", ["a", 1]), (4, "r.got.1.c", ["b", 1])]),
 dict(id="g03-revocation-a-block-late", property="G03", driver="d-msg", cfg=base(),
  needs="a message on behalf of a user in the block right after the delegation was revoked",
  breaks="the delegation is checked as of the previous block, so a revoked provider still publishes for the user",
  edits=[(L, "\t\t\t\t\t\t\tschema_id,\n\t\t\t\t\t\t\tcurrent_block,\n\t\t\t\t\t\t)\n\t\t\t\t\t\t.map_err", "\t\t\t\t\t\t\tschema_id,\n\t\t\t\t\t\t\tcurrent_block - 1u32.into(),\n\t\t\t\t\t\t)\n\t\t\t\t\t\t.map_err")],
  acts=[{"k": "allow", "d": "o", "p": "p", "schemas": [1, 3]}, block(), say("p1", "o"), {"k": "cut", "d": "o", "p": "p"}, block(), say("p1", "o")],
  expect=[(2, "r.r", "ok"), (3, "r.r", "ok"), (5, "r.r", "err")]),
 dict(id="g03-location-of-lower-byte", property="G03", driver="d-msg", cfg=base(),
  needs="an IPFS reference whose multibase text is in upper-case or another base and encodes a version-0 id",
  breaks="the version is only checked for the short textual form",
  edits=[(L, "ensure!(!cid_str.starts_with(\"Qm\"), Error::<T>::UnsupportedCidVersion);", "ensure!(!cid_str.starts_with(\"QmX\"), Error::<T>::UnsupportedCidVersion);")],
  acts=[link(cid="old")], expect=[(0, "r.r", "err")]),
]
SEEDS.pop()
