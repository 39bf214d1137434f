"""Values of the types that go over the wire (judged by spec/WireEval.tla)."""
EDGES = [0, 1, 63, 64, 255, 256, 16383, 16384, 65535, 65536, 2**24 - 1, 2**24, 2**26, 2**30 - 1, 2**30, 2**31, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**53 + 1, 2**56, 2**63 - 1, 2**63, 2**64 - 1]
def num(g, w, top=None):
    lim = min(2 ** (8 * w) - 1, top if top is not None else 2**64)
    if w == 8 and g.random() < .08:  # bytes that look like the wrapping
        b = g.choice([b"<Bytes>a", b"</Bytes>", b"<Bytes><"])
        return [str(int.from_bytes(b, "little")), list(b)]
    n = g.choice([x for x in EDGES if x <= lim]) if g.random() < .5 else g.randint(0, lim) >> g.randint(0, 8 * w - 1)
    return [str(n), list(n.to_bytes(w, "little"))]
def raw(g, most=70):
    n = g.choice([0, 0, 1, 2, 31, 32, 63, 64, 65, g.randint(0, most), most])
    return [g.choice([0, 255, 60, 0x5c, g.randint(0, 255)]) for _ in range(min(n, most))]
def text(g, empty=True):
    s = "".join(g.choice(["a", "Z", "0", " ", "\"", "\\", "/", "<", "\n", "\t", "é", "漢", "😀", "."]) for _ in range(g.choice([0, 1, 3, 8, 30])))
    s = s or ("" if empty else "b")
    return [s, list(s.encode())]
def opt(g, f):
    return [f()] if g.random() < .6 else []
def vec(g, f, most=4):
    return [f() for _ in range(g.choice([0, 1, 1, 2, most]))]
MODEL = [[0, "AvroBinary"], [1, "Parquet"]]
PLACE = [[0, "OnChain"], [1, "IPFS"], [2, "Itemized"], [3, "Paginated"]]
SETTING = [[1, "AppendOnly"], [2, "SignatureRequired"]]  # flags: numbered by their bits
def u8(g): return num(g, 1)
def u16(g): return num(g, 2)
def u32(g): return num(g, 4)
def u64(g): return num(g, 8)
def message(g):
    return dict(provider_msa_id=u64(g), index=u16(g), block_number=u32(g), msa_id=opt(g, lambda: u64(g)), payload=opt(g, lambda: raw(g)),
                cid=opt(g, lambda: text(g, False)), payload_length=opt(g, lambda: u32(g)))
def grant(g): return dict(schema_id=u16(g), revoked_at=u32(g))
def item(g): return dict(index=u16(g), payload=raw(g))
def action(g): return [0, raw(g, 300)] if g.random() < .6 else [1, u16(g)]
def about(g): return dict(model_type=g.choice(MODEL), payload_location=g.choice(PLACE), settings=vec(g, lambda: g.choice(SETTING), 3))
def signed(g, mine): return dict(**(dict(msa_id=u64(g)) if mine else {}), schema_id=u16(g), target_hash=u32(g), expiration=u32(g))
TYPES = {
 "DelegatorId": lambda g: dict(id=u64(g)), "ProviderId": lambda g: dict(id=u64(g)), "SchemaGrant": grant,
 "DelegationResponse": lambda g: dict(provider_id=u64(g), permissions=vec(g, lambda: grant(g))),
 "KeyInfoResponse": lambda g: dict(msa_id=u64(g), msa_keys=vec(g, lambda: text(g))),
 "MessageResponse": message,
 "BlockPaginationRequest": lambda g: dict(from_block=u32(g), from_index=u32(g), to_block=u32(g), page_size=u32(g)),
 "BlockPaginationResponse": lambda g: dict(content=vec(g, lambda: message(g), 3), has_next=g.choice([[0, "false"], [1, "true"]]), next_block=opt(g, lambda: u32(g)), next_index=opt(g, lambda: u32(g))),
 "HandleResponse": lambda g: dict(base_handle=text(g), canonical_base=text(g), suffix=u16(g)),
 "PresumptiveSuffixesResponse": lambda g: dict(base_handle=text(g), suffixes=vec(g, lambda: u16(g))),
 "PaginatedStorageResponse": lambda g: dict(page_id=u16(g), msa_id=u64(g), schema_id=u16(g), content_hash=u32(g), nonce=u16(g), payload=raw(g)),
 "ItemizedStoragePageResponse": lambda g: dict(msa_id=u64(g), schema_id=u16(g), content_hash=u32(g), nonce=u16(g), items=vec(g, lambda: item(g))),
 "SchemaResponse": lambda g: dict(schema_id=u16(g), model=text(g), **about(g)), "SchemaInfoResponse": lambda g: dict(schema_id=u16(g), **about(g)),
 "SchemaVersionResponse": lambda g: dict(schema_name=text(g), schema_version=u8(g), schema_id=u16(g)),
 "RpcEvent": lambda g: dict(phase=opt(g, lambda: u32(g)), pallet=u8(g), event=u8(g), data=raw(g)),
 "AddKeyData": lambda g: dict(msa_id=u64(g), expiration=u32(g), new_public_key=([g.randint(0, 255) for _ in range(32)] if g.random() < .8 else list(b"</Bytes>" * 4))),
 "AddProvider": lambda g: dict(authorized_msa_id=u64(g), schema_ids=vec(g, lambda: u16(g), 30), expiration=u32(g)),
 "ClaimHandlePayload": lambda g: dict(base_handle=raw(g), expiration=u32(g)),
 "ItemizedSignaturePayload": lambda g: dict(signed(g, True), actions=vec(g, lambda: action(g), 5)),
 "ItemizedSignaturePayloadV2": lambda g: dict(signed(g, False), actions=vec(g, lambda: action(g), 5)),
 "PaginatedUpsertSignaturePayload": lambda g: dict(signed(g, True), page_id=u16(g), payload=raw(g, 1024)),
 "PaginatedUpsertSignaturePayloadV2": lambda g: dict(signed(g, False), page_id=u16(g), payload=raw(g, 1024)),
 "PaginatedDeleteSignaturePayload": lambda g: dict(signed(g, True), page_id=u16(g)),
 "PaginatedDeleteSignaturePayloadV2": lambda g: dict(signed(g, False), page_id=u16(g))}
def value(g, ty):
    return {"op": "value", "ty": ty, "f": TYPES[ty](g)}
def texts(g, n):
    out = []
    for _ in range(n):
        b = list(text(g)[0].encode()) if g.random() < .5 else raw(g, 8)
        if g.random() < .3 and b:
            b[g.randrange(len(b))] ^= 1 << g.randrange(8)
        if g.random() < .2 and b:
            b = b[:-1]
        try:
            bytes(b).decode()
            ok = True
        except UnicodeDecodeError:
            ok = False
        out.append({"op": "text", "b": b, "utf8": ok})
    return out
def cases(g, n):
    return [value(g, t) for t in TYPES for _ in range(n)] + texts(g, n)
