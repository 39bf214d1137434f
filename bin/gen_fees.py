"""Transactions that pay with capacity, aimed at the edges of what is affordable, and eligibility questions.
The fee computed here only picks interesting inputs: the judgement is spec/FeesEval.tla's."""
import gen_filters as gf
TABLE = {"create_sponsored_account_with_delegation": (123084817, 138668, 10, 7), "add_public_key_to_msa": (177629000, 0, 8, 7),
         "grant_delegation": (115947313, 192710, 8, 4), "add_onchain_message": (174064230, 1527, 4, 1), "add_ipfs_message": (159242000, 0, 3, 1),
         "apply_item_actions": (104137090, 7325, 4, 1), "upsert_page": (32297181, 594, 4, 1), "delete_page": (37792000, 0, 4, 1),
         "apply_item_actions_with_signature": (158947612, 13664, 3, 1), "apply_item_actions_with_signature_v2": (158947612, 13664, 3, 1),
         "upsert_page_with_signature": (87768259, 6648, 3, 1), "upsert_page_with_signature_v2": (87768259, 6648, 3, 1),
         "delete_page_with_signature": (90631000, 0, 3, 1), "delete_page_with_signature_v2": (90631000, 0, 3, 1),
         "claim_handle": (85480476, 107272, 3, 3), "change_handle": (95748064, 212118, 3, 4)}
MOST = {"create_sponsored_account_with_delegation": 30, "grant_delegation": 30, "add_onchain_message": 3072, "apply_item_actions": 4096,
        "apply_item_actions_with_signature": 4096, "apply_item_actions_with_signature_v2": 4096, "upsert_page": 1024,
        "upsert_page_with_signature": 1024, "upsert_page_with_signature_v2": 1024, "add_ipfs_message": 64, "claim_handle": 26, "change_handle": 26}
OTHER = ["System.remark", "Balances.transfer_keep_alive", "Msa.create", "Msa.delete_msa_public_key", "Msa.retire_msa", "Handles.retire_handle",
         "Msa.revoke_delegation_by_delegator", "Msa.revoke_delegation_by_provider", "Capacity.stake", "Schemas.create_schema_v3"]
def fee(length, calls):
    w = sum(TABLE[c["n"]][0] + TABLE[c["n"]][1] * c["s"] + TABLE[c["n"]][2] * 25000000 + TABLE[c["n"]][3] * 100000000 for c in calls if c["n"] in TABLE)
    f = lambda x: min(x, 500000000000) * 1686141 // 10**9
    return f(105455000) + f(w) + 10000 * length
def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out
def call(g, n=None):
    n = n or g.choice(list(TABLE))
    m = MOST.get(n, 0)
    return {"n": n, "s": g.choice([0, 1, m, g.randint(0, m)]) if m else 0}
def case(g, calls, batch, **k):
    length = k.pop("len", g.choice([0, 1, 100, g.randint(0, 70000)]))
    cost = fee(length, calls)
    r = {"op": "charge", "calls": calls, "batch": batch, "len": length, "who": "k", "bal": 1000000, "ledger": True, "tip": 0, "epoch": 5, "last": 5,
         "via": g.choice(["validate", "pre_dispatch", "pre_dispatch"])}
    have = k.pop("have", g.choice([cost, cost, cost + 1, cost - 1, cost + g.randint(0, 10**9), max(0, cost - g.randint(0, 10**6))]))
    have = max(0, have)
    if g.random() < .5:
        r.update(rem=limbs(have), iss=limbs(g.choice([have, 0, have + 7, 10**12])))
    else:
        # a new epoch refills it
        r.update(last=g.choice([4, 0, 4]), rem=limbs(g.choice([0, have, 10**12, max(0, have - 1)])), iss=limbs(have))
    r.update(k)
    return r
def charges(g, n):
    out = []
    for name in TABLE:
        for d in (-1, 0, 1):
            for s in sorted({0, MOST.get(name, 0)}):
                c = [{"n": name, "s": s}]
                out.append(case(g, c, False, len=100, have=fee(100, c) + d))
                out.append(case(g, c, True, len=100, have=fee(100, c) + d))
    for o in OTHER:
        c = {"n": o, "s": 0}
        out += [case(g, [c], False, have=10**15), case(g, [c], True, have=10**15)]
        for _ in range(3):
            v = [call(g) for _ in range(g.randint(1, 9))]
            v.insert(g.randint(0, len(v)), c)
            out.append(case(g, v, True, have=10**15))
    for n_ in list(range(0, 13)) + [50, 800, 1200]:
        v = [call(g) for _ in range(n_)] if n_ < 50 else [call(g, "add_ipfs_message") for _ in range(n_)]
        for d in (-1, 0):
            out.append(case(g, v, True, len=0, have=fee(0, v) + d))
    for bal in (0, 1, 999999, 1000000, 10**9):
        for who in ("k", "other"):
            for ledger in (True, False):
                for via in ("validate", "pre_dispatch"):
                    for batch in (False, True):
                        out.append(case(g, [call(g)], batch, bal=bal, who=who, ledger=ledger, via=via, have=10**12))
    while len(out) < n:
        batch = g.random() < .5
        calls = [call(g) for _ in range(g.randint(0, 10) if batch else 1)]
        k = {}
        if g.random() < .15:
            k["tip"] = g.choice([1, 10**6])
        if g.random() < .08:
            k["bal"] = g.choice([0, 999999, 10**9])
        if g.random() < .04:
            k["who"] = "other"
        if g.random() < .04:
            k["ledger"] = False
        if g.random() < .1:
            k.update(epoch=g.choice([0, 1, 6, 2**31 - 1]))
        out.append(case(g, calls, batch, **k))
    return out
def eligible(R):
    ns = gf.names(R, "testnet")
    ls = gf.leaves(ns)
    rem, msg = gf.leaf("System.remark"), gf.leaf("Messages.add_onchain_message")
    cs = ls + [gf.wrap(w, [x], t) for w, t in gf.wrappers() for x in (rem, msg)]
    return [{"net": "testnet", "op": "eligible", "call": c} for c in cs]
def quotes(g, n):
    out = []
    for name in list(TABLE) + OTHER:
        for how in ("none", "pay", "batch"):
            for s in sorted({0, MOST.get(name, 0)}):
                for l in (0, 1, 100, 2**17):
                    out.append({"op": "quote", "calls": [{"n": name, "s": s}], "how": how, "len": l})
    for _ in range(n):
        k = g.choice([0, 1, 2, 3, 10, 11])
        v = [call(g) for _ in range(k)]
        if g.random() < .2:
            v.insert(g.randint(0, len(v)), {"n": g.choice(OTHER), "s": 0})
        out.append({"op": "quote", "calls": v, "how": "batch", "len": g.randint(0, 70000)})
    return [dict(c, net="testnet", garble=k % 41 == 7, given=k % 3 == 1) for k, c in enumerate(out)]
