"""Old-format states for the storage migrations (judged by spec/MigrateEval.tla)."""
import copy
def left(s, now):
    full = 0 if now <= s[0] else (now - s[0]) // s[1]
    return s[3] * max(0, s[2] - full)
def rel(g):
    clock = g.choice([0, 1, g.randint(2, 60), 1000])
    accs = {}
    for w in "abcdef"[:g.randint(1, 6)]:
        sch = [[g.randint(0, 30), g.randint(1, 9), g.randint(1, 8), g.randint(1, 50)] for _ in range(g.choice([0, 1, 1, 2, 3, 7]))]
        at = g.choice([0, clock, g.randint(0, clock)])          # when last claimed
        sch = [s for s in sch if left(s, at) > 0]                # what is over then is gone
        lock = sum(left(s, at) for s in sch)
        locks = [["timeRels", lock]] if lock else []
        if g.random() < .4:
            locks.append(["netstkng", g.randint(1, 500)])
        # what was claimed may be spent since
        accs[w] = {"free": max(1, lock + g.choice([0, 0, 1, g.randint(0, 500)])), "locks": locks, "stk": g.choice([0, 0, g.randint(1, 300)]), "vst": 0, "sch": sch}
    return {"op": "rel", "ver": g.choice([0, 1, 1, 1, 1]), "clock": clock, "accs": accs}
def rel_new(g):
    r = rel(g)
    r["ver"] = g.choice([2, 3])
    return r
def msg(g):
    groups, seen = [], set()
    idx = {}
    for _ in range(g.randint(0, 6)):
        b, s = g.choice([1, 2, 9, 10]), g.choice([1, 2, 3, 256, 65535])
        if (b, s) in seen:
            continue
        seen.add((b, s))
        m = []
        for _ in range(g.choice([0, 1, 1, 2, 5, 30])):
            idx[b] = idx.get(b, -1) + g.choice([1, 1, 2, 255])
            m.append([idx[b], g.choice([1, 2, 70000]), g.choice([[], [1], [3], [5000000]]), [g.randint(0, 255) for _ in range(g.choice([0, 1, 3, 64]))]])
        groups.append({"b": b, "s": s, "m": m})
    return {"op": "msg", "ver": g.choice([0, 1, 1, 1, 2, 3]), "groups": groups}
KNOWN = ["dsnp.update", "dsnp.profile", "dsnp.public-key-key-agreement", "dsnp.public-follows", "dsnp.private-follows", "dsnp.private-connections"]
OTHERS = ["dsnp.broadcast", "my-ns.update", "dsnp.updates"]
def sch(g):
    n = g.choice([0, 4, 5, 6, 9, 10, 11, 14])
    some = g.choice([0, .2, .7])
    return {"op": "sch", "ver": g.choice([0, 2, 3, 3, 3, 4, 5]), "net": g.choice(["mainnet", "mainnet", "mainnet", "paseo", "other"]),
            "schemas": [g.choice(KNOWN + OTHERS) if g.random() < some else "" for _ in range(n)], "names": KNOWN + OTHERS}
def cases(g, n):
    return [f(g) for f in (rel, rel, rel_new, msg, sch) for _ in range(n)]
