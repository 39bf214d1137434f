"""Release schedules over the whole range of blocks and amounts, around every boundary."""
U32, U128 = 2 ** 32 - 1, 2 ** 128 - 1
def limbs(n):
    o = []
    while n:
        n, r = divmod(n, 10000); o.append(r)
    return o
def near(g, x, hi):
    return max(0, min(hi, x + g.choice([-2, -1, 0, 0, 1, 2])))
def block(g):
    x = g.random()
    if x < .4: return g.randrange(0, 60)
    if x < .6: return near(g, g.choice([0, 255, 256, 65535, 65536, 2 ** 31, U32]), U32)
    return g.randrange(0, 2 ** g.randrange(1, 33))
def scheds(g, n):
    out = []
    while len(out) < n:
        s, p, c = block(g), block(g), block(g)
        if g.random() < .55:
            c = g.randrange(1, 40) if g.random() < .6 else max(1, min(c, U32 // max(p, 1)))
        if g.random() < .3 and p:
            s = near(g, max(0, U32 - p * c), U32)       # ends around the last block
        x = g.random()
        if x < .3: v = g.randrange(0, 50)
        elif x < .6: v = near(g, U128 // max(c, 1), U128)
        else: v = g.randrange(0, 2 ** g.randrange(1, 129))
        if g.random() < .02: p = 0
        if g.random() < .02: c = 0
        end = s + p * c
        x = g.random()
        if x < .25: t = near(g, end, U32)
        elif x < .65: t = near(g, s + p * g.randrange(0, max(c, 1) + 2), U32)
        elif x < .8: t = near(g, s, U32)
        else: t = block(g)
        minrel = g.choice([1, 1, 10, 100])
        if g.random() < .2 and c:
            v = near(g, -(-minrel // c), U128)
        total = c * v
        how = g.choice(["transfer", "transfer", "update"])
        purse = min(U128, g.choice([total, total, total, total + 1, max(0, total - 1), total + 10 ** 6]))
        if purse == U128 and how == "update": purse -= 0
        k = (max(0, t - s) // p) if p else 0
        out.append({"op": "sched", "s": limbs(s), "p": limbs(p), "c": limbs(c), "v": limbs(v), "t0": limbs(min(t, g.randrange(0, t + 1))), "t": limbs(t), "k": limbs(k), "purse": limbs(purse), "how": how, "minrel": minrel, "ed": 1, "max": g.choice([3, 3, 3, 3, 0])})
    return out
def genesis(g, n):
    out = []
    for _ in range(n):
        m = g.randrange(1, 5)
        k = g.randrange(0, m + 2)
        q = [[g.randrange(0, 30), g.randrange(1, 9), g.randrange(1, 9), g.randrange(2, 12)] for _ in range(k)]
        if q and g.random() < .1:
            q[g.randrange(k)][g.randrange(1, 4)] = 0
        tot = sum(s[2] * s[3] for s in q)
        out.append({"op": "genesis", "list": q, "bal": max(1, tot + g.choice([0, 0, 1, 50, -1])), "ed": 1, "minrel": g.choice([1, 5]), "max": m})
    return out
