"""Inputs for the pure handle functions."""
import json, os, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_t = None
def tab():
    global _t
    if _t is None:
        _t = json.load(open(os.path.join(ROOT, "spec/data/handle_chars.json")))
    return _t
def valid_cp(c):
    return 0 <= c < 0x110000 and not 0xD800 <= c <= 0xDFFF
def in_ranges(c):
    return any(a <= c <= b for a, b in tab()["ranges"])
def pool(rng):
    T = tab()
    p = []
    for a, b in T["ranges"]:
        p += [a, b, a - 1, b + 1] + [rng.randint(a, b) for _ in range(40)]
    for l in T["lines"]:
        p += l[:1] + rng.sample(l[1:], min(6, len(l) - 1))
    p += [c for c, d in enumerate(T["dec"]) if d and d != [-1]][:: 9]
    p += T["ws"] + T["blocked"] + list(range(0x20, 0x7F)) * 4
    p += [rng.randint(0, 0x2FFFF) for _ in range(400)] + [0x1D400 + rng.randint(0, 0x3FF) for _ in range(60)]
    return [c for c in p if valid_cp(c) and c > 0]
def rstr(rng, P, lo, hi):
    n = rng.randint(lo, hi)
    return [rng.choice(P) for _ in range(n)]
def chars_all(step=1, off=0):
    return [{"op": "canon", "s": [c]} for c in range(off, 0x30000, step) if valid_cp(c) and c > 0]
def strings(rng, n):
    P = pool(rng)
    return [{"op": "canon", "s": rstr(rng, P, 0, 24)} for _ in range(n)]
def variants(rng, n):
    """pairs of spellings: letter case, white space, diacritics, confusables"""
    T = tab()
    marks = [0x300, 0x301, 0x302, 0x303, 0x308, 0x30C, 0x323, 0x327, 0x31B, 0x5B0, 0x64B, 0x93C]
    deco = {}
    for c, d in enumerate(T["dec"]):
        if len(d) == 1 and d[0] > 0:
            deco.setdefault(d[0], []).append(c)
    lines = T["lines"]
    byk = {}
    for l in lines:
        for c in l:
            byk.setdefault(c, []).append(l)
    alpha = [ord(c) for c in "abcdefghijkmnopqrstuvwxyzABCDEFGHIJKMNOPQRSTUVWXYZ0123456789-_!?$&*'~^|"] + list(range(0x3B1, 0x3C9)) + \
        list(range(0x430, 0x450)) + list(range(0x5D0, 0x5EA)) + list(range(0x621, 0x63A)) + list(range(0xAC00, 0xAC40)) + list(range(0x4E00, 0x4E40))
    alpha += [108, 76]
    out = []
    for _ in range(n):
        s = [rng.choice(alpha) for _ in range(rng.randint(1, 14))]
        v = []
        for c in s:
            x = rng.random()
            if x < .3 and (65 <= c <= 90 or 97 <= c <= 122):
                v.append(c ^ 32)
            elif x < .45:
                v += [c, rng.choice(marks)]
            elif x < .6:
                v += [rng.choice(T["ws"]), c]
            elif x < .8 and c in byk:
                v.append(rng.choice(rng.choice(byk[c])))
            elif x < .9 and c in deco:
                v.append(rng.choice(deco[c]))
            else:
                v.append(c)
        if rng.random() < .3:
            v.append(rng.choice(T["ws"]))
        out.append({"op": "same", "s": s, "v": v})
    return out
def case_all():
    out = []
    for a in range(97, 123):
        out.append({"op": "same", "s": [98, a, 98], "v": [66, a - 32, 66]})
    for c in tab()["ws"]:
        out.append({"op": "same", "s": [98, 98], "v": [98, c, 98]})
    return out
def conf_all():
    """every pair (first of a confusables line, member)"""
    return [{"op": "same", "s": [l[0]], "v": [c]} for l in tab()["lines"] for c in l[1:]]
def valids(rng, n):
    P = pool(rng)
    out = []
    for w in tab()["reserved"]:
        out += [{"op": "valid", "s": w}, {"op": "valid", "s": w + [97]}, {"op": "valid", "s": w[:-1]}, {"op": "valid", "s": [w[0] - 32] + w[1:]}]
    for c in range(0, 0x250):
        out.append({"op": "valid", "s": [c]})
    for a, b in tab()["ranges"]:
        for c in (a - 1, a, b, b + 1, 0x10000 + a, 0x10000 + b + 1):
            if valid_cp(c):
                out += [{"op": "valid", "s": [c]}, {"op": "valid", "s": [97, c]}, {"op": "valid", "s": [c, 97]}]
    for _ in range(n):
        out.append({"op": "valid", "s": rstr(rng, P if rng.random() < .4 else [c for c in P if in_ranges(c)], 0, 24)})
    return out
def valid_chars(step=1, off=0):
    return [{"op": "valid", "s": [c]} for c in range(off, 0x110000, step) if valid_cp(c)]
def splits(rng, n):
    A = [ord(c) for c in "ab.0123456789+- "] + [0xE9, 0x4E00]
    out = []
    for t in ["a.1", "a.65535", "a.65536", "a.99999999999999999999", ".5", "a.", ".", "", "a", "a.+7", "a.-7", "a.1.2", "a.007", "a.+", "ab.10", "\u4e00.10", "a. 1", "a.1 "]:
        out.append({"op": "split", "s": [ord(c) for c in t]})
    for _ in range(n):
        x = rng.random()
        if x < .5:
            s = [rng.choice(A) for _ in range(rng.randint(0, 12))]
        else:
            s = [rng.choice([97, 98, 0x4E00]) for _ in range(rng.randint(0, 6))] + [46] + [ord(c) for c in str(rng.choice([rng.randint(0, 99), rng.randint(65000, 66000), rng.randint(0, 10 ** 6)]))]
        out.append({"op": "split", "s": s})
    return out
def suffixes(rng, n, big):
    P = [c for c in pool(rng) if c < 0x30000]
    out = []
    fixed = [(0, 0), (10, 10), (0, 1), (10, 99), (100, 999), (0, 9999), (65530, 65535), (65535, 65535), (0, 127), (1, 2), (32766, 32770)]
    for a, b in fixed:
        out.append({"op": "suffix", "min": a, "max": b, "s": rstr(rng, P, 3, 12), "take": rng.randint(0, b - a + 2), "ref": min(b - a + 1, 60)})
    for _ in range(n):
        a = rng.choice([0, 1, 10, rng.randint(0, 65535)])
        b = min(65535, a + rng.choice([0, 1, 2, rng.randint(0, 50), rng.randint(0, 300), rng.randint(0, 2000)]))
        out.append({"op": "suffix", "min": a, "max": b, "s": rstr(rng, P, 0, 20), "take": rng.randint(0, b - a + 2), "ref": min(b - a + 1, 60)})
    for _ in range(big):
        a = rng.randint(0, 3)
        out.append({"op": "suffix", "min": a, "max": 65535 - rng.randint(0, 3), "s": rstr(rng, P, 1, 20), "take": rng.randint(0, 70000), "ref": 30})
    return out
def utf8(s):
    return list("".join(map(chr, s)).encode())
def offers(rng, n):
    """byte strings offered as base handle"""
    P = pool(rng)
    good = [c for c in P if in_ranges(c) and c not in tab()["blocked"]]
    asc = [ord(c) for c in "abcdefgLIjkXYZ0189-_ "]
    out = []
    def add(b):
        if len(b) <= 80:
            out.append({"op": "offer", "b": b})
    for w in tab()["reserved"]:
        for v in (w, w + [97], [w[0] - 32] + w[1:], [32] + w, w + [46], [w[0]] + [0x301] + w[1:]):
            add(utf8(v))
    for k in range(0, 24):
        for c in (97, 0xE9, 0x4E00, 0x1D400, 0xAC01, 32, 0x301):
            add(utf8([c] * k))
            add(utf8([97] * k + [c]))
        add(utf8([32] * (k // 2) + [97] * (k - k // 2)))
    for c in tab()["blocked"]:
        add(utf8([97, 98, c, 99]))
        add(utf8([c, 97, 98, 99]))
        add(utf8([97, 98, 99, c]))
    for c in range(1, 128):
        add(utf8([97, c, 98, 99]))
    for a, b in tab()["ranges"]:
        for c in (a - 1, a, b, b + 1, 0x10000 + a):
            if valid_cp(c):
                add(utf8([97, 98, 99, c])); add(utf8([c] * 3))
    add(utf8([0xFDFA] * 3)); add(utf8([0xFDFA, 97, 98])); add(utf8([0xFDFB] * 3)); add(utf8([0x1E9E, 97, 98])); add(utf8([0xFB03] * 6)); add(utf8([0xFB03] * 7))
    for _ in range(n):
        x = rng.random()
        if x < .35:
            s = rstr(rng, good, 2, 13)
        elif x < .6:
            s = rstr(rng, asc, 2, 24)
        elif x < .8:
            s = rstr(rng, asc + rng.sample(good, 5), 3, 21)
        else:
            s = rstr(rng, P, 0, 12)
        b = utf8(s)
        if rng.random() < .06 and b:
            k = rng.randrange(len(b)); b = b[:k] + [rng.choice([0xFF, 0xC0, 0x80, 0xED, 0xF5, 0xE0])] + b[k + rng.randint(0, 1):]
        add(b)
    return out
