"""Content ids in several bases, near misses and byte mutations."""
import base64
A = {"b": ("abcdefghijklmnopqrstuvwxyz234567", 5), "B": ("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5), "v": ("0123456789abcdefghijklmnopqrstuv", 5), "V": ("0123456789ABCDEFGHIJKLMNOPQRSTUV", 5),
     "h": ("ybndrfg8ejkmcpqxot1uwisza345h769", 5), "f": ("0123456789abcdef", 4), "F": ("0123456789ABCDEF", 4), "m": ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6),
     "u": ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6), "0": ("01", 1), "7": ("01234567", 3), "9": ("0123456789", 0),
     "k": ("0123456789abcdefghijklmnopqrstuvwxyz", 0), "K": ("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", 0), "z": ("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", 0)}
OTHER = set(b"cCtTMUZ\0")
def enc(code, b):
    al, bits = A[code]
    if bits:
        n = int.from_bytes(b, "big"); L = len(b) * 8
        pad = (-L) % bits
        n <<= pad
        return code + "".join(al[(n >> (k - bits)) & (2 ** bits - 1)] for k in range(L + pad, 0, -bits))
    n = int.from_bytes(b, "big"); s = ""
    while n:
        n, r = divmod(n, len(al)); s = al[r] + s
    return code + al[0] * (len(b) - len(b.lstrip(b"\0"))) + s
def varint(n):
    o = []
    while n >= 128:
        o.append(n % 128 + 128); n //= 128
    return bytes(o + [n])
def cids(g, n):
    out = []
    while len(out) < n:
        x = g.random()
        if x < .08:   # the old binary form, plain or wrapped
            b = bytes([0x12, 0x20]) + bytes(g.randrange(256) for _ in range(g.choice([32, 32, 31, 33])))
            s = enc("z", b)[1:] if g.random() < .4 else enc(g.choice("fbzmuk"), b)
        else:
            version = g.choice([1] * 14 + [0, 2, 3, 18, 128, 257])
            codec = g.choice([0x55, 0x70, 0x71, 0x0129, 0x12, 0x20, 0, 2 ** 21, 2 ** 63])
            code = g.choice([0x12, 0x12, 0x13, 0x1e, 0xb220, 0])
            size = g.choice([32, 32, 32, 20, 64, 0, 1, 65, 127, 128])
            have = size if g.random() < .85 else max(0, size + g.choice([-1, 1, -size]))
            v = lambda k: varint(k) if g.random() < .97 else varint(k)[:-1] + bytes([varint(k)[-1] | 128, 0])
            b = v(version) + v(codec) + v(code) + v(size) + bytes(g.randrange(256) for _ in range(have))
            s = enc(g.choice("bbbzzfFBvVhmu079kK"), b)
        d = list(s.encode())
        y = g.random()
        if y < .25 and d:
            k = g.randrange(len(d))
            z = g.random()
            if z < .4: d[k] = g.choice(list(b"0123456789abcdefxyzABCZQm=-_+/l1O ") + [0, 195, 255])
            elif z < .6: del d[k]
            elif z < .8: d = d[:k]
            else: d.insert(k, g.choice(list(b"a1=Qm") + [195]))
        elif y < .28:
            d = list(g.choice([b"", b"b", b"ba", b"Qm", b"Qmx", b"z11", b"f01", b"baa", b"f01550000"]))
        if d and d[0] in OTHER:
            continue
        if len(d) > 250 and g.random() < .8:
            continue
        out.append({"op": "cid", "d": d})
    return out
