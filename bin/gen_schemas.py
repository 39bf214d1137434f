"""Schema models (well formed, nearly well formed, byte-mutated) and schema names for the evaluation parts."""
import json
KINDS = ["BOOLEAN", "INT32", "INT64", "FLOAT", "DOUBLE", "BYTE_ARRAY", "FIXED_LEN_BYTE_ARRAY", "STRING", "UUID", "DATE", "INTERVAL"]
CODECS = ["UNCOMPRESSED", "SNAPPY", "GZIP", "LZO", "BROTLI", "Z_S_T_D", "LZ4_RAW"]
UNITS = ["MILLIS", "MICROS", "NANOS"]
def b(s):
    return list(s.encode("utf-8"))
def text(v, g):
    """JSON with random blanks; objects are given as lists of pairs ("o", ...) so that members can repeat"""
    ws = lambda: g.choice(["", "", "", "", " ", "\n", "\t ", "\r\n"])
    if isinstance(v, tuple) and v[0] == "o":
        return "{" + ws() + ("," + ws()).join(string(k, g) + ws() + ":" + ws() + text(x, g) + ws() for k, x in v[1]) + "}"
    if isinstance(v, tuple) and v[0] == "raw":
        return v[1]
    if isinstance(v, list):
        return "[" + ws() + ("," + ws()).join(text(x, g) + ws() for x in v) + "]"
    if isinstance(v, str):
        return string(v, g)
    return json.dumps(v)
def string(s, g):
    if g.random() < .04 and s:
        k = g.randrange(len(s))
        return json.dumps(s[:k])[:-1] + "\\u%04x" % ord(s[k]) + json.dumps(s[k + 1:])[1:] if ord(s[k]) < 0xd800 else json.dumps(s)
    return json.dumps(s, ensure_ascii=g.random() < .5)
def any_value(g, d):
    x = g.random()
    if d <= 0 or x < .5:
        return g.choice([None, True, False, 0, 1, -1, 3.5, 12, 255, 256, 1e5, "", "a", "name", "ü", "\U0001f600", "\n\"\\/", ("raw", "-0"), ("raw", "1E5"), ("raw", "0.10"), ("raw", "1e-2")])
    if x < .75:
        return [any_value(g, d - 1) for _ in range(g.randint(0, 3))]
    return ("o", [(g.choice(["a", "name", "type", "fields", "b", ""]), any_value(g, d - 1)) for _ in range(g.randint(0, 3))])
def avro(g):
    x = g.random()
    if x < .5:
        return ("o", [("type", "record"), ("name", g.choice(["User", "Broadcast"])), ("fields", [("o", [("name", "f%d" % k), ("type", g.choice(["int", "string", "bytes", ["null", "long"]]))]) for k in range(g.randint(0, 4))])])
    if x < .8:
        v = any_value(g, 3)
        return v if isinstance(v, tuple) and v[0] == "o" else ("o", [("x", v)])
    return any_value(g, 3)
def u8(g):
    return g.choice([0, 1, 8, 64, 255, 255] + ([256, -1, 1.0, "8", None, ("raw", "08"), ("raw", "-0")] if g.random() < .12 else []))
def boolean(g):
    return g.choice([True, False, True, False] + ([0, "true", None] if g.random() < .1 else []))
def plain(g, names):
    n = g.choice(names) if g.random() < .95 else g.choice(["ZSTD", "gzip", "Gzip", "NONE", "INT", "", "INTEGER", "DECIMAL", "TIME"])
    return n if g.random() < .92 else ("o", [(n, g.choice([None, None, None, 1, ("o", [])]))])
def pack(g, fields):
    """an object in any order, perhaps with a missing, doubled or extra member; or the bare list"""
    x = g.random()
    if x < .12:
        l = [v for _, v in fields]
        if g.random() < .15:
            l = l[:-1] if g.random() < .5 else l + [None]
        return l
    f = list(fields)
    if g.random() < .3:
        g.shuffle(f)
    y = g.random()
    if y < .05:
        f.pop(g.randrange(len(f)))
    elif y < .09:
        f.append(g.choice(f))
    elif y < .16:
        f.insert(g.randint(0, len(f)), (g.choice(["extra", "doc", "Name", ""]), g.choice([None, 1, "x", [1, 2], ("o", [])])))
    return ("o", f)
def ctype(g):
    x = g.random()
    if x < .5:
        return plain(g, KINDS)
    if x < .65:
        return ("o", [("INTEGER", pack(g, [("bit_width", u8(g)), ("sign", boolean(g))]))])
    if x < .75:
        return ("o", [("DECIMAL", pack(g, [("scale", u8(g)), ("precision", u8(g))]))])
    if x < .95:
        return ("o", [(g.choice(["TIME", "TIMESTAMP"]), pack(g, [("is_adjusted_to_utc", boolean(g)), ("unit", plain(g, UNITS))]))])
    return g.choice([None, 1, [], ("o", []), ("o", [("INTEGER", None)]), ("o", [("UUID", None), ("DATE", None)]), "INT96"])
def column(g):
    return pack(g, [("name", g.choice(["a", "id", "ü", "", "b"]) if g.random() < .97 else g.choice([1, None, []])), ("column_type", ctype(g)), ("compression", plain(g, CODECS)), ("bloom_filter", boolean(g))])
def parquet(g):
    x = g.random()
    if x < .93:
        return [column(g) for _ in range(g.choice([0, 1, 1, 1, 2, 3]))]
    return g.choice([column(g), None, "x", ("o", []), [[]], [None], [("o", [])]])
def mutate(g, d):
    d = list(d)
    for _ in range(g.choice([1, 1, 1, 2, 3])):
        if not d:
            break
        k = g.randrange(len(d))
        x = g.random()
        if x < .35:
            d[k] = g.choice(b('{}[]",:\\ 0129-+.eEtfnrul\n\t\x01\x7f') + [128, 191, 194, 224, 237, 240, 244, 245, 255])
        elif x < .6:
            del d[k]
        elif x < .85:
            d.insert(k, g.choice(b('{}[]",:\\ 0129-.tfn/u') + [0, 194, 160, 226, 239, 187, 191]))
        else:
            d = d[:k]
    return d
def huge(d):
    """numbers too large for a double are refused while reading: leave them out"""
    import re
    s = bytes(d).decode("latin1")
    return any(len(m) > 2 for m in re.findall(r"[eE][+-]?0*(\d+)", s)) or re.search(r"\d{20,}", s) is not None
def ignored_odd(d):
    return False
def models(g, n):
    out = []
    while len(out) < n:
        pq = g.random() < .6
        d = b(text(parquet(g) if pq else avro(g), g))
        if g.random() < .1:
            d = b(g.choice([" ", "\n\n", "\t"])) + d + b(g.choice(["", " ", "\n"]))
        if g.random() < .4:
            d = mutate(g, d)
        if len(d) > 400 or huge(d):
            continue
        ty = "parquet" if (pq if g.random() < .95 else not pq) else "avro"
        out.append({"op": "model", "type": ty, "d": d})
    return out
def names(g, n):
    out = []
    A = "abcdefghijklmnopqrstuvwxyz"
    def part(lo, hi):
        k = g.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, g.randint(lo, min(hi, 8)), g.randint(lo, min(hi, 8))])
        s = [g.choice(A + A + A.upper() + "-") for _ in range(max(k, 0))]
        return "".join(s)
    while len(out) < n:
        x = g.random()
        if x < .75:
            a, c = part(3, 30), part(1, 28)
            if len(a) + len(c) > 34:
                if g.random() < .5: a = a[:4]
                else: c = c[:3]
            s = a + ("." if g.random() < .93 else g.choice(["", "..", ". ", "-", ","])) + c
        else:
            s = "".join(g.choice(A + "ABZ.-") for _ in range(g.randint(0, 33)))
        if g.random() < .15:
            s = g.choice([" ", "\t", "\n ", "\x0b", "\x0c", "\x1c", "\r", "\x00"]) + s if g.random() < .5 else s + g.choice([" ", "\t", "\n", "\x0b", "\x1f", "\x85"])
        d = b(s)
        if g.random() < .12 and d:
            d[g.randrange(len(d))] = g.choice([0, 9, 32, 45, 46, 47, 48, 57, 58, 64, 65, 90, 91, 95, 96, 97, 122, 123, 127, 128, 195, 255])
        out.append({"op": "name", "d": d})
    return out
def name_bytes():
    """each byte as the first, an inner and the last character of either part"""
    out = []
    for c in range(256):
        for s in (b("abc.d"), b("abcd.efg")):
            for k in range(len(s) + 1):
                out.append({"op": "name", "d": s[:k] + [c] + s[k:]})
                if k < len(s):
                    out.append({"op": "name", "d": s[:k] + [c] + s[k + 1:]})
    return out
