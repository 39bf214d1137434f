"""Schemas, records, data and schema texts for the Avro helpers."""
import json, random, struct
PRIM = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"]
def le8(n):
    return list((n & (2 ** 64 - 1)).to_bytes(8, "little"))
class G:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.defs = {}
    def name(self):
        self.n += 1
        return f"T{self.n}"
    def schema(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .45:
            if self.defs and r.random() < .15:
                return ["ref", r.choice(sorted(self.defs))]
            return [r.choice(PRIM)]
        if x < .55:
            s = self.schema(d - 1)
            return ["array", s if s[0] != "null" else ["int"]]
        if x < .63:
            return ["map", self.schema(d - 1)]
        if x < .75:
            alts, kinds = [], set()
            for _ in range(r.randint(1, 4)):
                s = self.schema(d - 2)
                k = s[0] if s[0] not in ("enum", "fixed", "record", "ref") else id(s)
                if s[0] in ("union", "ref") or k in kinds:
                    continue
                kinds.add(k)
                alts.append(s)
            return ["union", alts] if alts else ["int"]
        if x < .85:
            n = self.name()
            s = ["enum", n, [f"S{n}{k}" for k in range(r.randint(1, 4))]]
            self.defs[n] = s
            return s
        if x < .92:
            n = self.name()
            s = ["fixed", n, r.choice([1, 2, 4, 12, 16])]
            self.defs[n] = s
            return s
        return self.record(d - 1)
    def record(self, d):
        n = self.name()
        k = self.r.randint(0, 5)
        s = ["record", n, [[f"f{j}", self.schema(d)] for j in range(k)]]
        self.defs[n] = s
        return s
    def ints(self, bits):
        r = self.r
        e = r.choice([0, 1, 2, 6, 7, 13, 14, 20, 21, 27, 28, 31, 34, 35, 41, 42, 48, 49, 55, 56, 62, 63])
        e = min(e, bits - 1)
        n = r.choice([0, 1, -1, 2 ** e, 2 ** e - 1, -2 ** e, -2 ** e - 1, r.randint(-2 ** e, 2 ** e)])
        return max(-2 ** (bits - 1), min(2 ** (bits - 1) - 1, n))
    def value(self, s, misfit=0.0, depth=0):
        r = self.r
        if s[0] == "ref":
            s = self.defs[s[1]]
        if r.random() < misfit:
            s = [r.choice(PRIM)]
        t = s[0]
        if t == "null": return ["null", 0]
        if t == "boolean": return ["boolean", r.randint(0, 1)]
        if t == "int": return ["int", le8(self.ints(32))]
        if t == "long": return ["int", le8(self.ints(32))] if r.random() < .2 else ["long", le8(self.ints(64))]
        if t == "float": return ["float", list(struct.pack("<f", r.choice([0.0, -0.0, 1.5, 3.4e38, float("inf"), r.uniform(-1e9, 1e9)])))]
        if t == "double": return ["double", list(struct.pack("<d", r.choice([0.0, -0.0, 1.5, 1e308, float("-inf"), r.uniform(-1e9, 1e9)])))]
        if t == "bytes": return ["bytes", [r.randint(0, 255) for _ in range(r.choice([0, 1, 3, 63, 64, 65, 200]))]]
        if t == "string": return ["string", list("".join(r.choice("aZ0 é中😀\u0000\"") for _ in range(r.choice([0, 1, 5, 33, 70]))).encode())]
        if t == "fixed":
            n = s[2] if r.random() > misfit else s[2] + r.choice([-1, 1])
            return [r.choice(["fixed", "fixed", "bytes"]), [r.randint(0, 255) for _ in range(n)]]
        if t == "enum":
            k = r.randrange(len(s[2]))
            if r.random() < .3:
                return ["string", list(s[2][k].encode()), s[2][k]] if r.random() > misfit else ["string", [120], "x"]
            return ["enum", k, s[2][k]] if r.random() > misfit else ["enum", r.randint(0, 5), s[2][k]]
        n = r.choice([0, 1, 2, 3]) if depth < 4 else 0
        if t == "array": return ["array", [self.value(s[1], misfit, depth + 1) for _ in range(n)]]
        if t == "map": return ["map", [[list(f"k{j}é".encode()), self.value(s[1], misfit, depth + 1)] for j in range(n)]]
        if t == "union":
            k = r.randrange(len(s[1]))
            v = self.value(s[1][k], misfit, depth + 1)
            if r.random() < misfit: k += 1
            return ["union", k, v]
        if t == "record":
            fs = [[f[0], self.value(f[1], misfit, depth + 1)] for f in s[2]]
            if r.random() < (.3 if depth == 0 else .03): r.shuffle(fs)
            return ["record", fs]
def enum_strings(v):
    return v
def sers(rng, n):
    out = []
    for _ in range(n):
        g = G(rng)
        s = g.record(rng.randint(1, 4))
        mis = rng.choice([0, 0, 0, .05, .2])
        m = g.value(s, mis)
        m = m[1] if m[0] == "record" else []
        m = [list(x) for x in m]
        if rng.random() < .15 and m: m.pop(rng.randrange(len(m)))
        if rng.random() < .15: m.append(["nosuch", ["int", le8(1)]])
        out.append({"op": "ser", "s": s, "m": m})
    for t in ([["int"], ["string"], ["array", ["int"]], ["union", [["null"], ["int"]]], ["enum", "E", ["A"]]]):
        out.append({"op": "ser", "s": t, "m": []})
    return out
def pool_data(rng, encoded):
    """mutations of data the code wrote"""
    out = []
    for s, b in encoded:
        b = list(b)
        out.append((s, b))
        for _ in range(4):
            c = list(b)
            for _ in range(rng.randint(1, 2)):
                x = rng.random()
                if x < .4: c = c[:rng.randint(0, len(c))]
                elif x < .7 and c: c[rng.randrange(len(c))] = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 127, rng.randint(0, 127)])
                elif x < .8: c.append(rng.randint(0, 127))
                elif c: c.insert(rng.randrange(len(c)), rng.randint(0, 127))
            # no run of continuation bytes that could announce gigabytes
            run = 0
            for k, y in enumerate(c):
                run = run + 1 if y >= 128 else 0
                if run > 2 and rng.random() < .9: c[k] &= 127; run = 0
            out.append((s, c))
    return out
def decs(rng, n):
    out = []
    for _ in range(n):
        g = G(rng)
        s = g.record(rng.randint(1, 3))
        b = enc(g, s, g.value(s))
        for s2, c in pool_data(rng, [(s, b)]):
            out.append({"op": "dec", "s": s2, "d": c})
    # every byte on small schemas
    for t in (["boolean"], ["int"], ["string"], ["enum", "E", ["A", "B"]], ["union", [["null"], ["int"]]], ["fixed", "F", 2], ["array", ["boolean"]], ["map", ["boolean"]]):
        s = ["record", "R", [["f", t]]]
        out.append({"op": "dec", "s": s, "d": []})
        for a in range(128):
            out.append({"op": "dec", "s": s, "d": [a]})
            out.append({"op": "dec", "s": s, "d": [a, 0, 2, 2]})
            out.append({"op": "dec", "s": s, "d": [128 + a, rng.randint(0, 3), 1]})
        out.append({"op": "dec", "s": ["record", "R", [["f", ["long"]]]], "d": [255] * rng.randint(1, 12) + [rng.randint(0, 127)]})
    return out
def vi(n):
    z = (n << 1) ^ (n >> 63)
    z &= 2 ** 64 - 1
    o = []
    while z > 127:
        o.append(128 | (z & 127)); z >>= 7
    return o + [z]
def enc(g, s, v):
    if s[0] == "ref": s = g.defs[s[1]]
    t = s[0]
    n = lambda b: int.from_bytes(bytes(b), "little", signed=True)
    if t == "null": return []
    if t == "boolean": return [v[1]]
    if t in ("int", "long"): return vi(n(v[1]))
    if t in ("float", "double", "fixed"): return v[1]
    if t in ("bytes", "string"): return vi(len(v[1])) + v[1]
    if t == "enum": return vi(v[1] if v[0] == "enum" else s[2].index(v[2]))
    if t == "array":
        if v[1] and g.r.random() < .3:   # blocks with a byte count
            body = [b for x in v[1] for b in enc(g, s[1], x)]
            return vi(-len(v[1])) + vi(len(body)) + body + [0]
        return (vi(len(v[1])) + [b for x in v[1] for b in enc(g, s[1], x)] if v[1] else []) + [0]
    if t == "map": return (vi(len(v[1])) + [b for k, x in v[1] for b in vi(len(k)) + k + enc(g, s[1], x)] if v[1] else []) + [0]
    if t == "union": return vi(v[1]) + enc(g, s[1][v[1]], v[2])
    d = dict((k, x) for k, x in v[1])
    return [b for f in s[2] for b in enc(g, f[1], d[f[0]])]
def text(rng, s, noise=True):
    """schema as JSON text with attributes, orders and spacing that do not matter"""
    def obj(pairs, named):
        if noise:
            if rng.random() < .4: pairs.append(("doc", json.dumps(rng.choice(["", "a doc", "q\"é"]))))
            if named and rng.random() < .2: pairs.append(("aliases", "[\"Old\"]"))
            if rng.random() < .5: rng.shuffle(pairs)
        sp = lambda: rng.choice(["", "", " ", "\n\t"]) if noise else ""
        return "{" + sp() + ",".join(sp() + json.dumps(k) + sp() + ":" + sp() + v + sp() for k, v in pairs) + "}"
    t = s[0]
    if t == "array": return obj([("type", '"array"'), ("items", text(rng, s[1], noise))], False)
    if t == "map": return obj([("type", '"map"'), ("values", text(rng, s[1], noise))], False)
    if t == "union": return "[" + ", ".join(text(rng, x, noise) for x in s[1]) + "]"
    if t == "enum": return obj([("type", '"enum"'), ("name", json.dumps(s[1])), ("symbols", json.dumps(s[2]))], True)
    if t == "fixed": return obj([("type", '"fixed"'), ("name", json.dumps(s[1])), ("size", str(s[2]))], True)
    if t == "record":
        fs = [obj([("name", json.dumps(f[0])), ("type", text(rng, f[1], noise))], False) for f in s[2]]
        # the fields' texts must keep their order: a named type is defined before it is referred to
        return obj([("type", '"record"'), ("name", json.dumps(s[1])), ("fields", "[" + ",".join(fs) + "]")], True)
    if t == "ref": return json.dumps(s[1])
    return '{"type": "%s"}' % t if noise and rng.random() < .2 else json.dumps(t)
BAD = ['', '{', '"nosuch"', '{"type":"record"}', '{"type":"record","name":"R"}', '{"type":"record","name":"R","fields":[{"name":"a"}]}',
       '{"type":"record","name":"R","fields":[{"name":"a","type":"nosuch"}]}', '{"type":"record","fields":[]}', '{"type":"enum","name":"E","symbols":["1x"]}',
       '{"type":"enum","name":"E","symbols":["A","A"]}', '{"type":"enum","name":"E"}', '{"type":"fixed","name":"F"}', '{"type":"fixed","name":"F","size":"x"}',
       '["int","int"]', '["int",["string"]]', '{"type":"array"}', '{"type":"map"}', 'null', '17', 'true', '[17]', '{"name":"x"}', '{"type":17}',
       '{"type":"record","name":"1R","fields":[]}', '{"type":"record","name":"","fields":[]}', '{"type":"record","name":"R","fields":17}', '{"type":"record","name":"R","fields":[]',
       '{"type":"record","name":"R","fields":[]}}', '"int" "int"', "'int'", '{"type":"array","items":"nosuch"}', '{"type":"map","values":["int","int"]}',
       '{"type":"record","name":"R","fields":[{"name":"a","type":["null","null"]}]}', '{"type":"enum","name":"E","symbols":[1]}']
def parses(rng, n):
    out = []
    for b in BAD:
        out.append({"op": "parse", "good": False, "badname": '"1R"' in b or '""' in b, "text": list(b.encode())})
    for b in ([0xFF], [0x22, 0x69, 0xC3, 0x22], list(b'"int') + [0xC0, 0x22]):
        out.append({"op": "parse", "good": False, "text": b})
    for p in PRIM:
        out.append({"op": "parse", "good": True, "s": [p], "text": list(f'"{p}"'.encode())})
        out.append({"op": "parse", "good": True, "s": [p], "text": list(f' {{"type" : "{p}"}} '.encode())})
    for _ in range(n):
        g = G(rng)
        s = g.record(rng.randint(1, 4)) if rng.random() < .8 else g.schema(3)
        if s[0] == "ref": continue
        t = text(rng, s)
        out.append({"op": "parse", "good": True, "s": s, "text": list(t.encode())})
        if rng.random() < .2:
            t2 = t.rstrip()[:-1] if t.rstrip()[-1] in "}]\"" else t + "}"
            out.append({"op": "parse", "good": False, "text": list(t2.encode())})
        if rng.random() < .1:
            out.append({"op": "parse", "good": False, "text": list((t + "]").encode())})
        # bytes that are not UTF-8 wherever a string may hold them
        if rng.random() < .1 and t.startswith("{"):
            for b in ([0xFF], [0xC3], [0xED, 0xA0, 0x80], [0xC0, 0xAF], [0xF5, 0x80, 0x80, 0x80]):
                out.append({"op": "parse", "good": False, "text": list(b'{"doc":"') + b + list(b'",') + list(t[1:].encode())})
    return out
