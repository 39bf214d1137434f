#!/usr/bin/env python3
"""Writes spec/data/handle_chars.json, the character tables HandleData.tla is defined over.

The tables come from Python's unicodedata (an implementation independent of the crates the code
uses) and from the confusables list and ranges as they stood at the pinned commit. Run once; the
result is committed so that a later change of the repository's data shows up as a difference."""
import json, unicodedata as U, re
N = 0x30000
ws = [9,10,11,12,13,0x20,0x85,0xA0,0x1680,*range(0x2000,0x200B),0x2028,0x2029,0x202F,0x205F,0x3000]
ranges = [(0x20,0x7F),(0x80,0xFF),(0x100,0x17F),(0x370,0x3FF),(0x400,0x4FF),(0x500,0x52F),(0x590,0x5FF),(0x600,0x6FF),(0x900,0x97F),(0x980,0x9FF),(0xE00,0xE7F),(0x1100,0x11FF),(0x1E00,0x1EFF),(0x1F00,0x1FFF),(0x3040,0x309F),(0x30A0,0x30FF),(0x3400,0x4DBF),(0x4E00,0x9FFF),(0xAC00,0xD7AF),(0xF900,0xFAFF),(0xFB50,0xFDFF)]
inr = lambda c: any(a <= (c & 0xFFFF) <= b for a, b in ranges)   # as the build script decides today
dec = []
for c in range(N):
    if 0xD800 <= c <= 0xDFFF: dec.append([]); continue
    d = U.normalize('NFKD', chr(c))
    o = [ord(x) for x in d if not U.category(x).startswith('M')]
    dec.append([] if o == [c] else (o if o else [-1]))
conf = [0]*N
lines = []
for l in open('/repo/pallets/handles/src/handles-utils/src/data/confusable_characters.txt', encoding='utf8').read().splitlines():
    k = ord(l[0])
    if not inr(k): continue
    hs = [ord(h) for h in l[1:] if inr(ord(h))]
    for h in hs: conf[h] = k
    lines.append([k]+hs)
excl = [c for c in range(N) if U.category(chr(c)) in ('Cn','Cs','Co')]
json.dump({"ws": ws, "dec": dec, "conf": conf, "lines": lines, "ranges": [list(r) for r in ranges],
  "blocked": [ord(c) for c in '"#%(),.:;<>@\\`{}'],
  "reserved": [[ord(c) for c in w] for w in ["admin","everyone","all","administrator","mod","moderator","here","channel"]]},
  open('/verif/spec/data/handle_chars.json','w'), separators=(',',':'))
print(sum(1 for d in dec if d), sum(1 for c in conf if c), len(excl))
