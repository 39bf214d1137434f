HU = "pallets/handles/src/handles-utils/src/"
H = "pallets/handles/src/lib.rs"
def cps(s): return [ord(c) for c in s]
def claim(k, key, base, exp, signer=None, tamper="none"):
    return {"k": k, "key": key, "signer": signer or key, "base": base, "exp": exp, "tamper": tamper}
SEEDS = [
 dict(id="h01-marks-latin-only", property="H01", driver="d-hdata",
  needs="a combining mark outside U+0300..U+036F (vocalised Hebrew, Arabic, Devanagari), not covered by the sample rows",
  breaks="diacritics of other scripts survive canonicalisation, so the same word with and without vowel points gets two canonical forms",
  edits=[(HU + "converter.rs", ".filter(|character| !is_combining_mark(*character))",
   ".filter(|character| {\n\t\t\t!is_combining_mark(*character) || ('\\u{5B0}'..='\\u{5BD}').contains(character)\n\t\t})")],
  cases=[{"op": "same", "s": [0x5D0, 0x5D1, 0x5D2], "v": [0x5D0, 0x5B7, 0x5D1, 0x5D2]}],
  expect=[(0, "out.canon", [0x5D0, 0x5D1, 0x5D2]), (0, "out.vcanon", [0x5D0, 0x5D1, 0x5D2])]),
 dict(id="h02-range-skips-own-slot", property="H02", driver="d-hdata",
  needs="a range whose width is not below 128 (or exhausting the range): duplicates appear only past the first 128 draws",
  breaks="for wide ranges the swap is skipped beyond 128 outstanding numbers, so numbers are issued twice",
  edits=[(HU + "suffix.rs", "indices.swap((i - min) as usize, (j - min) as usize);\n\t\tindices[(i - min) as usize]",
   "let (last, pick) = ((i - min) as usize, (j - min) as usize);\n\t\tlet out = indices[pick];\n\t\tindices[pick] = indices[last & 0x3ff];\n\t\tout")],
  cases=[{"op": "suffix", "s": cps("zoe"), "min": 0, "max": 2047, "take": 3, "ref": 5}],
  expect=[(0, "out.distinct", 2048)]),
 dict(id="h04-exhaustion-wraps", property="H04", driver="d-handles",
  needs="claiming the same base beyond the end of its suffix sequence after the suffix range was narrowed or exhausted",
  breaks="when the sequence is exhausted the claim falls back to the first suffix instead of failing",
  edits=[(H, "next = current.checked_add(1).ok_or(Error::<T>::SuffixesExhausted)?;",
   "let width = T::HandleSuffixMax::get().saturating_sub(suffix_min).saturating_add(1);\n\t\t\t\t\t\tnext = current.checked_add(1).ok_or(Error::<T>::SuffixesExhausted)? % width;")],
  cfg="handles_small",
  acts=[claim("claim", "k1", "a1", 2), claim("claim", "k2", "a1", 2), {"k": "retire", "key": "k1"}, claim("claim", "k1", "a2", 2)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "ok"), (3, "r.r", "err")]),
 dict(id="h03-retire-raw-base", property="H03", driver="d-handles",
  needs="retiring a handle whose base differs from its canonical form",
  breaks="retiring removes the reverse mapping under the raw base, so the retired handle still resolves to the MSA",
  edits=[(H, "let (_, canonical_base) =\n\t\t\t\tSelf::get_canonical_string_vec_from_base_handle(&base_handle_str);\n\n\t\t\t// Remove",
   "let canonical_base: CanonicalBase =\n\t\t\t\tbase_handle_str.to_lowercase().into_bytes().try_into().unwrap_or_default();\n\n\t\t\t// Remove")],
  cfg="handles_small",
  acts=[claim("claim", "k1", "a2", 2), {"k": "retire", "key": "k1"}],
  expect=[(0, "r.r", "ok"), (1, "t.own.A", ["0", "0", "0"])]),
 dict(id="h06-retire-boundary", property="H06", driver="d-handles",
  needs="a free retirement submitted exactly one block before the claim payload expires, then the payload again",
  breaks="a handle can be retired for free while its claim payload is still valid, so the payload can be replayed",
  edits=[("pallets/handles/src/handles_signed_extension.rs", "let is_past_min_lifetime = current_block >= expiration;", "use sp_runtime::traits::{One, Saturating};\n\t\tlet is_past_min_lifetime = current_block >= expiration.saturating_sub(One::one());")],
  cfg="handles_small",
  acts=[claim("claim", "k1", "a1", 2), {"k": "retiretx", "key": "k1"}, claim("claim", "k1", "a1", 2)],
  expect=[(0, "r.r", "ok"), (1, "r.r", "err"), (2, "r.r", "err")]),
 dict(id="h05-query-skips-reserved-case", property="H05", driver="d-handles",
  needs="a handle equal to a reserved word in the query or claim with the length boundary of 20 characters in canonical form",
  breaks="base handles of 20 multi-character letters pass although their canonical form is longer than 20 characters",
  edits=[(H, "let len = canonical_handle_str.chars().count() as u32;", "let len = canonical_handle_str.chars().count().min(HANDLE_CHARS_MAX as usize) as u32;")],
  cases=[{"op": "offer", "b": list("\ufb03\ufb03\ufb03\ufb03\ufb03\ufb03\ufb03".encode())}],
  expect=[(0, "out.v", False), (0, "out.claim", "err")]),
]
