//! multibase 0.9: self-describing base encodings.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error { UnknownBase(char), InvalidBaseString }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[rustfmt::skip]
pub enum Base { Identity, Base2, Base8, Base10, Base16Lower, Base16Upper, Base32Lower, Base32Upper, Base32PadLower, Base32PadUpper, Base32HexLower, Base32HexUpper, Base32HexPadLower, Base32HexPadUpper, Base32Z, Base36Lower, Base36Upper, Base58Flickr, Base58Btc, Base64, Base64Pad, Base64Url, Base64UrlPad }
use Base::*;
const ALL: &[(Base, char, u32, &str, bool)] = &[
	(Base2, '0', 1, "01", false), (Base8, '7', 3, "01234567", false), (Base10, '9', 0, "0123456789", false),
	(Base16Lower, 'f', 4, "0123456789abcdef", false), (Base16Upper, 'F', 4, "0123456789ABCDEF", false),
	(Base32Lower, 'b', 5, "abcdefghijklmnopqrstuvwxyz234567", false), (Base32Upper, 'B', 5, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", false),
	(Base32PadLower, 'c', 5, "abcdefghijklmnopqrstuvwxyz234567", true), (Base32PadUpper, 'C', 5, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", true),
	(Base32HexLower, 'v', 5, "0123456789abcdefghijklmnopqrstuv", false), (Base32HexUpper, 'V', 5, "0123456789ABCDEFGHIJKLMNOPQRSTUV", false),
	(Base32HexPadLower, 't', 5, "0123456789abcdefghijklmnopqrstuv", true), (Base32HexPadUpper, 'T', 5, "0123456789ABCDEFGHIJKLMNOPQRSTUV", true),
	(Base32Z, 'h', 5, "ybndrfg8ejkmcpqxot1uwisza345h769", false),
	(Base36Lower, 'k', 0, "0123456789abcdefghijklmnopqrstuvwxyz", false), (Base36Upper, 'K', 0, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", false),
	(Base58Flickr, 'Z', 0, "123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ", false),
	(Base58Btc, 'z', 0, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", false),
	(Base64, 'm', 6, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", false),
	(Base64Pad, 'M', 6, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", true),
	(Base64Url, 'u', 6, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", false),
	(Base64UrlPad, 'U', 6, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", true),
];
fn group(bits: u32) -> usize { match bits { 5 => 8, 6 => 4, _ => 1 } }
pub fn encode<T: AsRef<[u8]>>(b: Base, d: T) -> String {
	let d = d.as_ref();
	if b == Identity { return format!("\0{}", String::from_utf8_lossy(d)) }
	let (_, code, bits, al, pad) = ALL.iter().find(|x| x.0 == b).unwrap();
	let al: Vec<char> = al.chars().collect();
	let mut o = String::new();
	o.push(*code);
	if *bits > 0 {
		let (mut acc, mut n, mut cnt) = (0u32, 0u32, 0);
		for x in d {
			acc = (acc << 8) | *x as u32;
			n += 8;
			while n >= *bits { o.push(al[((acc >> (n - bits)) & ((1 << bits) - 1)) as usize]); n -= bits; cnt += 1; acc &= (1 << n) - 1; }
		}
		if n > 0 { o.push(al[((acc << (bits - n)) & ((1 << bits) - 1)) as usize]); cnt += 1; }
		if *pad { while cnt % group(*bits) != 0 { o.push('='); cnt += 1; } }
	} else {
		let base = al.len() as u32;
		let mut digits: Vec<u8> = vec![];
		for x in d {
			let mut c = *x as u32;
			for g in digits.iter_mut() { c += (*g as u32) << 8; *g = (c % base) as u8; c /= base; }
			while c > 0 { digits.push((c % base) as u8); c /= base; }
		}
		for x in d { if *x == 0 { o.push(al[0]) } else { break } }
		for g in digits.iter().rev() { o.push(al[*g as usize]) }
	}
	o
}
pub fn decode<T: AsRef<str>>(s: T) -> Result<(Base, Vec<u8>), Error> {
	let s = s.as_ref();
	let code = s.chars().next().ok_or(Error::InvalidBaseString)?;
	let body = &s[code.len_utf8()..];
	if code == '\0' { return Ok((Identity, body.as_bytes().to_vec())) }
	let (b, _, bits, al, pad) = ALL.iter().find(|x| x.1 == code).ok_or(Error::UnknownBase(code))?;
	let mut t: Vec<char> = body.chars().collect();
	if *pad {
		if t.len() % group(*bits) != 0 { return Err(Error::InvalidBaseString) }
		let mut k = 0;
		while t.last() == Some(&'=') { t.pop(); k += 1; }
		if k >= group(*bits) { return Err(Error::InvalidBaseString) }
	}
	let val = |c: char| al.chars().position(|x| x == c).map(|x| x as u32).ok_or(Error::InvalidBaseString);
	let mut o = vec![];
	if *bits > 0 {
		let (mut acc, mut n) = (0u32, 0u32);
		for c in t { acc = (acc << bits) | val(c)?; n += bits; if n >= 8 { o.push((acc >> (n - 8)) as u8); n -= 8; acc &= (1 << n) - 1; } }
		if n >= *bits || acc != 0 { return Err(Error::InvalidBaseString) }
	} else {
		let base = al.chars().count() as u32;
		let z = al.chars().next().unwrap();
		for c in &t { let mut v = val(*c)?; for g in o.iter_mut() { v += (*g as u32) * base; *g = v as u8; v >>= 8; } while v > 0 { o.push(v as u8); v >>= 8; } }
		for c in &t { if *c == z { o.push(0) } else { break } }
		o.reverse();
	}
	Ok((*b, o))
}
