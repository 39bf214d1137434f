//! `impl_serde::serialize` (0x-prefixed lower-case hex).
pub mod serialize {
	use serde::{de, Deserializer, Serializer};
	#[derive(Debug, PartialEq, Eq)]
	pub enum FromHexError { MissingPrefix, InvalidHex { character: char, index: usize } }
	impl std::fmt::Display for FromHexError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self { Self::MissingPrefix => write!(f, "0x prefix is missing"), Self::InvalidHex { character, index } => write!(f, "invalid hex character: {}, at {}", character, index) } } }
	impl std::error::Error for FromHexError {}
	pub fn to_hex(b: &[u8], skip_leading_zero: bool) -> String {
		let b = if skip_leading_zero { let k = b.iter().take_while(|x| **x == 0).count(); let b = &b[k..]; if b.is_empty() { return "0x0".into() } b } else { b };
		if b.is_empty() { return "0x".into() }
		let mut s: String = b.iter().map(|x| format!("{:02x}", x)).collect();
		if skip_leading_zero && s.starts_with('0') { s.remove(0); }
		format!("0x{}", s)
	}
	pub fn from_hex(v: &str) -> Result<Vec<u8>, FromHexError> {
		let stripped = v.strip_prefix("0x").ok_or(FromHexError::MissingPrefix)?;
		let mut o = vec![];
		let mut modulus = stripped.len() % 2;
		let mut buf = 0u8;
		for (i, b) in stripped.bytes().enumerate() {
			buf <<= 4;
			match b {
				b'A'..=b'F' => buf |= b - b'A' + 10,
				b'a'..=b'f' => buf |= b - b'a' + 10,
				b'0'..=b'9' => buf |= b - b'0',
				_ => return Err(FromHexError::InvalidHex { character: stripped[i..].chars().next().unwrap_or('?'), index: i + 2 }),
			}
			modulus += 1;
			if modulus == 2 { modulus = 0; o.push(buf); buf = 0; }
		}
		Ok(o)
	}
	pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&to_hex(b, false)) }
	pub fn serialize_uint<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&to_hex(b, true)) }
	pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
		struct V;
		impl<'b> de::Visitor<'b> for V {
			type Value = Vec<u8>;
			fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "a 0x-prefixed hex string") }
			fn visit_str<E: de::Error>(self, v: &str) -> Result<Vec<u8>, E> { from_hex(v).map_err(E::custom) }
			fn visit_string<E: de::Error>(self, v: String) -> Result<Vec<u8>, E> { self.visit_str(&v) }
		}
		d.deserialize_str(V)
	}
}
