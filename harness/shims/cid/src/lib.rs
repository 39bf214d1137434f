//! `Cid::read_bytes` as in the `cid` crate 0.11 (binary CIDv0 / CIDv1 with a multihash of at most 64 bytes).
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { UnknownCodec, InputTooShort, ParsingError, InvalidCidVersion, InvalidCidV0Codec, InvalidCidV0Multihash, InvalidCidV0Base, VarIntDecodeError, InvalidExplicitCidV0, Io }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Version { V0, V1 }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cid { version: Version, codec: u64, code: u64, digest: Vec<u8> }
fn varint(r: &mut &[u8]) -> Result<u64, Error> {
	let mut n = 0u64;
	for i in 0..10 {
		let (b, rest) = r.split_first().ok_or(Error::Io)?;
		*r = rest;
		let k = (b & 0x7f) as u64;
		n |= k.checked_shl(7 * i).unwrap_or(0);
		if b & 0x80 == 0 {
			if *b == 0 && i > 0 { return Err(Error::VarIntDecodeError) }
			if i == 9 && *b > 1 { return Err(Error::VarIntDecodeError) }
			return Ok(n)
		}
	}
	Err(Error::VarIntDecodeError)
}
fn exact(r: &mut &[u8], n: usize) -> Result<Vec<u8>, Error> {
	if r.len() < n { return Err(Error::Io) }
	let (a, b) = r.split_at(n);
	*r = b;
	Ok(a.to_vec())
}
impl Cid {
	pub fn version(&self) -> Version { self.version }
	pub fn codec(&self) -> u64 { self.codec }
	pub fn read_bytes(mut r: &[u8]) -> Result<Self, Error> {
		let version = varint(&mut r)?;
		let codec = varint(&mut r)?;
		if [version, codec] == [0x12, 0x20] {
			return Ok(Cid { version: Version::V0, codec: 0x70, code: 0x12, digest: exact(&mut r, 32)? })
		}
		match version {
			0 => Err(Error::InvalidExplicitCidV0),
			1 => {
				let code = varint(&mut r)?;
				let size = varint(&mut r)?;
				if size > 64 { return Err(Error::ParsingError) }
				Ok(Cid { version: Version::V1, codec, code, digest: exact(&mut r, size as usize)? })
			},
			_ => Err(Error::InvalidCidVersion),
		}
	}
}
impl TryFrom<&[u8]> for Cid { type Error = Error; fn try_from(b: &[u8]) -> Result<Self, Error> { Self::read_bytes(b) } }
