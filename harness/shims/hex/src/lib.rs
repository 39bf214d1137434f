#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FromHexError { InvalidHexCharacter { c: char, index: usize }, OddLength, InvalidStringLength }
impl core::fmt::Display for FromHexError { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for FromHexError {}
pub fn encode<T: AsRef<[u8]>>(d: T) -> String { d.as_ref().iter().map(|b| format!("{:02x}", b)).collect() }
pub fn decode<T: AsRef<[u8]>>(d: T) -> Result<Vec<u8>, FromHexError> {
	let d = d.as_ref();
	if d.len() % 2 != 0 { return Err(FromHexError::OddLength) }
	let v = |i: usize| (d[i] as char).to_digit(16).map(|x| x as u8).ok_or(FromHexError::InvalidHexCharacter { c: d[i] as char, index: i });
	(0..d.len() / 2).map(|i| Ok(v(2 * i)? << 4 | v(2 * i + 1)?)).collect()
}
