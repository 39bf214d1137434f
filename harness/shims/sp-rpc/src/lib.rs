pub mod number {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum NumberOrHex { Number(u64), Hex(u128) }
	impl Default for NumberOrHex { fn default() -> Self { NumberOrHex::Number(0) } }
	impl From<u64> for NumberOrHex { fn from(n: u64) -> Self { NumberOrHex::Number(n) } }
	impl From<u128> for NumberOrHex { fn from(n: u128) -> Self { NumberOrHex::Hex(n) } }
	impl From<u32> for NumberOrHex { fn from(n: u32) -> Self { NumberOrHex::Number(n as u64) } }
}
