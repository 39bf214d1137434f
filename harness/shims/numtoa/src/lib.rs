//! The part of `numtoa` the code uses: decimal (or any base) rendering into a caller's buffer.
pub trait NumToA<T> {
	fn numtoa(self, base: T, buf: &mut [u8]) -> &[u8];
	fn numtoa_str(self, base: T, buf: &mut [u8]) -> &str;
}
macro_rules! imp { ($($t:ty),*) => { $(
impl NumToA<$t> for $t {
	fn numtoa(mut self, base: $t, buf: &mut [u8]) -> &[u8] {
		let mut i = buf.len();
		if self == 0 { i -= 1; buf[i] = b'0'; return &buf[i..] }
		while self > 0 { i -= 1; let d = (self % base) as u8; buf[i] = if d < 10 { b'0' + d } else { b'A' + d - 10 }; self /= base; }
		&buf[i..]
	}
	fn numtoa_str(self, base: $t, buf: &mut [u8]) -> &str { core::str::from_utf8(NumToA::numtoa(self, base, buf)).unwrap() }
}
)* } }
imp!(u8, u16, u32, u64, u128, usize);
