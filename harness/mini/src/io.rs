//! `sp_io`
use crate::ext;
pub use crate::hashing;
pub mod offchain_index {
	pub fn set(k: &[u8], v: &[u8]) {
		crate::ext::index_set(k, v)
	}
	pub fn clear(k: &[u8]) {
		crate::ext::index_clear(k)
	}
}
pub mod offchain {
	use crate::runtime::offchain::*;
	pub fn timestamp() -> Timestamp {
		Timestamp(crate::ext::now_ms())
	}
	pub fn local_storage_set(_: StorageKind, k: &[u8], v: &[u8]) {
		crate::ext::local_set(k, v.to_vec())
	}
	pub fn local_storage_get(_: StorageKind, k: &[u8]) -> Option<Vec<u8>> {
		crate::ext::local_get(k)
	}
	pub fn local_storage_clear(_: StorageKind, k: &[u8]) {
		crate::ext::local_clear(k)
	}
	pub fn sleep_until(t: Timestamp) {
		if t.0 > crate::ext::now_ms() {
			crate::ext::set_now_ms(t.0)
		}
	}
}
pub mod storage {
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		crate::ext::get(k)
	}
	pub fn set(k: &[u8], v: &[u8]) {
		crate::ext::put(k, v.to_vec())
	}
	pub fn clear(k: &[u8]) {
		crate::ext::kill(k)
	}
	pub fn exists(k: &[u8]) -> bool {
		crate::ext::exists(k)
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		crate::ext::next_key(k)
	}
}
pub mod hashing_traits {
	use crate::core_::H256;
	use parity_scale_codec::Encode;
	pub trait Hash: 'static {
		type Output;
		fn hash(d: &[u8]) -> Self::Output;
		fn hash_of<S: Encode>(s: &S) -> Self::Output {
			Self::hash(&s.encode())
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct BlakeTwo256;
	impl Hash for BlakeTwo256 {
		type Output = H256;
		fn hash(d: &[u8]) -> H256 {
			H256(crate::hashing::blake2_256(d))
		}
	}
}
pub enum KillStorageResult {
	AllRemoved(u32),
	SomeRemaining(u32),
}
#[derive(Clone, Debug)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
impl MultiRemovalResults {
	pub fn deconstruct(self) -> (Option<Vec<u8>>, u32, u32, u32) {
		(self.maybe_cursor, self.backend, self.unique, self.loops)
	}
}
/// Storage a genesis builds
#[derive(Clone, Default)]
pub struct GenesisStorage {
	pub state: ext::State,
}
pub trait BuildStorage {
	fn build_storage(&self) -> Result<GenesisStorage, String> {
		let mut s = GenesisStorage::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, s: &mut GenesisStorage) -> Result<(), String>;
}
#[derive(Default)]
pub struct TestExternalities {
	snap: ext::Snapshot,
}
impl From<GenesisStorage> for TestExternalities {
	fn from(s: GenesisStorage) -> Self {
		Self::new(s)
	}
}
impl TestExternalities {
	pub fn new(s: GenesisStorage) -> Self {
		TestExternalities { snap: ext::Snapshot { state: s.state, local: Default::default() } }
	}
	pub fn new_empty() -> Self {
		Self::default()
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let outer = ext::snapshot();
		ext::restore(&self.snap);
		let r = f();
		self.snap = ext::snapshot();
		ext::restore(&outer);
		r
	}
	pub fn persist_offchain_overlay(&mut self) {
		self.execute_with(ext::persist_index)
	}
	pub fn commit_all(&mut self) -> Result<(), ()> {
		Ok(())
	}
	pub fn offchain_db(&self) -> () {}
	pub fn register_extension<T>(&mut self, _: T) {}
}
pub fn in_genesis<R>(s: &mut GenesisStorage, f: impl FnOnce() -> R) -> R {
	let outer = ext::snapshot();
	ext::restore(&ext::Snapshot { state: std::mem::take(&mut s.state), local: Default::default() });
	let r = f();
	s.state = ext::snapshot().state;
	ext::restore(&outer);
	r
}
