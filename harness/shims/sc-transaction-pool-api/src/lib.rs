//! The part of the transaction pool's interface that queries read.
use std::sync::Arc;
pub type TransactionTag = Vec<u8>;
pub type TransactionPriority = u64;
pub type TransactionLongevity = u64;
pub trait InPoolTransaction {
	type Transaction;
	type Hash;
	fn data(&self) -> &Self::Transaction;
	fn hash(&self) -> &Self::Hash;
	fn priority(&self) -> &TransactionPriority;
	fn longevity(&self) -> &TransactionLongevity;
	fn requires(&self) -> &[TransactionTag];
	fn provides(&self) -> &[TransactionTag];
	fn is_propagable(&self) -> bool;
}
pub trait ReadyTransactions: Iterator {
	fn report_invalid(&mut self, tx: &Self::Item);
}
impl<T> ReadyTransactions for std::vec::IntoIter<T> {
	fn report_invalid(&mut self, _: &T) {}
}
#[derive(Debug, Clone, Default)]
pub struct PoolStatus {
	pub ready: usize,
	pub ready_bytes: usize,
	pub future: usize,
	pub future_bytes: usize,
}
impl PoolStatus {
	pub fn is_empty(&self) -> bool {
		self.ready == 0 && self.future == 0
	}
}
pub trait TransactionPool: Send + Sync {
	type Hash;
	type InPoolTransaction: InPoolTransaction<Hash = Self::Hash>;
	fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Self::InPoolTransaction>> + Send>;
	fn futures(&self) -> Vec<Self::InPoolTransaction>;
	fn status(&self) -> PoolStatus;
	fn ready_transaction(&self, hash: &Self::Hash) -> Option<Arc<Self::InPoolTransaction>>;
}
