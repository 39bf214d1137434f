use mini::runtime::traits::{Block as BlockT, NumberFor};
pub struct Info<B: BlockT> { pub best_hash: B::Hash, pub best_number: NumberFor<B>, pub finalized_hash: B::Hash, pub finalized_number: NumberFor<B> }
pub trait HeaderBackend<B: BlockT>: Send + Sync {
	fn info(&self) -> Info<B>;
}
