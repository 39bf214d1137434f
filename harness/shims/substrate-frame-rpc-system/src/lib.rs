use mini::runtime::traits::Block as BlockT;
pub trait AccountNonceApi<Block: BlockT, AccountId, Nonce> {
	fn account_nonce(&self, at: Block::Hash, account: AccountId) -> Result<Nonce, sp_api::ApiError>;
}
