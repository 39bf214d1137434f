pub use mini_macros::decl_runtime_apis;
#[derive(Debug)]
pub enum ApiError { StateBackendIsNotTrie, Application(String) }
pub struct ApiRef<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);
impl<'a, T> From<T> for ApiRef<'a, T> { fn from(t: T) -> Self { ApiRef(t, std::marker::PhantomData) } }
impl<'a, T> std::ops::Deref for ApiRef<'a, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
pub trait ProvideRuntimeApi<Block> {
	type Api;
	fn runtime_api(&self) -> ApiRef<Self::Api>;
}
impl std::fmt::Display for ApiError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
