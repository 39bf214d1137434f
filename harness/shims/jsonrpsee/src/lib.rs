//! The parts of jsonrpsee the RPC crates use: plain traits for the server side and error values.
pub mod types {
	#[derive(Debug, Clone, PartialEq)]
	pub struct ErrorObject {
		code: i32,
		message: String,
		data: Option<String>,
	}
	impl ErrorObject {
		pub fn owned<S: std::fmt::Debug>(code: i32, message: impl Into<String>, data: Option<S>) -> Self {
			ErrorObject { code, message: message.into(), data: data.map(|d| format!("{d:?}")) }
		}
		pub fn code(&self) -> i32 { self.code }
		pub fn message(&self) -> &str { &self.message }
	}
	pub mod error {
		pub use super::ErrorObject;
		#[derive(Debug, Clone, PartialEq)]
		pub enum CallError { InvalidParams(String), Failed(String), Custom(ErrorObject) }
		#[derive(Debug, Clone, Copy, PartialEq)]
		pub enum ErrorCode { ParseError, OversizedRequest, InvalidRequest, MethodNotFound, ServerIsBusy, InvalidParams, InternalError, ServerError(i32) }
		impl ErrorCode {
			pub const fn code(&self) -> i32 {
				match self {
					ErrorCode::ParseError => -32700,
					ErrorCode::OversizedRequest => -32701,
					ErrorCode::InvalidRequest => -32600,
					ErrorCode::MethodNotFound => -32601,
					ErrorCode::ServerIsBusy => -32604,
					ErrorCode::InvalidParams => -32602,
					ErrorCode::InternalError => -32603,
					ErrorCode::ServerError(c) => *c,
				}
			}
		}
	}
}
pub mod core {
	pub use mini_macros::noop_attr as async_trait;
	#[derive(Debug)]
	pub enum Error { Call(crate::types::error::CallError), Custom(String) }
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") }
	}
	impl std::error::Error for Error {}
	impl From<crate::types::error::CallError> for Error {
		fn from(e: crate::types::error::CallError) -> Self { Error::Call(e) }
	}
	pub type RpcResult<T> = Result<T, Error>;
}
pub mod proc_macros {
	pub use mini_macros::rpc;
}
pub mod tracing {
	#[macro_export]
	macro_rules! __rpc_log { ($($t:tt)*) => { { let _ = format!($($t)*); } }; }
	pub use crate::__rpc_log as warn;
	pub use crate::__rpc_log as info;
	pub use crate::__rpc_log as debug;
	pub use crate::__rpc_log as error;
}
