//! The runtime's own source over the stand-in SDK: as mainnet and as testnet.
#![recursion_limit = "512"]
pub mod mainnet {
	include!("rt_pre.rs");
	include!(concat!(env!("OUT_DIR"), "/mainnet.rs"));
	pub mod rt {
		use super::*;
		include!("rt.rs");
		fn eval_more(op: &str, _: &Value) -> Value {
			panic!("op {op}")
		}
	}
}
pub mod testnet {
	include!("rt_pre.rs");
	include!(concat!(env!("OUT_DIR"), "/testnet.rs"));
	pub mod rt {
		use super::*;
		include!("rt.rs");
		include!("tx.rs");
		fn eval_more(_: &str, j: &Value) -> Value {
			eval_tx(j)
		}
	}
}
