//! `common-runtime` without the generated weight files of SDK pallets.
#[path = "/repo/runtime/common/src/constants.rs"]
pub mod constants;
#[path = "/repo/runtime/common/src/extensions/mod.rs"]
pub mod extensions;
#[path = "/repo/runtime/common/src/fee.rs"]
pub mod fee;
#[path = "/repo/runtime/common/src/proxy.rs"]
pub mod proxy;
pub mod weights {
	#[path = "/repo/runtime/common/src/weights/block_weights.rs"]
	pub mod block_weights;
	#[path = "/repo/runtime/common/src/weights/extrinsic_weights.rs"]
	pub mod extrinsic_weights;
}
#[macro_export]
macro_rules! prod_or_testnet_or_local {
	($prod:expr, $test:expr, $local:expr) => {
		if cfg!(any(feature = "frequency-local", feature = "frequency-no-relay")) {
			$local
		} else if cfg!(feature = "frequency-testnet") {
			$test
		} else {
			$prod
		}
	};
}
