//! Conformance driver for the runtime as a whole: spec/Tx.tla, spec/GovEval.tla, spec/FeesEval.tla and the other case files over the runtime.
use d_runtime::*;
fn main() {
	if std::env::args().nth(1).as_deref() == Some("eval") {
		drv::eval_lines(|j| match j["net"].as_str().expect("net") {
			"mainnet" => mainnet::rt::eval(j),
			_ => testnet::rt::eval(j),
		})
	} else {
		drv::main(testnet::rt::Tx::default())
	}
}
