use rt_stubs::*;
use rt_stubs::{council, cumulus_pallet_aura_ext, cumulus_pallet_parachain_system, pallet_aura, pallet_authorship, pallet_collator_selection, pallet_collective, pallet_democracy, pallet_multisig,
	pallet_preimage, pallet_proxy, pallet_scheduler, pallet_session, pallet_sudo, pallet_timestamp, pallet_treasury, parachain_info, polkadot_runtime_common, sp_consensus_aura, technical_committee};
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Uxt {
	pub function: RuntimeCall,
}
impl GetDispatchInfo for Uxt {
	fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
		self.function.get_dispatch_info()
	}
}
// The transaction a wallet sends for a quote: bytes of any length, which stand for one call.
thread_local! { pub static ASKED: std::cell::RefCell<Option<RuntimeCall>> = std::cell::RefCell::new(None); }
impl parity_scale_codec::Decode for Uxt {
	fn decode<I: parity_scale_codec::Input>(input: &mut I) -> Result<Self, parity_scale_codec::Error> {
		match input.read_byte()? {
			4 => Ok(Uxt { function: ASKED.with(|c| c.borrow().clone()).expect("asked") }),
			_ => Err("not a transaction".into()),
		}
	}
}
pub type Block = generic::Block<Header, Uxt>;
pub type OriginCaller = frame_system::Caller<AccountId>;
