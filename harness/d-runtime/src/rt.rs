use cfgs::{acc, acc_name};
use drv::{class, err, int, ok, st};
use frame_support::traits::{EnsureOrigin, OriginTrait, UnfilteredDispatchable};
use parity_scale_codec::Decode;
use serde_json::{json, Value};
use sp_runtime::traits::{Dispatchable, SignedExtension};
use std::collections::BTreeMap;

/// (pallet, call) of a runtime call
pub fn name_of(c: &RuntimeCall) -> (String, String) {
	let d = format!("{c:?}");
	let (p, r) = d.split_once('(').expect("pallet");
	let n: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
	(p.to_string(), n)
}
thread_local! { static TABLE: std::cell::OnceCell<BTreeMap<String, RuntimeCall>> = std::cell::OnceCell::new(); }
/// Every call of the runtime, with all-zero arguments
pub fn table<R>(f: impl FnOnce(&BTreeMap<String, RuntimeCall>) -> R) -> R {
	TABLE.with(|t| {
		f(t.get_or_init(|| {
			let mut m = BTreeMap::new();
			for p in 0..=255u8 {
				for c in 0..=255u8 {
					let mut b = vec![p, c];
					b.extend([0u8; 600]);
					if let Ok(x) = RuntimeCall::decode(&mut &b[..]) {
						let (p, n) = name_of(&x);
						m.insert(format!("{p}.{n}"), x);
					}
				}
			}
			m
		}))
	})
}
pub fn proxy_type(s: &str) -> ProxyType {
	match s {
		"Any" => ProxyType::Any,
		"NonTransfer" => ProxyType::NonTransfer,
		"Governance" => ProxyType::Governance,
		"Staking" => ProxyType::Staking,
		"CancelProxy" => ProxyType::CancelProxy,
		_ => panic!("proxy type {s}"),
	}
}
/// The call a case describes: {"p": pallet, "n": call, "in": [..], "ty": proxy type or ""}
pub fn build(j: &Value) -> RuntimeCall {
	let n = format!("{}.{}", st(j, "p"), st(j, "n"));
	let n = n.as_str();
	let inner: Vec<RuntimeCall> = j["in"].as_array().map(|v| v.iter().map(build).collect()).unwrap_or_default();
	let one = || Box::new(inner[0].clone());
	match n {
		"Utility.batch" => pallet_utility::Call::batch { calls: inner }.into(),
		"Utility.batch_all" => pallet_utility::Call::batch_all { calls: inner }.into(),
		"Utility.force_batch" => pallet_utility::Call::force_batch { calls: inner }.into(),
		"Utility.as_derivative" => pallet_utility::Call::as_derivative { index: 0, call: one() }.into(),
		"FrequencyTxPayment.pay_with_capacity" => pallet_frequency_tx_payment::Call::pay_with_capacity { call: one() }.into(),
		"FrequencyTxPayment.pay_with_capacity_batch_all" => pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls: inner }.into(),
		"Proxy.proxy" => pallet_proxy::Call::proxy { real: MultiAddress::Id(acc("real")), force_proxy_type: Some(proxy_type(st(j, "ty"))), call: one() }.into(),
		"Proxy.add_proxy" if st(j, "ty") != "" => pallet_proxy::Call::add_proxy { delegate: MultiAddress::Id(acc("x")), proxy_type: proxy_type(st(j, "ty")), delay: 0 }.into(),
		"Proxy.remove_proxy" if st(j, "ty") != "" => pallet_proxy::Call::remove_proxy { delegate: MultiAddress::Id(acc("x")), proxy_type: proxy_type(st(j, "ty")), delay: 0 }.into(),
		_ => table(|t| t.get(n).unwrap_or_else(|| panic!("no call {n}")).clone()),
	}
}
fn is_filtered(e: &DispatchError) -> bool {
	matches!(e, DispatchError::Module(m) if m.message == Some("CallFiltered"))
}
pub fn origin(j: &Value) -> RuntimeOrigin {
	use frame_system::Caller;
	match st(j, "o") {
		"root" => RuntimeOrigin::root(),
		"none" => RuntimeOrigin::none(),
		"signed" => RuntimeOrigin::signed(acc("s")),
		"members" => Caller::Members(int(j, "i") as u8, int(j, "n") as u32, int(j, "m") as u32).into(),
		"member" => Caller::Member(int(j, "i") as u8, acc("s")).into(),
		o => panic!("origin {o}"),
	}
}
macro_rules! authority {
	($o:expr, $p:ident :: $t:ident) => {
		<<Runtime as $p::Config>::$t as EnsureOrigin<RuntimeOrigin>>::try_origin($o).is_ok()
	};
}
pub fn eval(j: &Value) -> Value {
	mini::ext::reset();
	System::set_block_number(1);
	match st(j, "op") {
		"names" => json!(table(|t| t.keys().cloned().collect::<Vec<_>>())),
		"base" => json!(BaseCallFilter::contains(&build(&j["call"]))),
		"proxy" => json!(InstanceFilter::<RuntimeCall>::filter(&proxy_type(st(j, "ty")), &build(&j["call"]))),
		"passkey" => json!(PasskeyCallFilter::contains(&build(&j["call"]))),
		"superset" => json!(<ProxyType as InstanceFilter<RuntimeCall>>::is_superset(&proxy_type(st(j, "ty")), &proxy_type(st(j, "of")))),
		"free" => json!(build(&j["call"]).get_dispatch_info().pays_fee == Pays::No),
		// was anything stopped by a filter when `s` dispatches the call?
		"via" => {
			for t in ["Any", "NonTransfer", "Governance", "Staking", "CancelProxy"] {
				// everybody has the accounts "s" and "real" as delegates, of every type
				for (o, d) in [("real", "s"), ("real", "real"), ("s", "real")] {
					pallet_proxy::Proxies::<Runtime>::mutate(acc(o), |v| v.push((acc(d), proxy_type(t), 0)));
				}
			}
			let c = build(&j["call"]);
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.dispatch(RuntimeOrigin::signed(acc("s")))));
			let mut f = matches!(&r, Ok(Err(e)) if is_filtered(&e.error));
			for e in System::events() {
				f |= match &e.event {
					RuntimeEvent::Utility(pallet_utility::Event::BatchInterrupted { error, .. }) => is_filtered(error),
					RuntimeEvent::Utility(pallet_utility::Event::ItemFailed { error }) => is_filtered(error),
					RuntimeEvent::Proxy(pallet_proxy::Event::ProxyExecuted { result: Err(error) }) => is_filtered(error),
					_ => false,
				};
			}
			json!(f)
		},
		// does the origin pass for this call or this governance power?
		"auth" => {
			let o = origin(&j["by"]);
			match st(j, "what") {
				"scheduler" => json!(authority!(o, pallet_scheduler::ScheduleOrigin)),
				"preimage" => json!(authority!(o, pallet_preimage::ManagerOrigin)),
				"council.members" => json!(authority!(o, council::SetMembersOrigin)),
				"committee.members" => json!(authority!(o, technical_committee::SetMembersOrigin)),
				"democracy.external_default" => json!(authority!(o, pallet_democracy::ExternalDefaultOrigin)),
				"democracy.external_majority" => json!(authority!(o, pallet_democracy::ExternalMajorityOrigin)),
				"democracy.external" => json!(authority!(o, pallet_democracy::ExternalOrigin)),
				"democracy.submit" => json!(authority!(o, pallet_democracy::SubmitOrigin)),
				"democracy.fast_track" => json!(authority!(o, pallet_democracy::FastTrackOrigin)),
				"democracy.instant" => json!(authority!(o, pallet_democracy::InstantOrigin)),
				"democracy.cancellation" => json!(authority!(o, pallet_democracy::CancellationOrigin)),
				"democracy.cancel_proposal" => json!(authority!(o, pallet_democracy::CancelProposalOrigin)),
				"democracy.blacklist" => json!(authority!(o, pallet_democracy::BlacklistOrigin)),
				"democracy.veto" => json!(authority!(o, pallet_democracy::VetoOrigin)),
				"treasury.approve" => json!(authority!(o, pallet_treasury::ApproveOrigin)),
				"treasury.reject" => json!(authority!(o, pallet_treasury::RejectOrigin)),
				"treasury.spend" => json!(authority!(o, pallet_treasury::SpendOrigin)),
				"collators" => json!(authority!(o, pallet_collator_selection::UpdateOrigin)),
				// a call of a Frequency pallet, with all-zero arguments
				what => {
					let (p, n) = what.split_once('.').expect("call");
					let c = table(|t| t.get(what).expect("call").clone());
					let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.dispatch_bypass_filter(o)));
					json!(!matches!(r, Ok(Err(e)) if e.error == DispatchError::BadOrigin))
				},
			}
		},
		op => eval_more(op, j),
	}
}
