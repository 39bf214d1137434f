//! Stand-ins for the SDK pallets of the Frequency runtime that this machinery does not run:
//! each has the calls (by name and index) and the governance origins of the real one.
//! The collective and the proxy pallet have their real semantics.
use frame_support::pallet_prelude::*;
use frame_support::traits::{EnsureOrigin, Get};
use frame_system::pallet_prelude::*;
use frame_system::{Caller, RawOrigin, SimpleOrigin};
use sp_runtime::DispatchError;

macro_rules! stub {
	($m:ident, origins = [$($o:ident),*], calls = [$($c:ident = $i:literal),+ $(,)?]) => {
		pub mod $m {
			pub use pallet::*;
			#[frame_support::pallet]
			pub mod pallet {
				use frame_support::pallet_prelude::*;
				use frame_support::traits::EnsureOrigin;
				use frame_system::pallet_prelude::*;
				#[pallet::pallet]
				pub struct Pallet<T>(PhantomData<T>);
				#[pallet::config]
				pub trait Config: frame_system::Config {
					$(type $o: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;)*
				}
				#[pallet::call]
				impl<T: Config> Pallet<T> {
					$(#[pallet::call_index($i)] #[pallet::weight(Weight::from_parts(1_000, 0))]
					pub fn $c(_origin: OriginFor<T>) -> DispatchResult { Ok(()) })+
				}
			}
		}
	};
	($m:ident, origins = [$($o:ident),*], calls = []) => {
		pub mod $m {
			pub use pallet::*;
			#[frame_support::pallet]
			pub mod pallet {
				use frame_support::pallet_prelude::*;
				use frame_support::traits::EnsureOrigin;
				#[pallet::pallet]
				pub struct Pallet<T>(PhantomData<T>);
				#[pallet::config]
				pub trait Config: frame_system::Config {
					$(type $o: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;)*
				}
			}
		}
	};
}
stub!(stub_parachain_system, origins = [], calls = [set_validation_data = 0, sudo_send_upward_message = 1, authorize_upgrade = 2, enact_authorized_upgrade = 3]);
stub!(pallet_timestamp, origins = [], calls = [set = 0]);
stub!(parachain_info, origins = [], calls = []);
stub!(pallet_sudo, origins = [], calls = [sudo = 0, sudo_unchecked_weight = 1, set_key = 2, sudo_as = 3, remove_key = 4]);
stub!(stub_preimage, origins = [ManagerOrigin], calls = [note_preimage = 0, unnote_preimage = 1, request_preimage = 2, unrequest_preimage = 3, ensure_updated = 4]);
stub!(pallet_democracy,
	origins = [ExternalDefaultOrigin, ExternalMajorityOrigin, ExternalOrigin, SubmitOrigin, FastTrackOrigin, InstantOrigin, CancellationOrigin, CancelProposalOrigin, BlacklistOrigin, VetoOrigin],
	calls = [propose = 0, second = 1, vote = 2, emergency_cancel = 3, external_propose = 4, external_propose_majority = 5, external_propose_default = 6, fast_track = 7,
		veto_external = 8, cancel_referendum = 9, delegate = 10, undelegate = 11, clear_public_proposals = 12, unlock = 13, remove_vote = 14, remove_other_vote = 15, blacklist = 16,
		cancel_proposal = 17, set_metadata = 18]);
stub!(pallet_scheduler, origins = [ScheduleOrigin], calls = [schedule = 0, cancel = 1, schedule_named = 2, cancel_named = 3, schedule_after = 4, schedule_named_after = 5]);
stub!(pallet_treasury, origins = [ApproveOrigin, RejectOrigin, SpendOrigin],
	calls = [propose_spend = 0, reject_proposal = 1, approve_proposal = 2, spend_local = 3, remove_approval = 4, spend = 5, payout = 6, check_status = 7, void_spend = 8]);
stub!(pallet_authorship, origins = [], calls = []);
stub!(stub_collator_selection, origins = [UpdateOrigin],
	calls = [set_invulnerables = 0, set_desired_candidates = 1, set_candidacy_bond = 2, register_as_candidate = 3, leave_intent = 4, add_invulnerable = 5, remove_invulnerable = 6, update_bond = 7, take_candidate_slot = 8]);
stub!(stub_session, origins = [], calls = [set_keys = 0, purge_keys = 1]);
stub!(pallet_aura, origins = [], calls = []);
stub!(stub_aura_ext, origins = [], calls = []);
stub!(pallet_multisig, origins = [], calls = [as_multi_threshold_1 = 0, as_multi = 1, approve_as_multi = 2, cancel_as_multi = 3]);

pub mod pallet_preimage {
	pub use crate::stub_preimage::*;
	pub enum HoldReason {
		Preimage,
	}
}
pub mod pallet_session {
	pub use crate::stub_session::*;
	pub struct FindAccountFromAuthorIndex<A, B>(core::marker::PhantomData<(A, B)>);
	pub struct PeriodicSessions<A, B>(core::marker::PhantomData<(A, B)>);
}
pub mod pallet_collator_selection {
	pub use crate::stub_collator_selection::*;
	pub struct IdentityCollator;
}
pub mod cumulus_pallet_aura_ext {
	pub use crate::stub_aura_ext::*;
}
pub mod cumulus_pallet_parachain_system {
	pub use crate::stub_parachain_system::*;
	pub struct RelayNumberMonotonicallyIncreases;
	pub struct ParachainSetCode<T>(core::marker::PhantomData<T>);
	pub struct RelaychainDataProvider<T>(core::marker::PhantomData<T>);
	impl<T: frame_system::Config> sp_runtime::traits::BlockNumberProvider for RelaychainDataProvider<T> {
		type BlockNumber = u32;
		fn current_block_number() -> u32 {
			use sp_runtime::traits::UniqueSaturatedInto;
			frame_system::Pallet::<T>::block_number().unique_saturated_into()
		}
	}
}
pub mod polkadot_runtime_common {
	pub type BlockHashCount = frame_support::traits::ConstU32<4096>;
	pub struct SlowAdjustingFeeUpdate<T>(core::marker::PhantomData<T>);
}
pub mod sp_consensus_aura {
	pub mod sr25519 {
		pub type AuthorityId = sp_core::sr25519::Public;
	}
}

/// `pallet_collective`
pub mod pallet_collective {
	use super::*;
	pub struct Instance1;
	pub struct Instance2;
	pub struct PrimeDefaultVote;
	pub trait Inst: 'static {
		const N: u8;
	}
	impl Inst for Instance1 {
		const N: u8 = 1;
	}
	impl Inst for Instance2 {
		const N: u8 = 2;
	}
	pub struct EnsureMember<A, I>(PhantomData<(A, I)>);
	impl<T: frame_system::Config, I: Inst> EnsureOrigin<SimpleOrigin<T>> for EnsureMember<T::AccountId, I> {
		type Success = T::AccountId;
		fn try_origin(o: SimpleOrigin<T>) -> Result<T::AccountId, SimpleOrigin<T>> {
			match &o.caller {
				Caller::Member(i, a) if *i == I::N => Ok(a.clone()),
				_ => Err(o),
			}
		}
	}
	pub struct EnsureMembers<A, I, const N: u32>(PhantomData<(A, I)>);
	impl<T: frame_system::Config, I: Inst, const N: u32> EnsureOrigin<SimpleOrigin<T>> for EnsureMembers<T::AccountId, I, N> {
		type Success = (u32, u32);
		fn try_origin(o: SimpleOrigin<T>) -> Result<(u32, u32), SimpleOrigin<T>> {
			match o.caller {
				Caller::Members(i, n, m) if i == I::N && n >= N => Ok((n, m)),
				_ => Err(o),
			}
		}
	}
	pub struct EnsureProportionMoreThan<A, I, const N: u32, const D: u32>(PhantomData<(A, I)>);
	impl<T: frame_system::Config, I: Inst, const N: u32, const D: u32> EnsureOrigin<SimpleOrigin<T>> for EnsureProportionMoreThan<T::AccountId, I, N, D> {
		type Success = ();
		fn try_origin(o: SimpleOrigin<T>) -> Result<(), SimpleOrigin<T>> {
			match o.caller {
				Caller::Members(i, n, m) if i == I::N && n * D > N * m => Ok(()),
				_ => Err(o),
			}
		}
	}
	pub struct EnsureProportionAtLeast<A, I, const N: u32, const D: u32>(PhantomData<(A, I)>);
	impl<T: frame_system::Config, I: Inst, const N: u32, const D: u32> EnsureOrigin<SimpleOrigin<T>> for EnsureProportionAtLeast<T::AccountId, I, N, D> {
		type Success = ();
		fn try_origin(o: SimpleOrigin<T>) -> Result<(), SimpleOrigin<T>> {
			match o.caller {
				Caller::Members(i, n, m) if i == I::N && n * D >= N * m => Ok(()),
				_ => Err(o),
			}
		}
	}
}
macro_rules! collective {
	($m:ident, $n:literal) => {
		pub mod $m {
			pub use pallet::*;
			#[frame_support::pallet]
			pub mod pallet {
				use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
				use frame_support::pallet_prelude::*;
				use frame_support::traits::{EnsureOrigin, Get};
				use frame_system::pallet_prelude::*;
				use frame_system::{Caller, SimpleOrigin};
				use sp_runtime::traits::Dispatchable;
				use sp_runtime::DispatchError;
				#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
				pub struct Votes<A> {
					pub index: u32,
					pub threshold: u32,
					pub ayes: Vec<A>,
					pub nays: Vec<A>,
				}
				pub type Hash = [u8; 32];
				#[pallet::pallet]
				pub struct Pallet<T>(PhantomData<T>);
				#[pallet::config]
				pub trait Config: frame_system::Config {
					type SetMembersOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
					type Proposal: Parameter + Dispatchable<RuntimeOrigin = <Self as frame_system::Config>::RuntimeOrigin, PostInfo = PostDispatchInfo>;
					type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
					type RuntimeOrigin: From<Caller<<Self as frame_system::Config>::AccountId>> + Into<<Self as frame_system::Config>::RuntimeOrigin>;
				}
				#[pallet::storage]
				pub type Members<T: Config> = StorageValue<_, Vec<<T as frame_system::Config>::AccountId>, ValueQuery>;
				#[pallet::storage]
				pub type ProposalOf<T: Config> = StorageMap<_, Blake2_128Concat, Hash, <T as Config>::Proposal, OptionQuery>;
				#[pallet::storage]
				pub type Voting<T: Config> = StorageMap<_, Blake2_128Concat, Hash, Votes<<T as frame_system::Config>::AccountId>, OptionQuery>;
				#[pallet::storage]
				pub type Hashes<T: Config> = StorageValue<_, Vec<Hash>, ValueQuery>;
				#[pallet::storage]
				pub type ProposalCount<T: Config> = StorageValue<_, u32, ValueQuery>;
				#[pallet::event]
				#[pallet::generate_deposit(pub(super) fn deposit_event)]
				pub enum Event<T: Config> {
					Proposed { index: u32, threshold: u32 },
					Approved { index: u32 },
					Disapproved { index: u32 },
					Executed { result: DispatchResult },
				}
				#[pallet::error]
				pub enum Error<T> {
					NotMember,
					DuplicateProposal,
					ProposalMissing,
					WrongIndex,
					DuplicateVote,
					TooEarly,
					TooManyProposals,
				}
				#[pallet::call]
				impl<T: Config> Pallet<T> {
					#[pallet::call_index(0)]
					#[pallet::weight(Weight::from_parts(1_000, 0))]
					pub fn set_members(origin: OriginFor<T>, m: Vec<<T as frame_system::Config>::AccountId>) -> DispatchResult {
						T::SetMembersOrigin::ensure_origin(origin)?;
						let mut m = m;
						m.sort();
						Members::<T>::put(m);
						Ok(())
					}
					#[pallet::call_index(1)]
					#[pallet::weight(Weight::from_parts(1_000, 0))]
					pub fn execute(_origin: OriginFor<T>) -> DispatchResult {
						Ok(())
					}
					#[pallet::call_index(2)]
					#[pallet::weight(Weight::from_parts(1_000, 0))]
					pub fn propose(_origin: OriginFor<T>) -> DispatchResult {
						Ok(())
					}
					#[pallet::call_index(3)]
					#[pallet::weight(Weight::from_parts(1_000, 0))]
					pub fn vote(origin: OriginFor<T>, hash: Hash, index: u32, approve: bool) -> DispatchResult {
						let who = ensure_signed(origin)?;
						ensure!(Members::<T>::get().contains(&who), Error::<T>::NotMember);
						let mut v = Voting::<T>::get(hash).ok_or(Error::<T>::ProposalMissing)?;
						ensure!(v.index == index, Error::<T>::WrongIndex);
						if approve {
							ensure!(!v.ayes.contains(&who), Error::<T>::DuplicateVote);
							v.nays.retain(|x| *x != who);
							v.ayes.push(who);
						} else {
							ensure!(!v.nays.contains(&who), Error::<T>::DuplicateVote);
							v.ayes.retain(|x| *x != who);
							v.nays.push(who);
						}
						Voting::<T>::insert(hash, v);
						Ok(())
					}
					#[pallet::call_index(5)]
					#[pallet::weight(Weight::from_parts(1_000, 0))]
					pub fn disapprove_proposal(_origin: OriginFor<T>) -> DispatchResult {
						Ok(())
					}
					#[pallet::call_index(6)]
					#[pallet::weight(Weight::from_parts(1_000, 0))]
					pub fn close(origin: OriginFor<T>, hash: Hash, index: u32) -> DispatchResult {
						let _ = ensure_signed(origin)?;
						let v = Voting::<T>::get(hash).ok_or(Error::<T>::ProposalMissing)?;
						ensure!(v.index == index, Error::<T>::WrongIndex);
						let seats = Members::<T>::get().len() as u32;
						let (yes, no) = (v.ayes.len() as u32, v.nays.len() as u32);
						let approved = yes >= v.threshold;
						let disapproved = seats.saturating_sub(no) < v.threshold;
						ensure!(approved || disapproved, Error::<T>::TooEarly);
						Voting::<T>::remove(hash);
						Hashes::<T>::mutate(|h| h.retain(|x| *x != hash));
						let p = ProposalOf::<T>::take(hash).ok_or(Error::<T>::ProposalMissing)?;
						if approved {
							Self::deposit_event(Event::Approved { index });
							let o: <T as Config>::RuntimeOrigin = Caller::Members($n, yes, seats).into();
							let r = p.dispatch(o.into());
							Self::deposit_event(Event::Executed { result: r.map(|_| ()).map_err(|e| e.error) });
						} else {
							Self::deposit_event(Event::Disapproved { index });
						}
						Ok(())
					}
				}
				impl<T: Config> Pallet<T> {
					pub fn members() -> Vec<<T as frame_system::Config>::AccountId> {
						Members::<T>::get()
					}
					pub fn proposal_count() -> u32 {
						ProposalCount::<T>::get()
					}
					pub fn do_propose_proposed(_who: <T as frame_system::Config>::AccountId, threshold: u32, proposal: Box<<T as Config>::Proposal>, _len: u32) -> Result<(u32, u32), DispatchError> {
						let hash: Hash = sp_core::hashing::blake2_256(&proposal.encode());
						ensure!(!ProposalOf::<T>::contains_key(hash), Error::<T>::DuplicateProposal);
						let n = Hashes::<T>::get().len() as u32 + 1;
						let index = ProposalCount::<T>::get();
						ProposalCount::<T>::put(index + 1);
						Hashes::<T>::mutate(|h| h.push(hash));
						let len = proposal.encode().len() as u32;
						ProposalOf::<T>::insert(hash, *proposal);
						Voting::<T>::insert(hash, Votes { index, threshold, ayes: vec![], nays: vec![] });
						Self::deposit_event(Event::Proposed { index, threshold });
						Ok((len, n))
					}
				}
			}
		}
	};
}
collective!(council, 1);
collective!(technical_committee, 2);

/// `pallet_proxy`
pub mod pallet_proxy {
	pub use pallet::*;
	#[frame_support::pallet]
	pub mod pallet {
		use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
		use frame_support::pallet_prelude::*;
		use frame_support::traits::{InstanceFilter, IsSubType, OriginTrait};
		use frame_system::pallet_prelude::*;
		use frame_system::RawOrigin;
		use sp_runtime::traits::*;
		use sp_runtime::DispatchError;
		type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
		#[pallet::pallet]
		pub struct Pallet<T>(PhantomData<T>);
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type RuntimeCall: Parameter
				+ Dispatchable<RuntimeOrigin = <Self as frame_system::Config>::RuntimeOrigin, PostInfo = PostDispatchInfo>
				+ GetDispatchInfo
				+ From<frame_system::Call<Self>>
				+ IsSubType<Call<Self>>
				+ IsType<<Self as frame_system::Config>::RuntimeCall>;
			type ProxyType: Parameter + Ord + PartialOrd + InstanceFilter<<Self as Config>::RuntimeCall> + Default + MaxEncodedLen + Copy;
		}
		#[pallet::storage]
		pub type Proxies<T: Config> = StorageMap<_, Twox64Concat, <T as frame_system::Config>::AccountId, Vec<(<T as frame_system::Config>::AccountId, <T as Config>::ProxyType, u32)>, ValueQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			ProxyExecuted { result: DispatchResult },
		}
		#[pallet::error]
		pub enum Error<T> {
			TooMany,
			NotFound,
			NotProxy,
			Unproxyable,
			Duplicate,
			NoPermission,
			Unannounced,
			NoSelfProxy,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight({ let di = call.get_dispatch_info(); (di.weight, di.class) })]
			pub fn proxy(origin: OriginFor<T>, real: LookupOf<T>, force_proxy_type: Option<<T as Config>::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
				let who = ensure_signed(origin)?;
				let real = T::Lookup::lookup(real)?;
				let def = Proxies::<T>::get(&real)
					.into_iter()
					.find(|(d, t, _)| *d == who && force_proxy_type.as_ref().map_or(true, |y| t == y))
					.ok_or(Error::<T>::NotProxy)?;
				ensure!(def.2 == 0, Error::<T>::Unannounced);
				let ty = def.1;
				let mut origin: T::RuntimeOrigin = RawOrigin::Signed(real).into();
				origin.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
					let c = <T as Config>::RuntimeCall::from_ref(c);
					match c.is_sub_type() {
						Some(Call::add_proxy { ref proxy_type, .. }) | Some(Call::remove_proxy { ref proxy_type, .. }) if !ty.is_superset(proxy_type) => false,
						Some(Call::remove_proxies { .. }) | Some(Call::kill_pure { .. }) if ty != <T as Config>::ProxyType::default() => false,
						_ => ty.filter(c),
					}
				});
				let e = call.dispatch(origin);
				Self::deposit_event(Event::ProxyExecuted { result: e.map(|_| ()).map_err(|e| e.error) });
				Ok(())
			}
			#[pallet::call_index(1)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn add_proxy(origin: OriginFor<T>, delegate: LookupOf<T>, proxy_type: <T as Config>::ProxyType, delay: u32) -> DispatchResult {
				let who = ensure_signed(origin)?;
				let d = T::Lookup::lookup(delegate)?;
				ensure!(d != who, Error::<T>::NoSelfProxy);
				Proxies::<T>::try_mutate(&who, |v| {
					ensure!(!v.contains(&(d.clone(), proxy_type, delay)), Error::<T>::Duplicate);
					v.push((d, proxy_type, delay));
					v.sort();
					Ok(())
				})
			}
			#[pallet::call_index(2)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn remove_proxy(origin: OriginFor<T>, delegate: LookupOf<T>, proxy_type: <T as Config>::ProxyType, delay: u32) -> DispatchResult {
				let who = ensure_signed(origin)?;
				let d = T::Lookup::lookup(delegate)?;
				Proxies::<T>::try_mutate(&who, |v| {
					let n = v.len();
					v.retain(|x| *x != (d.clone(), proxy_type, delay));
					ensure!(v.len() < n, Error::<T>::NotFound);
					Ok(())
				})
			}
			#[pallet::call_index(3)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn remove_proxies(origin: OriginFor<T>) -> DispatchResult {
				let who = ensure_signed(origin)?;
				Proxies::<T>::remove(&who);
				Ok(())
			}
			#[pallet::call_index(4)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn create_pure(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
			#[pallet::call_index(5)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn kill_pure(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
			#[pallet::call_index(6)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn announce(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
			#[pallet::call_index(7)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn remove_announcement(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
			#[pallet::call_index(8)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn reject_announcement(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
			#[pallet::call_index(9)]
			#[pallet::weight(Weight::from_parts(1_000, 0))]
			pub fn proxy_announced(_origin: OriginFor<T>) -> DispatchResult {
				Ok(())
			}
		}
	}
}
