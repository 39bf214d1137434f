//! `sp_runtime`
pub use crate::core_::{AccountId32, RuntimeDebug};
pub use crate::num::{FixedPointNumber, FixedPointOperand, FixedU128, Percent, Perbill, Permill, Perquintill, Rounding, SaturatedConversion, Saturating};
pub use crate::support::bounded_impl::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use crate::io::GenesisStorage as Storage;
use parity_scale_codec::*;
use mini_macros::TypeInfo;
use std::fmt;

pub type TryRuntimeError = DispatchError;
pub use crate::io::BuildStorage;
pub mod sp_std {
	pub use crate::sp_std::*;
}
pub use crate::core_::{crypto as app_crypto_mod, KeyTypeId};
pub mod biguint {}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Clone, Copy, Eq, Debug, Encode, Decode, TypeInfo, serde::Serialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	#[serde(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum DispatchError {
	Other(#[codec(skip)] &'static str),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl From<&'static str> for DispatchError {
	fn from(s: &'static str) -> Self {
		DispatchError::Other(s)
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(s) => s,
			DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			_ => "error",
		}
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		DispatchError::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		DispatchError::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		DispatchError::Transactional(e)
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		DispatchError::BadOrigin
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		DispatchError::CannotLookup
	}
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		self
	}
}
impl fmt::Display for DispatchError {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{:?}", self)
	}
}
impl serde::Serialize for DispatchError {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&format!("{:?}", self))
	}
}
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info>
where
	Info: Eq + PartialEq + Clone + Copy + Encode + Decode,
{
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where
	T: Eq + PartialEq + Clone + Copy + Encode + Decode + Default,
	E: Into<DispatchError>,
{
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type ApplyExtrinsicResult = Result<Result<(), DispatchError>, transaction_validity::TransactionValidityError>;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, PartialOrd, Ord)]
pub enum MultiSignature {
	Ed25519(ed25519::Signature),
	Sr25519(sr25519::Signature),
	Ecdsa(ecdsa::Signature),
}
use crypto_impl::{ecdsa, ed25519, sr25519};
impl MaxEncodedLen for MultiSignature {
	fn max_encoded_len() -> usize {
		66
	}
}
impl From<sr25519::Signature> for MultiSignature {
	fn from(s: sr25519::Signature) -> Self {
		MultiSignature::Sr25519(s)
	}
}
impl From<ed25519::Signature> for MultiSignature {
	fn from(s: ed25519::Signature) -> Self {
		MultiSignature::Ed25519(s)
	}
}
impl From<ecdsa::Signature> for MultiSignature {
	fn from(s: ecdsa::Signature) -> Self {
		MultiSignature::Ecdsa(s)
	}
}
impl traits::Verify for MultiSignature {
	type Signer = MultiSigner;
	fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &AccountId32) -> bool {
		let m = msg.get();
		match self {
			MultiSignature::Ed25519(s) => crypto_impl::check(b"ed", &signer.0, m, &s.0),
			MultiSignature::Sr25519(s) => crypto_impl::check(b"sr", &signer.0, m, &s.0),
			MultiSignature::Ecdsa(s) => crypto_impl::check(b"ec", &signer.0, m, &s.0[..64]),
		}
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum MultiSigner {
	Ed25519(ed25519::Public),
	Sr25519(sr25519::Public),
	Ecdsa(ecdsa::Public),
}
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 {
		match self {
			MultiSigner::Ed25519(p) => AccountId32(p.0),
			MultiSigner::Sr25519(p) => AccountId32(p.0),
			MultiSigner::Ecdsa(p) => AccountId32(p.0),
		}
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, PartialOrd, Ord)]
pub enum MultiAddress<A, I> {
	Id(A),
	Index(#[codec(compact)] I),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<A, I> From<A> for MultiAddress<A, I> {
	fn from(a: A) -> Self {
		MultiAddress::Id(a)
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct OpaqueExtrinsic(pub Vec<u8>);

/// Stand-in cryptography: a signature is a keyed hash anybody can compute, so that drivers can
/// make valid and invalid signatures for any account. Verification is exact.
pub mod crypto_impl {
	use crate::core_::AccountId32;
	use parity_scale_codec::*;
	use std::sync::atomic::*;
	pub fn sign64(dom: &[u8], public: &[u8; 32], msg: &[u8]) -> [u8; 64] {
		let mut v = dom.to_vec();
		v.extend_from_slice(public);
		v.extend_from_slice(msg);
		crate::hashing::blake2_512(&v)
	}
	pub fn check(dom: &[u8], public: &[u8; 32], msg: &[u8], sig: &[u8]) -> bool {
		sign64(dom, public, msg)[..] == sig[..]
	}
	pub static SEED: AtomicU64 = AtomicU64::new(1);
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
	pub trait UncheckedInto<T> {
		fn unchecked_into(self) -> T;
	}
	impl<S, T: UncheckedFrom<S>> UncheckedInto<T> for S {
		fn unchecked_into(self) -> T {
			T::unchecked_from(self)
		}
	}
	pub trait ByteArray: AsRef<[u8]> + Sized {
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_ref().to_vec()
		}
	}
	pub trait Public: ByteArray {}
	pub trait Pair: Sized + Clone {
		type Public;
		type Signature;
		fn generate() -> (Self, [u8; 32]);
		fn public(&self) -> Self::Public;
		fn sign(&self, m: &[u8]) -> Self::Signature;
		fn from_seed(s: &[u8; 32]) -> Self;
		fn from_string(s: &str, _: Option<&str>) -> Result<Self, ()> {
			Ok(Self::from_seed(&crate::hashing::blake2_256(s.as_bytes())))
		}
	}
	macro_rules! curve {
		($m:ident, $dom:expr, $n:expr) => {
			pub mod $m {
				use super::*;
				#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, mini_macros::TypeInfo, Debug, Hash)]
				pub struct Public(pub [u8; 32]);
				#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, mini_macros::TypeInfo, Debug, Hash)]
				pub struct Signature(pub [u8; $n]);
				#[derive(Clone)]
				pub struct Pair(pub [u8; 32]);
				impl super::Pair for Pair {
					type Public = Public;
					type Signature = Signature;
					fn generate() -> (Self, [u8; 32]) {
						let s = crate::hashing::blake2_256(&SEED.fetch_add(1, Ordering::SeqCst).to_le_bytes());
						(Pair(s), s)
					}
					fn public(&self) -> Public {
						Public(self.0)
					}
					fn sign(&self, m: &[u8]) -> Signature {
						let mut r = [0u8; $n];
						r[..64].copy_from_slice(&sign64($dom, &self.0, m));
						Signature(r)
					}
					fn from_seed(s: &[u8; 32]) -> Self {
						Pair(*s)
					}
				}
				impl From<Public> for AccountId32 {
					fn from(p: Public) -> AccountId32 {
						AccountId32(p.0)
					}
				}
				impl From<Public> for [u8; 32] {
					fn from(p: Public) -> [u8; 32] {
						p.0
					}
				}
				impl From<Pair> for Public {
					fn from(p: Pair) -> Public {
						Public(p.0)
					}
				}
				impl AsRef<[u8]> for Public {
					fn as_ref(&self) -> &[u8] {
						&self.0
					}
				}
				impl ByteArray for Public {}
				impl super::Public for Public {}
				impl Public {
					pub fn from_raw(b: [u8; 32]) -> Self {
						Public(b)
					}
				}
				impl super::UncheckedFrom<[u8; 32]> for Public {
					fn unchecked_from(b: [u8; 32]) -> Self {
						Public(b)
					}
				}
				impl Signature {
					pub fn from_raw(b: [u8; $n]) -> Self {
						Signature(b)
					}
				}
				impl std::ops::Deref for Signature {
					type Target = [u8; $n];
					fn deref(&self) -> &[u8; $n] {
						&self.0
					}
				}
				impl AsRef<[u8]> for Signature {
					fn as_ref(&self) -> &[u8] {
						&self.0
					}
				}
			}
		};
	}
	curve!(sr25519, b"sr", 64);
	curve!(ed25519, b"ed", 64);
	curve!(ecdsa, b"ec", 65);
}

pub mod generic {
	use super::*;
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode)]
	pub struct Header<N, H>(pub N, pub std::marker::PhantomData<H>);
	pub struct Block<H, X>(pub H, pub Vec<X>);
	pub enum BlockId<B: traits::Block> {
		Hash(<B as traits::Block>::Hash),
		Number(<<B as traits::Block>::Header as traits::Header>::Number),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub struct Era;
}
pub mod testing {
	pub use crate::core_::H256;
	pub type TestSignature = ();
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct TestXt<C, E>(pub C, pub std::marker::PhantomData<E>);
	impl<C, E> TestXt<C, E> {
		pub fn new(c: C, _s: Option<(u64, E)>) -> Self {
			TestXt(c, std::marker::PhantomData)
		}
	}
}
pub mod traits {
	use super::*;
	pub use crate::num::*;
	pub use crate::support::traits_impl::Get;
	pub use crate::runtime::transaction_validity::*;
	pub use crate::io::hashing_traits::{BlakeTwo256, Hash};
	pub use crate::support::traits_impl::{Everything as _E};
	pub use parity_scale_codec::Codec;
	pub use crate::core_::TypeId;
	pub use crate::support::dispatch_impl::{DispatchInfo as _DI};
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct BadOrigin;
	impl From<BadOrigin> for &'static str {
		fn from(_: BadOrigin) -> &'static str {
			"Bad origin"
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct LookupError;
	impl From<LookupError> for &'static str {
		fn from(_: LookupError) -> &'static str {
			"Can not lookup"
		}
	}
	pub trait Member: Sized + fmt::Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Sized + fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	pub trait MaybeDisplay: std::fmt::Display {}
	impl<T: std::fmt::Display> MaybeDisplay for T {}
	pub trait MaybeSerialize {}
	impl<T> MaybeSerialize for T {}
	pub trait MaybeSerializeDeserialize {}
	impl<T> MaybeSerializeDeserialize for T {}
	pub trait MaybeFromStr {}
	impl<T> MaybeFromStr for T {}
	pub trait MaybeHash {}
	impl<T> MaybeHash for T {}
	pub trait Lazy<T: ?Sized> {
		fn get(&mut self) -> &T;
	}
	impl<'a> Lazy<[u8]> for &'a [u8] {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	impl<'a> Lazy<[u8]> for &'a Vec<u8> {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	impl<'a, const N: usize> Lazy<[u8]> for &'a [u8; N] {
		fn get(&mut self) -> &[u8] {
			&self[..]
		}
	}
	pub trait IdentifyAccount {
		type AccountId;
		fn into_account(self) -> Self::AccountId;
	}
	pub trait Verify {
		type Signer: IdentifyAccount;
		fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
	}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_: A) -> B {
			Default::default()
		}
	}
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(a: T) -> T {
			a
		}
	}
	pub struct ConvertInto;
	impl<A, B: From<A>> Convert<A, B> for ConvertInto {
		fn convert(a: A) -> B {
			a.into()
		}
	}
	pub trait ConvertBack<A, B>: Convert<A, B> {
		fn convert_back(b: B) -> A;
	}
	pub trait TryConvert<A, B> {
		fn try_convert(a: A) -> Result<B, A>;
	}
	pub trait StaticLookup {
		type Source: Codec + Clone + PartialEq + fmt::Debug;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	pub struct IdentityLookup<T>(std::marker::PhantomData<T>);
	impl<T: Codec + Clone + PartialEq + fmt::Debug> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(x: T) -> Result<T, LookupError> {
			Ok(x)
		}
		fn unlookup(x: T) -> T {
			x
		}
	}
	pub struct AccountIdLookup<A, I>(std::marker::PhantomData<(A, I)>);
	impl<A: Codec + Clone + PartialEq + fmt::Debug, I: HasCompact + Codec + Clone + PartialEq + fmt::Debug> StaticLookup for AccountIdLookup<A, I>
	where
		MultiAddress<A, I>: Codec,
	{
		type Source = MultiAddress<A, I>;
		type Target = A;
		fn lookup(x: Self::Source) -> Result<A, LookupError> {
			match x {
				MultiAddress::Id(a) => Ok(a),
				_ => Err(LookupError),
			}
		}
		fn unlookup(x: A) -> Self::Source {
			MultiAddress::Id(x)
		}
	}
	pub trait BlockNumberProvider {
		type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + fmt::Debug;
		fn current_block_number() -> Self::BlockNumber;
	}
	pub trait Header: 'static {
		type Number: crate::system::BlockNum;
		type Hash: crate::system::HashT;
		type Hashing;
	}
	impl<N: crate::system::BlockNum, H: 'static> Header for generic::Header<N, H> {
		type Number = N;
		type Hash = crate::core_::H256;
		type Hashing = H;
	}
	pub trait HeaderProvider {
		type HeaderT: Header;
	}
	pub trait Block: 'static {
		type Header: Header;
		type Extrinsic: parity_scale_codec::Decode;
		type Hash: crate::system::HashT;
	}
	impl<H: Header, X: parity_scale_codec::Decode + 'static> Block for generic::Block<H, X> {
		type Header = H;
		type Extrinsic = X;
		type Hash = <H as Header>::Hash;
	}
	pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;
	pub trait Printable {
		fn print(&self) {}
	}
	pub trait Dispatchable {
		type RuntimeOrigin: fmt::Debug;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Default + fmt::Debug + Printable;
		fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
	}
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
	pub trait SignedExtension: Codec + fmt::Debug + Clone + Eq + PartialEq {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call: Dispatchable;
		type AdditionalSigned: Encode;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
		fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
		fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(call, info, len).map(|_| ())
		}
		fn post_dispatch(
			_pre: Option<Self::Pre>,
			_info: &DispatchInfoOf<Self::Call>,
			_post: &PostDispatchInfoOf<Self::Call>,
			_len: usize,
			_result: &DispatchResult,
		) -> Result<(), TransactionValidityError> {
			Ok(())
		}
		fn identifier() -> Vec<&'static str> {
			vec![Self::IDENTIFIER]
		}
	}
	macro_rules! tuple_ext {
		($($t:ident $i:tt),+) => {
			impl<Acc, Cal: Dispatchable, $($t: SignedExtension<AccountId = Acc, Call = Cal>),+> SignedExtension for ($($t,)+) {
				const IDENTIFIER: &'static str = "tuple";
				type AccountId = Acc;
				type Call = Cal;
				type AdditionalSigned = ($($t::AdditionalSigned,)+);
				type Pre = ($($t::Pre,)+);
				fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> {
					Ok(($(self.$i.additional_signed()?,)+))
				}
				fn validate(&self, w: &Acc, c: &Cal, i: &DispatchInfoOf<Cal>, l: usize) -> TransactionValidity {
					let v = ValidTransaction::default();
					$(let v = v.combine_with(self.$i.validate(w, c, i, l)?);)+
					Ok(v)
				}
				fn pre_dispatch(self, w: &Acc, c: &Cal, i: &DispatchInfoOf<Cal>, l: usize) -> Result<Self::Pre, TransactionValidityError> {
					Ok(($(self.$i.pre_dispatch(w, c, i, l)?,)+))
				}
				fn validate_unsigned(c: &Cal, i: &DispatchInfoOf<Cal>, l: usize) -> TransactionValidity {
					let v = ValidTransaction::default();
					$(let v = v.combine_with($t::validate_unsigned(c, i, l)?);)+
					Ok(v)
				}
				fn pre_dispatch_unsigned(c: &Cal, i: &DispatchInfoOf<Cal>, l: usize) -> Result<(), TransactionValidityError> {
					$($t::pre_dispatch_unsigned(c, i, l)?;)+
					Ok(())
				}
				fn post_dispatch(pre: Option<Self::Pre>, i: &DispatchInfoOf<Cal>, p: &PostDispatchInfoOf<Cal>, l: usize, r: &DispatchResult) -> Result<(), TransactionValidityError> {
					match pre {
						Some(x) => { $($t::post_dispatch(Some(x.$i), i, p, l, r)?;)+ },
						None => { $($t::post_dispatch(None, i, p, l, r)?;)+ },
					}
					Ok(())
				}
			}
		};
	}
	tuple_ext!(A1 0, A2 1);
	tuple_ext!(A1 0, A2 1, A3 2);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4, A6 5);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4, A6 5, A7 6);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4, A6 5, A7 6, A8 7);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4, A6 5, A7 6, A8 7, A9 8);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4, A6 5, A7 6, A8 7, A9 8, B1 9);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4, A6 5, A7 6, A8 7, A9 8, B1 9, B2 10);
	tuple_ext!(A1 0, A2 1, A3 2, A4 3, A5 4, A6 5, A7 6, A8 7, A9 8, B1 9, B2 10, B3 11);
	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ())
		}
		fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
	}
	pub trait AccountIdConversion<A>: Sized {
		fn into_account_truncating(&self) -> A;
	}
	pub use parity_scale_codec::TrailingZeroInput;
	pub trait CheckEqual {}
	pub trait SimpleBitOps {}
}
pub mod transaction_validity {
	use super::*;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		Custom(u8),
		BadMandatory,
		MandatoryValidation,
		BadSigner,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(e: InvalidTransaction) -> Self {
			TransactionValidityError::Invalid(e)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(e: UnknownTransaction) -> Self {
			TransactionValidityError::Unknown(e)
		}
	}
	impl From<InvalidTransaction> for &'static str {
		fn from(_: InvalidTransaction) -> &'static str {
			"invalid"
		}
	}
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(e: InvalidTransaction) -> Self {
			Err(TransactionValidityError::Invalid(e))
		}
	}
	impl From<UnknownTransaction> for TransactionValidity {
		fn from(e: UnknownTransaction) -> Self {
			Err(TransactionValidityError::Unknown(e))
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct ValidTransaction {
		pub priority: u64,
		pub requires: Vec<Vec<u8>>,
		pub provides: Vec<Vec<u8>>,
		pub longevity: u64,
		pub propagate: bool,
	}
	impl Default for ValidTransaction {
		fn default() -> Self {
			Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true }
		}
	}
	impl ValidTransaction {
		pub fn with_tag_prefix(p: &'static str) -> ValidTransactionBuilder {
			ValidTransactionBuilder(Some(p), Default::default())
		}
		pub fn combine_with(mut self, mut o: ValidTransaction) -> Self {
			Self {
				priority: self.priority.saturating_add(o.priority),
				requires: {
					self.requires.append(&mut o.requires);
					self.requires
				},
				provides: {
					self.provides.append(&mut o.provides);
					self.provides
				},
				longevity: self.longevity.min(o.longevity),
				propagate: self.propagate && o.propagate,
			}
		}
	}
	#[derive(Default)]
	pub struct ValidTransactionBuilder(Option<&'static str>, ValidTransaction);
	impl ValidTransactionBuilder {
		pub fn priority(mut self, p: u64) -> Self {
			self.1.priority = p;
			self
		}
		pub fn longevity(mut self, p: u64) -> Self {
			self.1.longevity = p;
			self
		}
		pub fn propagate(mut self, p: bool) -> Self {
			self.1.propagate = p;
			self
		}
		pub fn and_requires(mut self, t: impl Encode) -> Self {
			self.1.requires.push((self.0.unwrap_or(""), t).encode());
			self
		}
		pub fn and_provides(mut self, t: impl Encode) -> Self {
			self.1.provides.push((self.0.unwrap_or(""), t).encode());
			self
		}
		pub fn build(self) -> TransactionValidity {
			self.into()
		}
	}
	impl From<ValidTransactionBuilder> for TransactionValidity {
		fn from(b: ValidTransactionBuilder) -> Self {
			Ok(b.1)
		}
	}
	impl From<ValidTransactionBuilder> for ValidTransaction {
		fn from(b: ValidTransactionBuilder) -> Self {
			b.1
		}
	}
}
pub mod offchain {
	use super::*;
	use crate::ext;
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, Default)]
	pub struct Timestamp(pub u64);
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, Default)]
	pub struct Duration(pub u64);
	impl Duration {
		pub const fn from_millis(m: u64) -> Self {
			Duration(m)
		}
		pub fn millis(&self) -> u64 {
			self.0
		}
	}
	impl Timestamp {
		pub fn add(&self, d: Duration) -> Timestamp {
			Timestamp(self.0 + d.0)
		}
		pub fn diff(&self, o: &Timestamp) -> Duration {
			Duration(self.0.saturating_sub(o.0))
		}
		pub fn unix_millis(&self) -> u64 {
			self.0
		}
		pub const fn from_unix_millis(m: u64) -> Self {
			Timestamp(m)
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum StorageKind {
		PERSISTENT,
		LOCAL,
	}
	pub trait OffchainStorage {
		fn set(&mut self, prefix: &[u8], key: &[u8], value: &[u8]);
		fn remove(&mut self, prefix: &[u8], key: &[u8]);
		fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>>;
	}
	pub struct OffchainDbExt;
	impl OffchainDbExt {
		pub fn new<T>(_: T) -> Self {
			OffchainDbExt
		}
	}
	pub struct OffchainWorkerExt;
	impl OffchainWorkerExt {
		pub fn new<T>(_: T) -> Self {
			OffchainWorkerExt
		}
	}
	pub mod testing {
		/// test-only
		#[derive(Clone)]
		pub struct TestOffchainExt;
	}
	pub mod storage {
		use super::*;
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub enum StorageRetrievalError {
			Undecodable,
		}
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub enum MutateStorageError<T, E> {
			ConcurrentModification(T),
			ValueFunctionFailed(E),
		}
		pub struct StorageValueRef<'a> {
			key: std::borrow::Cow<'a, [u8]>,
		}
		impl<'a> StorageValueRef<'a> {
			pub fn persistent(key: &'a [u8]) -> Self {
				Self { key: key.into() }
			}
			pub fn local(key: &'a [u8]) -> Self {
				Self { key: key.into() }
			}
			pub fn set(&self, v: &impl Encode) {
				ext::local_set(&self.key, v.encode())
			}
			pub fn clear(&mut self) {
				ext::local_clear(&self.key)
			}
			pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
				match ext::local_get(&self.key) {
					None => Ok(None),
					Some(b) => T::decode(&mut &b[..]).map(Some).map_err(|_| StorageRetrievalError::Undecodable),
				}
			}
			pub fn mutate<T: Codec, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> {
				let v = f(self.get()).map_err(MutateStorageError::ValueFunctionFailed)?;
				self.set(&v);
				Ok(v)
			}
		}
	}
	pub mod storage_lock {
		use super::*;
		pub trait Lockable: Sized {
			type Deadline: Sized + Codec + Clone;
			fn deadline(&self) -> Self::Deadline;
			fn has_expired(d: &Self::Deadline) -> bool;
		}
		#[derive(Encode, Decode, Clone)]
		pub struct Time(pub Duration);
		impl Default for Time {
			fn default() -> Self {
				Time(Duration(20_000))
			}
		}
		impl Lockable for Time {
			type Deadline = Timestamp;
			fn deadline(&self) -> Timestamp {
				Timestamp(ext::now_ms()).add(self.0)
			}
			fn has_expired(d: &Timestamp) -> bool {
				ext::now_ms() > d.0
			}
		}
		pub struct BlockAndTime<B: traits::BlockNumberProvider> {
			offset: u32,
			d: Duration,
			p: std::marker::PhantomData<B>,
		}
		impl<B: traits::BlockNumberProvider> Lockable for BlockAndTime<B> {
			type Deadline = (u64, Timestamp);
			fn deadline(&self) -> Self::Deadline {
				let n: u64 = crate::num::UniqueSaturatedInto::unique_saturated_into(B::current_block_number());
				(n + self.offset as u64, Timestamp(ext::now_ms()).add(self.d))
			}
			fn has_expired(d: &Self::Deadline) -> bool {
				let n: u64 = crate::num::UniqueSaturatedInto::unique_saturated_into(B::current_block_number());
				ext::now_ms() > d.1 .0 && n > d.0
			}
		}
		pub struct StorageLock<'a, L: Lockable> {
			key: Vec<u8>,
			lockable: L,
			p: std::marker::PhantomData<&'a ()>,
		}
		impl<'a, L: Lockable> StorageLock<'a, L> {
			fn expired(&self) -> Result<(), ()> {
				match ext::local_get(&self.key).and_then(|b| L::Deadline::decode(&mut &b[..]).ok()) {
					Some(d) if !L::has_expired(&d) => Err(()),
					_ => Ok(()),
				}
			}
			pub fn try_lock(&mut self) -> Result<StorageLockGuard<'a, '_, L>, ()> {
				self.expired()?;
				ext::local_set(&self.key, self.lockable.deadline().encode());
				Ok(StorageLockGuard { lock: Some(self) })
			}
			/// Spins in the SDK; a lock somebody holds never gets free in a single-threaded
			/// run, so the (simulated) time passes until it expired.
			pub fn lock(&mut self) -> StorageLockGuard<'a, '_, L> {
				let mut n = 0;
				while self.expired().is_err() {
					ext::set_now_ms(ext::now_ms() + 10);
					n += 1;
					assert!(n < 1_000_000, "offchain dead lock");
				}
				ext::local_set(&self.key, self.lockable.deadline().encode());
				StorageLockGuard { lock: Some(self) }
			}
		}
		impl<'a> StorageLock<'a, Time> {
			pub fn with_deadline(key: &'a [u8], d: Duration) -> Self {
				Self { key: key.to_vec(), lockable: Time(d), p: Default::default() }
			}
			pub fn new(key: &'a [u8]) -> Self {
				Self::with_deadline(key, Duration(20_000))
			}
		}
		impl<'a, B: traits::BlockNumberProvider> StorageLock<'a, BlockAndTime<B>> {
			pub fn with_block_and_time_deadline(key: &'a [u8], offset: u32, d: Duration) -> Self {
				Self { key: key.to_vec(), lockable: BlockAndTime { offset, d, p: Default::default() }, p: Default::default() }
			}
			pub fn with_block_deadline(key: &'a [u8], offset: u32) -> Self {
				Self::with_block_and_time_deadline(key, offset, Duration(20_000))
			}
		}
		pub struct StorageLockGuard<'a, 'b, L: Lockable> {
			lock: Option<&'b mut StorageLock<'a, L>>,
		}
		impl<'a, 'b, L: Lockable> StorageLockGuard<'a, 'b, L> {
			pub fn extend_lock(&mut self) -> Result<L::Deadline, ()> {
				let l = self.lock.as_ref().unwrap();
				match ext::local_get(&l.key) {
					Some(_) if l.expired().is_err() => {
						let d = l.lockable.deadline();
						ext::local_set(&l.key, d.encode());
						Ok(d)
					},
					_ => Err(()),
				}
			}
			pub fn forget(mut self) {
				self.lock = None;
			}
		}
		impl<'a, 'b, L: Lockable> Drop for StorageLockGuard<'a, 'b, L> {
			fn drop(&mut self) {
				if let Some(l) = &self.lock {
					ext::local_clear(&l.key)
				}
			}
		}
	}
	pub mod http {
		use super::*;
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub enum Error {
			DeadlineReached,
			IoError,
			Unknown,
		}
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct HttpError;
		pub struct Request<'a> {
			url: &'a str,
			body: Vec<u8>,
		}
		impl<'a> Request<'a> {
			pub fn post<T: IntoIterator<Item = I>, I: AsRef<[u8]>>(url: &'a str, body: T) -> Self {
				Request { url, body: body.into_iter().flat_map(|b| b.as_ref().to_vec()).collect() }
			}
			pub fn add_header(self, _: &str, _: &str) -> Self {
				self
			}
			pub fn deadline(self, _: Timestamp) -> Self {
				self
			}
			pub fn send(self) -> Result<PendingRequest, HttpError> {
				let h = ext::http().ok_or(HttpError)?;
				Ok(PendingRequest(h(self.url, &self.body)))
			}
		}
		pub struct PendingRequest(Result<(u16, Vec<u8>), ()>);
		impl PendingRequest {
			pub fn try_wait(self, _: impl Into<Option<Timestamp>>) -> Result<Result<Response, Error>, PendingRequest> {
				Ok(self.wait())
			}
			pub fn wait(self) -> Result<Response, Error> {
				match self.0 {
					Ok((code, b)) => Ok(Response { code, b }),
					Err(()) => Err(Error::IoError),
				}
			}
		}
		pub struct Response {
			pub code: u16,
			b: Vec<u8>,
		}
		impl Response {
			pub fn body(&self) -> std::vec::IntoIter<u8> {
				self.b.clone().into_iter()
			}
		}
	}
}
