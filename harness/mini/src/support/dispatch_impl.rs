//! `frame_support::dispatch`
use crate::runtime::{DispatchError, DispatchErrorWithPostInfo};
pub use crate::runtime::{DispatchResult, RuntimeDebug};
pub use crate::runtime::traits::Dispatchable;
pub use crate::support::traits_impl::UnfilteredDispatchable;
use crate::weights_::Weight;
use parity_scale_codec::*;
pub type DispatchErrorRe = DispatchError;
pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo<PostDispatchInfo>>;
pub type CallableCallFor<A, R> = (A, R);
pub use crate::runtime::DispatchError as DispatchErr_;
pub trait Parameter: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + scale_info::TypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + scale_info::TypeInfo> Parameter for T {}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, mini_macros::TypeInfo)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
impl From<Pays> for PostDispatchInfo {
	fn from(p: Pays) -> Self {
		PostDispatchInfo { actual_weight: None, pays_fee: p }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, mini_macros::TypeInfo)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational]
	}
}
pub trait OneOrMany<T> {
	type Iter: Iterator<Item = T>;
	fn into_iter(self) -> Self::Iter;
}
impl<T: Clone> OneOrMany<T> for T {
	type Iter = std::iter::Once<T>;
	fn into_iter(self) -> Self::Iter {
		std::iter::once(self)
	}
}
impl<'a, T: Clone> OneOrMany<T> for &'a [T] {
	type Iter = std::iter::Cloned<std::slice::Iter<'a, T>>;
	fn into_iter(self) -> Self::Iter {
		self.iter().cloned()
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, mini_macros::TypeInfo)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, mini_macros::TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight {
		info.weight.saturating_sub(self.calc_actual_weight(info))
	}
	pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
		match self.actual_weight {
			Some(w) => w.min(info.weight),
			None => info.weight,
		}
	}
	pub fn pays_fee(&self, info: &DispatchInfo) -> Pays {
		if info.pays_fee == Pays::No || self.pays_fee == Pays::No {
			Pays::No
		} else {
			Pays::Yes
		}
	}
}
impl crate::runtime::traits::Printable for PostDispatchInfo {}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Default::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(w: Option<Weight>) -> Self {
		PostDispatchInfo { actual_weight: w, pays_fee: Default::default() }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from(w: (Option<Weight>, Pays)) -> Self {
		PostDispatchInfo { actual_weight: w.0, pays_fee: w.1 }
	}
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo>;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo> {
		DispatchErrorWithPostInfo { post_info: Some(w).into(), error: self.into() }
	}
}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.calc_actual_weight(info)
}
pub fn extract_actual_pays_fee(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Pays {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.pays_fee(info)
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
pub trait WeighData {
	fn weigh(&self) -> Weight;
}
pub trait ClassifyDispatch {
	fn classify(&self) -> DispatchClass;
}
pub trait PaysFee {
	fn pays(&self) -> Pays;
}
macro_rules! wd {
	($t:ty, $s:ident, $w:expr, $c:expr, $p:expr) => {
		impl WeighData for $t {
			fn weigh(&self) -> Weight {
				let $s = self;
				$w
			}
		}
		impl ClassifyDispatch for $t {
			fn classify(&self) -> DispatchClass {
				let $s = self;
				$c
			}
		}
		impl PaysFee for $t {
			fn pays(&self) -> Pays {
				let $s = self;
				$p
			}
		}
	};
}
wd!(Weight, s, *s, DispatchClass::Normal, Pays::Yes);
wd!(u64, s, Weight::from_parts(*s, 0), DispatchClass::Normal, Pays::Yes);
wd!((Weight, Pays), s, s.0, DispatchClass::Normal, s.1);
wd!((Weight, DispatchClass), s, s.0, s.1, Pays::Yes);
wd!((Weight, DispatchClass, Pays), s, s.0, s.1, s.2);
