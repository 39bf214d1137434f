//! Type metadata is not used by the checks: `TypeInfo` only has to exist.
pub use mini_macros::TypeInfo;
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct Type;
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct MetaType;
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct Path;
impl Path {
	pub fn new(_: &'static str, _: &'static str) -> Self {
		Path
	}
}
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct TypeParameter;
impl TypeParameter {
	pub fn new(_: &'static str, _: Option<MetaType>) -> Self {
		TypeParameter
	}
}
pub fn meta_type<T: ?Sized>() -> MetaType {
	MetaType
}
pub struct TypeBuilder;
impl Type {
	pub fn builder() -> TypeBuilder {
		TypeBuilder
	}
}
impl TypeBuilder {
	pub fn path(self, _: Path) -> Self {
		self
	}
	pub fn type_params<I>(self, _: I) -> Self {
		self
	}
	pub fn docs(self, _: &[&'static str]) -> Self {
		self
	}
	pub fn composite<F>(self, _: F) -> Type {
		Type
	}
	pub fn variant<F>(self, _: F) -> Type {
		Type
	}
}
pub mod build {
	pub struct Fields;
	pub struct FieldsBuilder;
	pub struct FieldBuilder;
	impl Fields {
		pub fn unnamed() -> FieldsBuilder {
			FieldsBuilder
		}
		pub fn named() -> FieldsBuilder {
			FieldsBuilder
		}
	}
	impl FieldsBuilder {
		pub fn field<F: Fn(FieldBuilder) -> FieldBuilder>(self, f: F) -> Self {
			f(FieldBuilder);
			self
		}
	}
	impl FieldBuilder {
		pub fn ty<T: ?Sized>(self) -> Self {
			self
		}
		pub fn type_name(self, _: &'static str) -> Self {
			self
		}
		pub fn name(self, _: &'static str) -> Self {
			self
		}
		pub fn docs(self, _: &[&'static str]) -> Self {
			self
		}
	}
}
pub mod prelude {
	pub use std::{borrow, boxed, fmt, format, string, vec};
}
pub trait TypeInfo {
	type Identity: ?Sized;
	fn type_info() -> Type;
}
pub trait StaticTypeInfo: TypeInfo + 'static {}
impl<T: TypeInfo + 'static> StaticTypeInfo for T {}
macro_rules! ti { ($($t:ty),*) => {$( impl TypeInfo for $t { type Identity = Self; fn type_info() -> Type { Type } } )*} }
ti!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, String, ());
macro_rules! tg { ($($t:ty),*) => {$( impl<T> TypeInfo for $t { type Identity = Self; fn type_info() -> Type { Type } } )*} }
tg!(Vec<T>, Option<T>, Box<T>, std::marker::PhantomData<T>);
impl<T, const N: usize> TypeInfo for [T; N] {
	type Identity = Self;
	fn type_info() -> Type {
		Type
	}
}
impl<K, V> TypeInfo for std::collections::BTreeMap<K, V> {
	type Identity = Self;
	fn type_info() -> Type {
		Type
	}
}
impl<A, B> TypeInfo for (A, B) {
	type Identity = Self;
	fn type_info() -> Type {
		Type
	}
}
impl<A, B, C> TypeInfo for (A, B, C) {
	type Identity = Self;
	fn type_info() -> Type {
		Type
	}
}
