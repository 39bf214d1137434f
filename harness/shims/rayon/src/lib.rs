//! Sequential stand-in: `par_iter` is `iter`.
pub mod prelude {
	pub trait IntoParallelRefIterator<'a> { type Iter; fn par_iter(&'a self) -> Self::Iter; }
	impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> { type Iter = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::Iter { self.iter() } }
	impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] { type Iter = std::slice::Iter<'a, T>; fn par_iter(&'a self) -> Self::Iter { self.iter() } }
	pub trait IntoParallelIterator: IntoIterator + Sized { fn into_par_iter(self) -> Self::IntoIter { self.into_iter() } }
	impl<T> IntoParallelIterator for Vec<T> {}
}
