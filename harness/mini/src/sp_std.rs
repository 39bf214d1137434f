pub use std::{any, ascii, borrow, boxed, cell, char, clone, cmp, convert, default, error, fmt, hash, iter, marker, mem, num, ops, option, ptr, rc, result, slice, str, string, sync, time, vec, write};
pub mod collections {
	pub use std::collections::*;
	pub use std::collections::{btree_map, btree_set, vec_deque};
}
pub mod prelude {
	pub use std::prelude::v1::*;
	pub use std::borrow::ToOwned;
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq, Reverse};
	pub use std::iter::IntoIterator;
	pub use std::vec;
	pub use std::vec::Vec;
}
