//! A small stand-in for the parts of polkadot-sdk the pallets use (the SDK is not available
//! offline). It keeps the semantics the pallets rely on: SCALE-encoded key/value storage with
//! nested transactions, events, origins, dispatch with rollback on error, offchain storage.
#![allow(warnings)]
pub mod core_;
pub mod ext;
pub mod hashing;
pub mod io;
pub mod num;
pub mod runtime;
pub mod sp_std;
pub mod support;
pub mod system;
pub mod weights_;

pub use std::marker::PhantomData;
