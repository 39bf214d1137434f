//! The node service's own RPC, as it is in /repo.
#[path = "/repo/node/service/src/rpc/frequency_rpc.rs"]
pub mod frequency_rpc;
