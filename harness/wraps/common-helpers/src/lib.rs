#[path = "/repo/common/helpers/src/avro.rs"]
pub mod avro;
#[path = "/repo/common/helpers/src/types.rs"]
pub mod types;
#[path = "/repo/common/helpers/src/rpc.rs"]
pub mod rpc;
