pub mod bounded_impl;
pub mod dispatch_impl;
pub mod storage_impl;
pub mod traits_impl;
