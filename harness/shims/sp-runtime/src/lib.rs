pub use mini::runtime::*;
