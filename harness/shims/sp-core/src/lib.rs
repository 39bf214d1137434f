pub use mini::core_::*;
