pub use mini::sp_std::*;
