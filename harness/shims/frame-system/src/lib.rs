pub use mini::system::*;
