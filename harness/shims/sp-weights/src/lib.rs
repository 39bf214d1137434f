pub use mini::weights_::*;
