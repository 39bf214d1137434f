pub use mini::num::*;
