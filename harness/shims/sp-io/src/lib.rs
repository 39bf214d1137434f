pub use mini::io::*;
