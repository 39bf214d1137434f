pub const STORAGE_PREFIX: &[u8] = b"storage";
