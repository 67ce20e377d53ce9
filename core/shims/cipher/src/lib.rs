//! Stand-in for what is used of cipher.
use generic_array::{typenum::U16, GenericArray};
pub type Array16 = GenericArray<u8, U16>;
pub trait KeyInit: Sized {
    fn new(k: &Array16) -> Self;
}
pub trait KeyIvInit: Sized {
    fn new(k: &Array16, iv: &Array16) -> Self;
}
pub trait Cipher16 {
    fn new16(k: &[u8; 16]) -> Self;
    fn block16(&self, b: [u8; 16]) -> [u8; 16];
}
pub trait BlockEncrypt {
    fn encrypt_block(&self, b: &mut Array16);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StreamCipherError;
impl std::fmt::Display for StreamCipherError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("stream cipher error")
    }
}
impl std::error::Error for StreamCipherError {}
pub trait StreamCipher {
    fn try_apply_keystream(&mut self, b: &mut [u8]) -> Result<(), StreamCipherError>;
    fn apply_keystream(&mut self, b: &mut [u8]) {
        self.try_apply_keystream(b).unwrap()
    }
}
pub trait StreamCipherSeek {
    fn try_seek<T: TryInto<u64>>(&mut self, pos: T) -> Result<(), StreamCipherError>;
}
