//! Stand-in: AES-128 over OpenSSL.
use cipher::{Array16, BlockEncrypt, Cipher16, KeyInit};
#[derive(Clone)]
pub struct Aes128([u8; 16]);
impl KeyInit for Aes128 {
    fn new(k: &Array16) -> Self {
        Aes128((*k).into())
    }
}
impl Cipher16 for Aes128 {
    fn new16(k: &[u8; 16]) -> Self {
        Aes128(*k)
    }
    fn block16(&self, b: [u8; 16]) -> [u8; 16] {
        let mut c = openssl::symm::Crypter::new(openssl::symm::Cipher::aes_128_ecb(), openssl::symm::Mode::Encrypt, &self.0, None).unwrap();
        c.pad(false);
        let mut out = [0; 32];
        assert_eq!(c.update(&b, &mut out).unwrap(), 16);
        out[..16].try_into().unwrap()
    }
}
impl BlockEncrypt for Aes128 {
    fn encrypt_block(&self, b: &mut Array16) {
        *b = self.block16((*b).into()).into();
    }
}
