//! Stand-in for ghash (NIST SP 800-38D, 6.4).
use generic_array::{typenum::U16, GenericArray};
pub mod universal_hash {
    use super::*;
    pub type Array16 = GenericArray<u8, U16>;
    pub trait KeyInit: Sized {
        fn new(k: &Array16) -> Self;
    }
    pub trait UniversalHash: Sized {
        fn update_padded(&mut self, data: &[u8]);
        fn finalize(self) -> Array16;
    }
}
pub struct GHash {
    h: u128,
    y: u128,
}
impl universal_hash::KeyInit for GHash {
    fn new(k: &GenericArray<u8, U16>) -> Self {
        GHash { h: u128::from_be_bytes((*k).into()), y: 0 }
    }
}
fn mul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in (0..128).rev() {
        if x >> i & 1 == 1 {
            z ^= v;
        }
        v = v >> 1 ^ if v & 1 == 1 { 0xe1 << 120 } else { 0 };
    }
    z
}
impl universal_hash::UniversalHash for GHash {
    fn update_padded(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0; 16];
            b[..c.len()].copy_from_slice(c);
            self.y = mul(self.y ^ u128::from_be_bytes(b), self.h);
        }
    }
    fn finalize(self) -> GenericArray<u8, U16> {
        self.y.to_be_bytes().into()
    }
}
