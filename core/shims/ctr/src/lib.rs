//! Stand-in for ctr: a 32-bit big-endian counter.
pub use cipher;
use cipher::*;
pub struct Ctr32BE<C> {
    c: C,
    iv: [u8; 16],
    pos: u64,
}
impl<C: Cipher16> KeyIvInit for Ctr32BE<C> {
    fn new(k: &Array16, iv: &Array16) -> Self {
        Ctr32BE { c: C::new16(&(*k).into()), iv: (*iv).into(), pos: 0 }
    }
}
impl<C: Cipher16> StreamCipher for Ctr32BE<C> {
    fn try_apply_keystream(&mut self, b: &mut [u8]) -> Result<(), StreamCipherError> {
        if self.pos + b.len() as u64 > 16 << 32 {
            return Err(StreamCipherError);
        }
        let mut ks = [0; 16];
        for (i, v) in b.iter_mut().enumerate() {
            let off = (self.pos % 16) as usize;
            if i == 0 || off == 0 {
                let mut blk = self.iv;
                let ctr = u32::from_be_bytes(blk[12..].try_into().unwrap()).wrapping_add((self.pos / 16) as u32);
                blk[12..].copy_from_slice(&ctr.to_be_bytes());
                ks = self.c.block16(blk);
            }
            *v ^= ks[off];
            self.pos += 1;
        }
        Ok(())
    }
}
impl<C: Cipher16> StreamCipherSeek for Ctr32BE<C> {
    fn try_seek<T: TryInto<u64>>(&mut self, pos: T) -> Result<(), StreamCipherError> {
        self.pos = pos.try_into().map_err(|_| StreamCipherError)?;
        Ok(())
    }
}
