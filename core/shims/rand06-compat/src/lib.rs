//! Stand-in: rand 0.9 generators as rand 0.6 ones.
pub struct Rand0_6Compat<R>(R);
impl<R: rand_core::RngCore> rand_core_06::RngCore for Rand0_6Compat<R> {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.0.fill_bytes(b)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core_06::Error> {
        self.0.fill_bytes(b);
        Ok(())
    }
}
impl<R: rand_core::CryptoRng> rand_core_06::CryptoRng for Rand0_6Compat<R> {}
pub trait Rand0_6CompatExt: Sized {
    fn compat(self) -> Rand0_6Compat<Self> {
        Rand0_6Compat(self)
    }
    fn compat_by_ref(&mut self) -> Rand0_6Compat<&mut Self> {
        Rand0_6Compat(self)
    }
}
impl<R: rand_core::RngCore> Rand0_6CompatExt for R {}
