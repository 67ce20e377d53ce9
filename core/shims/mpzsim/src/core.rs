//! mpz-core
use serde::{Deserialize, Serialize};

pub mod bitvec {
    pub use ::bitvec::prelude::{bits, bitvec};
    pub use ::bitvec::slice::BitSlice as RawBitSlice;
    pub type BitVec<T = u32, O = ::bitvec::order::Lsb0> = ::bitvec::vec::BitVec<T, O>;
    pub type BitSlice<T = u32, O = ::bitvec::order::Lsb0> = ::bitvec::slice::BitSlice<T, O>;
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Block([u8; 16]);

impl Block {
    pub const ZERO: Self = Block([0; 16]);
    pub const ONES: Self = Block([0xff; 16]);
    pub const LEN: usize = 16;
    pub fn new(b: [u8; 16]) -> Self {
        Block(b)
    }
    pub fn random<R: rand::Rng + ?Sized>(rng: &mut R) -> Self {
        Block(rng.random())
    }
    pub fn to_bytes(self) -> [u8; 16] {
        self.0
    }
    pub fn reverse_bits(self) -> Self {
        Block(u128::from_be_bytes(self.0).reverse_bits().to_be_bytes())
    }
}
impl From<[u8; 16]> for Block {
    fn from(b: [u8; 16]) -> Self {
        Block(b)
    }
}
impl From<Block> for [u8; 16] {
    fn from(b: Block) -> Self {
        b.0
    }
}
impl rand::distr::Distribution<Block> for rand::distr::StandardUniform {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Block {
        Block(rng.random())
    }
}
