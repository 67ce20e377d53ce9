//! mpz-fields
use rand::Rng;
use std::fmt::Debug;

pub trait Field: Copy + Clone + Debug + PartialEq + Send + Sync + 'static + std::ops::Add<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Neg<Output = Self> {
    const BIT_SIZE: usize;
    fn zero() -> Self;
    fn one() -> Self;
    fn inverse(self) -> Option<Self>;
    fn to_be_bytes(&self) -> Vec<u8>;
    fn to_le_bytes(&self) -> Vec<u8> {
        let mut b = self.to_be_bytes();
        b.reverse();
        b
    }
}
pub trait UniformRand: Sized {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
}

pub mod p256 {
    use super::*;
    use num_bigint::BigUint;
    use std::sync::LazyLock;
    static P: LazyLock<BigUint> = LazyLock::new(|| {
        BigUint::parse_bytes(b"ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 16).unwrap()
    });
    /// An element of the base field (big-endian).
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
    pub struct P256([u8; 32]);
    #[derive(Debug, thiserror::Error)]
    #[error("not a field element")]
    pub struct P256Error;
    fn big(x: &P256) -> BigUint {
        BigUint::from_bytes_be(&x.0)
    }
    fn small(x: BigUint) -> P256 {
        let b = (x % &*P).to_bytes_be();
        let mut a = [0; 32];
        a[32 - b.len()..].copy_from_slice(&b);
        P256(a)
    }
    impl TryFrom<[u8; 32]> for P256 {
        type Error = P256Error;
        /// From little-endian bytes.
        fn try_from(b: [u8; 32]) -> Result<Self, P256Error> {
            let x = BigUint::from_bytes_le(&b);
            if x >= *P {
                return Err(P256Error);
            }
            Ok(small(x))
        }
    }
    impl std::ops::Add for P256 {
        type Output = P256;
        fn add(self, o: P256) -> P256 {
            small(big(&self) + big(&o))
        }
    }
    impl std::ops::Mul for P256 {
        type Output = P256;
        fn mul(self, o: P256) -> P256 {
            small(big(&self) * big(&o))
        }
    }
    impl std::ops::Neg for P256 {
        type Output = P256;
        fn neg(self) -> P256 {
            small(&*P - big(&self))
        }
    }
    impl Field for P256 {
        const BIT_SIZE: usize = 256;
        fn zero() -> Self {
            P256([0; 32])
        }
        fn one() -> Self {
            small(1u8.into())
        }
        fn inverse(self) -> Option<Self> {
            let x = big(&self);
            (x != 0u8.into()).then(|| small(x.modpow(&(&*P - 2u8), &P)))
        }
        fn to_be_bytes(&self) -> Vec<u8> {
            self.0.to_vec()
        }
    }
    impl UniformRand for P256 {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
            let mut b = [0u8; 40];
            rng.fill(&mut b[..]);
            small(BigUint::from_bytes_be(&b))
        }
    }
    impl rand::distr::Distribution<P256> for rand::distr::StandardUniform {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> P256 {
            P256::rand(rng)
        }
    }
}

pub mod gf2_128 {
    use super::*;
    use crate::core::Block;
    /// Bit `i` is the coefficient of `x^i`, modulo `x^128 + x^7 + x^2 + x + 1`.
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
    pub struct Gf2_128(u128);
    impl Gf2_128 {
        pub fn new(x: u128) -> Self {
            Gf2_128(x)
        }
        pub fn to_inner(self) -> u128 {
            self.0
        }
    }
    impl From<Block> for Gf2_128 {
        fn from(b: Block) -> Self {
            Gf2_128(u128::from_be_bytes(b.to_bytes()))
        }
    }
    impl From<Gf2_128> for Block {
        fn from(g: Gf2_128) -> Self {
            Block::new(g.0.to_be_bytes())
        }
    }
    impl std::ops::Add for Gf2_128 {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Gf2_128(self.0 ^ o.0)
        }
    }
    impl std::ops::Neg for Gf2_128 {
        type Output = Self;
        fn neg(self) -> Self {
            self
        }
    }
    impl std::ops::Mul for Gf2_128 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let (mut a, mut b, mut r) = (self.0, o.0, 0u128);
            while b != 0 {
                r ^= a & (b & 1).wrapping_neg();
                a = a << 1 ^ (a >> 127).wrapping_neg() & 0x87;
                b >>= 1;
            }
            Gf2_128(r)
        }
    }
    impl Field for Gf2_128 {
        const BIT_SIZE: usize = 128;
        fn zero() -> Self {
            Gf2_128(0)
        }
        fn one() -> Self {
            Gf2_128(1)
        }
        fn inverse(self) -> Option<Self> {
            if self.0 == 0 {
                return None;
            }
            // x^(2^128 - 2)
            let (mut r, mut s) = (Gf2_128(1), self);
            for _ in 1..128 {
                s = s * s;
                r = r * s;
            }
            Some(r)
        }
        fn to_be_bytes(&self) -> Vec<u8> {
            self.0.to_be_bytes().to_vec()
        }
    }
    impl UniformRand for Gf2_128 {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
            Gf2_128(rng.random())
        }
    }
    impl rand::distr::Distribution<Gf2_128> for rand::distr::StandardUniform {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Gf2_128 {
            Gf2_128(rng.random())
        }
    }
}
