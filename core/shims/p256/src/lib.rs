//! Stand-in for p256: ECDSA (see ecshim) and the group, over OpenSSL.
pub mod ecdsa {
    pub use ecshim::signature;
    pub type SigningKey = ecshim::SigningKey<ecshim::P256>;
    pub type VerifyingKey = ecshim::VerifyingKey<ecshim::P256>;
    pub type Signature = ecshim::Signature<ecshim::P256>;
    pub use ecshim::{Error, RecoveryId};
}
use generic_array::{typenum::U32, GenericArray};
use openssl::{
    bn::{BigNum, BigNumContext},
    ec::{EcGroup, EcPoint},
};
use rand_core::{CryptoRng, RngCore};

pub type FieldBytes = GenericArray<u8, U32>;
pub mod elliptic_curve {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("crypto error")
        }
    }
    impl std::error::Error for Error {}
    pub mod sec1 {
        use crate::*;
        pub trait FromEncodedPoint: Sized {
            fn from_encoded_point(p: &EncodedPoint) -> Option<Self>;
        }
        pub trait ToEncodedPoint {
            fn to_encoded_point(&self, compress: bool) -> EncodedPoint;
        }
        impl ToEncodedPoint for PublicKey {
            fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
                PublicKey::to_encoded_point(self, compress)
            }
        }
        impl ToEncodedPoint for ProjectivePoint {
            fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
                PublicKey(self.0 .0.unwrap()).to_encoded_point(compress)
            }
        }
        impl FromEncodedPoint for ProjectivePoint {
            fn from_encoded_point(p: &EncodedPoint) -> Option<Self> {
                PublicKey::from_sec1_bytes(&p.to_bytes()).ok().map(|k| k.to_projective())
            }
        }
    }
}
use elliptic_curve::Error;

fn group() -> EcGroup {
    ecshim::group::<ecshim::P256>()
}
type Xy = ([u8; 32], [u8; 32]);
fn load(g: &EcGroup, p: &AffinePoint) -> EcPoint {
    let mut e = EcPoint::new(g).unwrap();
    if let Some((x, y)) = &p.0 {
        let (x, y) = (BigNum::from_slice(x).unwrap(), BigNum::from_slice(y).unwrap());
        e.set_affine_coordinates_gfp(g, &x, &y, &mut BigNumContext::new().unwrap()).unwrap();
    }
    e
}
fn store(g: &EcGroup, e: &EcPoint) -> AffinePoint {
    if e.is_infinity(g) {
        return AffinePoint(None);
    }
    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    e.affine_coordinates(g, &mut x, &mut y, &mut BigNumContext::new().unwrap()).unwrap();
    let f = |n: &BigNum| n.to_vec_padded(32).unwrap().try_into().unwrap();
    AffinePoint(Some((f(&x), f(&y))))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AffinePoint(Option<Xy>);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ProjectivePoint(AffinePoint);
impl ProjectivePoint {
    pub fn to_affine(&self) -> AffinePoint {
        self.0
    }
}
impl std::ops::Add for ProjectivePoint {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let g = group();
        let mut r = EcPoint::new(&g).unwrap();
        r.add(&g, &load(&g, &self.0), &load(&g, &o.0), &mut BigNumContext::new().unwrap()).unwrap();
        ProjectivePoint(store(&g, &r))
    }
}
impl std::ops::Mul<&Scalar> for ProjectivePoint {
    type Output = Self;
    fn mul(self, k: &Scalar) -> Self {
        let g = group();
        let mut r = EcPoint::new(&g).unwrap();
        let k = BigNum::from_slice(&k.0).unwrap();
        r.mul2(&g, &load(&g, &self.0), &k, &mut BigNumContext::new().unwrap()).unwrap();
        ProjectivePoint(store(&g, &r))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Scalar([u8; 32]);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NonZeroScalar(Scalar);
impl AsRef<Scalar> for NonZeroScalar {
    fn as_ref(&self) -> &Scalar {
        &self.0
    }
}
impl NonZeroScalar {
    pub fn random<R: RngCore + CryptoRng + ?Sized>(rng: &mut R) -> Self {
        loop {
            let mut b = [0; 32];
            rng.fill_bytes(&mut b);
            if let Some(s) = Self::from_repr(b.into()) {
                return s;
            }
        }
    }
    pub fn from_repr(b: FieldBytes) -> Option<Self> {
        ecshim::scalar::<ecshim::P256>(&b).map(|_| NonZeroScalar(Scalar(b.into())))
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SecretKey(NonZeroScalar);
impl SecretKey {
    pub fn random<R: RngCore + CryptoRng + ?Sized>(rng: &mut R) -> Self {
        SecretKey(NonZeroScalar::random(rng))
    }
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 32 {
            return Err(Error);
        }
        NonZeroScalar::from_repr(*GenericArray::from_slice(b)).map(SecretKey).ok_or(Error)
    }
    pub fn public_key(&self) -> PublicKey {
        PublicKey::from_secret_scalar(&self.0)
    }
    pub fn to_nonzero_scalar(&self) -> NonZeroScalar {
        self.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PublicKey(Xy);
impl PublicKey {
    pub fn from_secret_scalar(s: &NonZeroScalar) -> Self {
        let g = group();
        let mut r = EcPoint::new(&g).unwrap();
        let k = BigNum::from_slice(&s.0 .0).unwrap();
        r.mul_generator2(&g, &k, &mut BigNumContext::new().unwrap()).unwrap();
        PublicKey(store(&g, &r).0.unwrap())
    }
    pub fn from_affine(p: AffinePoint) -> Result<Self, Error> {
        p.0.map(PublicKey).ok_or(Error)
    }
    pub fn as_affine(&self) -> AffinePoint {
        AffinePoint(Some(self.0))
    }
    pub fn to_projective(&self) -> ProjectivePoint {
        ProjectivePoint(self.as_affine())
    }
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
        match (b.first(), b.len()) {
            (Some(2 | 3), 33) | (Some(4), 65) => {}
            _ => return Err(Error),
        }
        let g = group();
        let mut ctx = BigNumContext::new().unwrap();
        let p = EcPoint::from_bytes(&g, b, &mut ctx).map_err(|_| Error)?;
        if !p.is_on_curve(&g, &mut ctx).map_err(|_| Error)? {
            return Err(Error);
        }
        PublicKey::from_affine(store(&g, &p))
    }
    pub fn to_sec1_bytes(&self) -> Box<[u8]> {
        self.to_encoded_point(false).to_bytes()
    }
    pub fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
        EncodedPoint { x: self.0 .0.into(), y: self.0 .1.into(), compress }
    }
}
impl serde::Serialize for PublicKey {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::Serialize::serialize(&self.to_sec1_bytes().to_vec(), s)
    }
}
impl<'de> serde::Deserialize<'de> for PublicKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let b: Vec<u8> = serde::Deserialize::deserialize(d)?;
        PublicKey::from_sec1_bytes(&b).map_err(serde::de::Error::custom)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EncodedPoint {
    x: FieldBytes,
    y: FieldBytes,
    compress: bool,
}
impl From<PublicKey> for EncodedPoint {
    fn from(k: PublicKey) -> Self {
        k.to_encoded_point(false)
    }
}
impl EncodedPoint {
    pub fn from_affine_coordinates(x: &FieldBytes, y: &FieldBytes, compress: bool) -> Self {
        EncodedPoint { x: *x, y: *y, compress }
    }
    pub fn x(&self) -> Option<&FieldBytes> {
        Some(&self.x)
    }
    pub fn y(&self) -> Option<&FieldBytes> {
        (!self.compress).then_some(&self.y)
    }
    pub fn to_bytes(&self) -> Box<[u8]> {
        let mut v = if self.compress { vec![2 | self.y[31] & 1] } else { vec![4] };
        v.extend_from_slice(&self.x);
        if !self.compress {
            v.extend_from_slice(&self.y);
        }
        v.into()
    }
}
pub mod ecdh {
    use super::*;
    pub struct SharedSecret(FieldBytes);
    impl SharedSecret {
        pub fn raw_secret_bytes(&self) -> &FieldBytes {
            &self.0
        }
    }
    pub fn diffie_hellman(k: impl std::borrow::Borrow<NonZeroScalar>, p: impl std::borrow::Borrow<AffinePoint>) -> SharedSecret {
        let r = ProjectivePoint(*p.borrow()) * k.borrow().as_ref();
        SharedSecret(r.0 .0.unwrap().0.into())
    }
}
