//! ECDSA with the interface (and conventions) of the crates p256 and k256, over
//! OpenSSL's curve arithmetic: RFC 6979 nonces, 64-byte `r || s` signatures;
//! k256 makes and accepts only signatures with a low `s`.

use hmac::{Hmac, Mac};
use openssl::{
    bn::{BigNum, BigNumContext, BigNumRef},
    ec::{EcGroup, EcKey, EcPoint, PointConversionForm},
    ecdsa::EcdsaSig,
    nid::Nid,
    pkey::Public,
};
use sha2::{Digest, Sha256};
pub use signature::{self, Error};
use std::marker::PhantomData;

pub trait Curve: Clone + Send + Sync + 'static {
    const NID: Nid;
    const LOW_S: bool;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct P256;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct K256;
impl Curve for P256 {
    const NID: Nid = Nid::X9_62_PRIME256V1;
    const LOW_S: bool = false;
}
impl Curve for K256 {
    const NID: Nid = Nid::SECP256K1;
    const LOW_S: bool = true;
}

pub fn group<C: Curve>() -> EcGroup {
    EcGroup::from_curve_name(C::NID).expect("curve")
}
pub fn order<C: Curve>() -> BigNum {
    let mut n = BigNum::new().unwrap();
    group::<C>().order(&mut n, &mut BigNumContext::new().unwrap()).unwrap();
    n
}
fn be32(n: &BigNumRef) -> [u8; 32] {
    n.to_vec_padded(32).unwrap().try_into().unwrap()
}
/// A number in 1..n.
pub fn scalar<C: Curve>(b: &[u8]) -> Option<BigNum> {
    let x = BigNum::from_slice(b).ok()?;
    (b.len() == 32 && x.num_bits() > 0 && x < order::<C>()).then_some(x)
}
fn is_high(s: &BigNumRef, n: &BigNumRef) -> bool {
    let mut half = BigNum::new().unwrap();
    half.rshift1(n).unwrap();
    *s > *half
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Signature<C>([u8; 64], PhantomData<C>);
impl<C: Curve> Signature<C> {
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        let a: [u8; 64] = b.try_into().map_err(|_| Error::new())?;
        scalar::<C>(&a[..32]).ok_or_else(Error::new)?;
        scalar::<C>(&a[32..]).ok_or_else(Error::new)?;
        Ok(Self(a, PhantomData))
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn to_bytes(&self) -> [u8; 64] {
        self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RecoveryId(u8);
impl RecoveryId {
    pub fn to_byte(self) -> u8 {
        self.0
    }
    pub fn is_y_odd(self) -> bool {
        self.0 & 1 == 1
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VerifyingKey<C>([u8; 33], PhantomData<C>);
impl<C: Curve> VerifyingKey<C> {
    pub fn from_sec1_bytes(b: &[u8]) -> Result<Self, Error> {
        // The tags of RFC 5480; the crates do not take the hybrid form or infinity.
        match (b.first(), b.len()) {
            (Some(2 | 3), 33) | (Some(4), 65) => {}
            _ => return Err(Error::new()),
        }
        let g = group::<C>();
        let mut ctx = BigNumContext::new().unwrap();
        let p = EcPoint::from_bytes(&g, b, &mut ctx).map_err(|_| Error::new())?;
        if p.is_infinity(&g) || !p.is_on_curve(&g, &mut ctx).map_err(|_| Error::new())? {
            return Err(Error::new());
        }
        let c = p.to_bytes(&g, PointConversionForm::COMPRESSED, &mut ctx).map_err(|_| Error::new())?;
        Ok(Self(c.try_into().map_err(|_| Error::new())?, PhantomData))
    }
    /// Compressed form.
    pub fn to_sec1_bytes(&self) -> Box<[u8]> {
        self.0.to_vec().into()
    }
    fn key(&self) -> EcKey<Public> {
        let g = group::<C>();
        let p = EcPoint::from_bytes(&g, &self.0, &mut BigNumContext::new().unwrap()).unwrap();
        EcKey::from_public_key(&g, &p).unwrap()
    }
}
impl<C: Curve> signature::hazmat::PrehashVerifier<Signature<C>> for VerifyingKey<C> {
    fn verify_prehash(&self, prehash: &[u8], sig: &Signature<C>) -> Result<(), Error> {
        if prehash.len() < 16 {
            return Err(Error::new());
        }
        let r = BigNum::from_slice(&sig.0[..32]).unwrap();
        let s = BigNum::from_slice(&sig.0[32..]).unwrap();
        if C::LOW_S && is_high(&s, &order::<C>()) {
            return Err(Error::new());
        }
        let sig = EcdsaSig::from_private_components(r, s).map_err(|_| Error::new())?;
        match sig.verify(prehash, &self.key()) {
            Ok(true) => Ok(()),
            _ => Err(Error::new()),
        }
    }
}
impl<C: Curve> signature::Verifier<Signature<C>> for VerifyingKey<C> {
    fn verify(&self, msg: &[u8], sig: &Signature<C>) -> Result<(), Error> {
        signature::hazmat::PrehashVerifier::verify_prehash(self, &Sha256::digest(msg), sig)
    }
}

#[derive(Clone)]
pub struct SigningKey<C> {
    d: [u8; 32],
    public: VerifyingKey<C>,
}
impl<C: Curve> SigningKey<C> {
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        let d = scalar::<C>(b).ok_or_else(Error::new)?;
        let g = group::<C>();
        let mut ctx = BigNumContext::new().unwrap();
        let mut p = EcPoint::new(&g).unwrap();
        p.mul_generator2(&g, &d, &mut ctx).unwrap();
        let c = p.to_bytes(&g, PointConversionForm::COMPRESSED, &mut ctx).unwrap();
        Ok(Self { d: b.try_into().unwrap(), public: VerifyingKey(c.try_into().unwrap(), PhantomData) })
    }
    pub fn from_bytes(b: &[u8; 32]) -> Result<Self, Error> {
        Self::from_slice(b)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.d
    }
    pub fn verifying_key(&self) -> &VerifyingKey<C> {
        &self.public
    }

    pub fn sign_prehash_recoverable(&self, prehash: &[u8]) -> Result<(Signature<C>, RecoveryId), Error> {
        if prehash.len() != 32 {
            return Err(Error::new());
        }
        let n = order::<C>();
        let g = group::<C>();
        let mut ctx = BigNumContext::new().unwrap();
        let d = BigNum::from_slice(&self.d).unwrap();
        let z = {
            let raw = BigNum::from_slice(prehash).unwrap();
            let mut z = BigNum::new().unwrap();
            z.nnmod(&raw, &n, &mut ctx).unwrap();
            z
        };
        let mac = |key: &[u8], parts: &[&[u8]]| -> [u8; 32] {
            let mut m = Hmac::<Sha256>::new_from_slice(key).unwrap();
            for p in parts {
                m.update(p);
            }
            m.finalize().into_bytes().into()
        };
        let h = be32(&z);
        let mut v = [1u8; 32];
        let mut k = [0u8; 32];
        k = mac(&k, &[&v, &[0], &self.d, &h]);
        v = mac(&k, &[&v]);
        k = mac(&k, &[&v, &[1], &self.d, &h]);
        v = mac(&k, &[&v]);
        loop {
            v = mac(&k, &[&v]);
            if let Some(nonce) = scalar::<C>(&v) {
                let mut p = EcPoint::new(&g).unwrap();
                p.mul_generator2(&g, &nonce, &mut ctx).unwrap();
                let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
                p.affine_coordinates(&g, &mut x, &mut y, &mut ctx).unwrap();
                let mut r = BigNum::new().unwrap();
                r.nnmod(&x, &n, &mut ctx).unwrap();
                let mut inv = BigNum::new().unwrap();
                inv.mod_inverse(&nonce, &n, &mut ctx).unwrap();
                let mut rd = BigNum::new().unwrap();
                rd.mod_mul(&r, &d, &n, &mut ctx).unwrap();
                let mut sum = BigNum::new().unwrap();
                sum.mod_add(&z, &rd, &n, &mut ctx).unwrap();
                let mut s = BigNum::new().unwrap();
                s.mod_mul(&inv, &sum, &n, &mut ctx).unwrap();
                if r.num_bits() > 0 && s.num_bits() > 0 {
                    let mut id = y.is_bit_set(0) as u8 | (((x >= n) as u8) << 1);
                    if C::LOW_S && is_high(&s, &n) {
                        let mut low = BigNum::new().unwrap();
                        low.checked_sub(&n, &s).unwrap();
                        s = low;
                        id ^= 1;
                    }
                    let mut out = [0; 64];
                    out[..32].copy_from_slice(&be32(&r));
                    out[32..].copy_from_slice(&be32(&s));
                    return Ok((Signature(out, PhantomData), RecoveryId(id)));
                }
            }
            k = mac(&k, &[&v, &[0]]);
            v = mac(&k, &[&v]);
        }
    }
}
impl<C: Curve> signature::Signer<Signature<C>> for SigningKey<C> {
    fn try_sign(&self, msg: &[u8]) -> Result<Signature<C>, Error> {
        Ok(self.sign_prehash_recoverable(&Sha256::digest(msg))?.0)
    }
}

#[test]
fn rfc6979_p256_sample() {
    use signature::{Signer, Verifier};
    let d: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&"C9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721"[2 * i..2 * i + 2], 16).unwrap()).collect();
    let k = SigningKey::<P256>::from_slice(&d).unwrap();
    let s: Signature<P256> = k.sign(b"sample");
    assert_eq!(s.0[..4], [0xEF, 0xD4, 0x8B, 0x2A]);
    assert_eq!(s.0[32..36], [0xF7, 0xCB, 0x1C, 0x94]);
    k.verifying_key().verify(b"sample", &s).unwrap();
    assert!(k.verifying_key().verify(b"sampl", &s).is_err());
    let k = SigningKey::<K256>::from_slice(&d).unwrap();
    let s: Signature<K256> = k.sign(b"sample");
    k.verifying_key().verify(b"sample", &s).unwrap();
}
