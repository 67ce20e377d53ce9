//! TLS 1.2 ECDHE_*_AES_128_GCM_SHA256, from the standards (RFC 5246, 5288,
//! 8422), over OpenSSL primitives. Used by both ends of the harness.

use openssl::{
    bn::{BigNum, BigNumContext},
    derive::Deriver,
    ec::{EcGroup, EcKey, EcPoint, PointConversionForm},
    nid::Nid,
    pkey::{PKey, Private},
    symm::{Cipher, decrypt_aead, encrypt_aead},
};
use sha2::{Digest, Sha256};

pub fn sha256(d: &[u8]) -> [u8; 32] {
    Sha256::digest(d).into()
}

pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x36));
    for p in parts {
        h.update(p);
    }
    let i = h.finalize();
    let mut h = Sha256::new();
    h.update(k.map(|b| b ^ 0x5c));
    h.update(i);
    h.finalize().into()
}

pub fn prf(secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut a = hmac(secret, &[label, seed]);
    while out.len() < n {
        out.extend(hmac(secret, &[&a, label, seed]));
        a = hmac(secret, &[&a]);
    }
    out.truncate(n);
    out
}

#[derive(Debug, Clone)]
pub struct Keys {
    pub master: Vec<u8>,
    /// Write key and implicit nonce: client's, server's.
    pub key: [Vec<u8>; 2],
    pub iv: [Vec<u8>; 2],
}

pub fn derive_keys(pms: &[u8], cr: &[u8], sr: &[u8]) -> Keys {
    let master = prf(pms, b"master secret", &[cr, sr].concat(), 48);
    let b = prf(&master, b"key expansion", &[sr, cr].concat(), 40);
    Keys { master, key: [b[..16].to_vec(), b[16..32].to_vec()], iv: [b[32..36].to_vec(), b[36..40].to_vec()] }
}

/// Explicit nonce || ciphertext || tag.
pub fn seal(k: &Keys, side: usize, seq: u64, explicit: [u8; 8], typ: u8, ver: u16, plain: &[u8]) -> Vec<u8> {
    let nonce = [&k.iv[side][..], &explicit].concat();
    let mut aad = seq.to_be_bytes().to_vec();
    aad.push(typ);
    aad.extend(ver.to_be_bytes());
    aad.extend((plain.len() as u16).to_be_bytes());
    let mut tag = [0; 16];
    let ct = encrypt_aead(Cipher::aes_128_gcm(), &k.key[side], Some(&nonce), &aad, plain, &mut tag).unwrap();
    [&explicit[..], &ct, &tag].concat()
}

pub fn open(k: &Keys, side: usize, seq: u64, typ: u8, ver: u16, rec: &[u8]) -> Option<Vec<u8>> {
    if rec.len() < 24 {
        return None;
    }
    let nonce = [&k.iv[side][..], &rec[..8]].concat();
    let n = rec.len() - 24;
    let mut aad = seq.to_be_bytes().to_vec();
    aad.push(typ);
    aad.extend(ver.to_be_bytes());
    aad.extend((n as u16).to_be_bytes());
    decrypt_aead(Cipher::aes_128_gcm(), &k.key[side], Some(&nonce), &aad, &rec[8..8 + n], &rec[8 + n..]).ok()
}

pub struct Ecdh {
    key: PKey<Private>,
    pub public: Vec<u8>,
}

fn group() -> EcGroup {
    EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap()
}

impl Ecdh {
    pub fn new(seed: &[u8]) -> Self {
        let g = group();
        let mut c = BigNumContext::new().unwrap();
        let mut d = sha256(seed);
        d[0] &= 0x7f;
        let d = BigNum::from_slice(&d).unwrap();
        let mut q = EcPoint::new(&g).unwrap();
        q.mul_generator2(&g, &d, &mut c).unwrap();
        let public = q.to_bytes(&g, PointConversionForm::UNCOMPRESSED, &mut c).unwrap();
        Self { key: PKey::from_ec_key(EcKey::from_private_components(&g, &d, &q).unwrap()).unwrap(), public }
    }
    pub fn shared(&self, peer: &[u8]) -> Option<Vec<u8>> {
        let g = group();
        let mut c = BigNumContext::new().unwrap();
        let q = EcPoint::from_bytes(&g, peer, &mut c).ok()?;
        let p = PKey::from_ec_key(EcKey::from_public_key(&g, &q).ok()?).ok()?;
        let mut d = Deriver::new(&self.key).ok()?;
        d.set_peer(&p).ok()?;
        d.derive_to_vec().ok()
    }
}
