//! The parts of TLS 1.2 that the checks compute on their own.
use openssl::{
    bn::{BigNum, BigNumContext},
    ec::{EcGroup, EcPoint, PointConversionForm},
    hash::MessageDigest,
    nid::Nid,
    pkey::PKey,
    sign::Signer,
};

pub fn hmac(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let k = PKey::hmac(key).unwrap();
    let mut s = Signer::new(MessageDigest::sha256(), &k).unwrap();
    parts.iter().for_each(|p| s.update(p).unwrap());
    s.sign_to_vec().unwrap()
}
pub fn prf(secret: &[u8], label: &str, seed: &[u8], len: usize) -> Vec<u8> {
    let mut a = hmac(secret, &[label.as_bytes(), seed]);
    let mut out = vec![];
    while out.len() < len {
        out.extend(hmac(secret, &[&a, label.as_bytes(), seed]));
        a = hmac(secret, &[&a]);
    }
    out.truncate(len);
    out
}
fn group() -> EcGroup {
    EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap()
}
/// The server's ephemeral key: secret and point.
pub fn ephemeral(seed: u8) -> (BigNum, Vec<u8>) {
    let d = BigNum::from_slice(&hmac(&[seed], &[b"server"])[..31]).unwrap();
    let (g, mut cx) = (group(), BigNumContext::new().unwrap());
    let mut p = EcPoint::new(&g).unwrap();
    p.mul_generator2(&g, &d, &mut cx).unwrap();
    let b = p.to_bytes(&g, PointConversionForm::UNCOMPRESSED, &mut cx).unwrap();
    (d, b)
}
pub fn shared(d: &BigNum, point: &[u8]) -> Vec<u8> {
    let (g, mut cx) = (group(), BigNumContext::new().unwrap());
    let q = EcPoint::from_bytes(&g, point, &mut cx).unwrap();
    let mut p = EcPoint::new(&g).unwrap();
    p.mul2(&g, &q, d, &mut cx).unwrap();
    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    p.affine_coordinates_gfp(&g, &mut x, &mut y, &mut cx).unwrap();
    x.to_vec_padded(32).unwrap()
}

