//! The servers' certificates.
use crate::x509gen::*;

thread_local! {
    static DERS: std::cell::RefCell<std::collections::HashMap<String, Vec<u8>>> = Default::default();
}
/// The same certificate has the same bytes.
pub fn der(c: &Cert) -> Vec<u8> {
    let k = format!("{c:?}");
    DERS.with(|d| d.borrow_mut().entry(k).or_insert_with(|| c.der()).clone())
}
fn ca(subject: u8, issuer: u8, key: u8, signer: u8) -> Cert {
    Cert {
        subject,
        issuer,
        key,
        signer,
        sig: natural(keys()[signer as usize].kind)[0],
        nb: 1_600_000_000,
        na: 2_500_000_000,
        bc: Some((true, None)),
        eku: None,
        sans: vec![],
        nc: None,
        unknown: None,
        tamper: None,
    }
}
const ROOT: u8 = 2;
pub fn root() -> Vec<u8> {
    der(&ca(30, 30, ROOT, ROOT))
}
/// Leaf first.
pub fn chain(key: u8, depth: u8, name: &str) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let (mut issuer, mut signer) = (30u8, ROOT);
    for i in 0..depth {
        v.insert(0, ca(20 + i, issuer, 4 + i, signer));
        (issuer, signer) = (20 + i, 4 + i);
    }
    let mut l = ca(10, issuer, key, signer);
    l.bc = None;
    l.sans = vec![San::Dns(name.to_string())];
    v.insert(0, l);
    v.iter().map(der).collect()
}
pub fn secret(key: u8) -> Vec<u8> {
    keys()[key as usize].pkey.private_key_to_pkcs8().unwrap()
}
