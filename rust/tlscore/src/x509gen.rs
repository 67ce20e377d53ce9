//! Keys, signatures (OpenSSL, independent of the library under test) and a small
//! DER writer that makes X.509 certificates to measure.

use openssl::{
    hash::MessageDigest,
    pkey::{Id, PKey, Private},
    rsa::Padding,
    sign::{RsaPssSaltlen, Signer},
};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    P256,
    P384,
    Ed,
    Rsa,
    RsaSmall,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Hsh {
    Sha1,
    Sha256,
    Sha384,
    Sha512,
}

impl Hsh {
    fn md(self) -> MessageDigest {
        match self {
            Hsh::Sha1 => MessageDigest::sha1(),
            Hsh::Sha256 => MessageDigest::sha256(),
            Hsh::Sha384 => MessageDigest::sha384(),
            Hsh::Sha512 => MessageDigest::sha512(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Sig {
    Ecdsa(Hsh),
    Ed,
    Pkcs1(Hsh),
    /// Salt length equal to the hash length.
    Pss(Hsh),
}

pub struct Key {
    pub kind: Kind,
    pub pkey: PKey<Private>,
    /// SubjectPublicKeyInfo.
    pub spki: Vec<u8>,
    /// The public key itself (point, modulus and exponent, ...).
    pub raw: Vec<u8>,
}

pub fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        macro_rules! k {
            ($($kind:ident $f:literal),* $(,)?) => { vec![$((Kind::$kind, &include_bytes!(concat!("../keys/", $f, ".der"))[..])),*] };
        }
        k![P256 "p256-0", P256 "p256-1", P256 "p256-2", P256 "p256-3", P256 "p256-4", P256 "p256-5", P384 "p384-0", P384 "p384-1", P384 "p384-2",
           Ed "ed-0", Ed "ed-1", Ed "ed-2", Rsa "rsa-0", Rsa "rsa-1", Rsa "rsa-2", RsaSmall "rsa1024-0"]
        .into_iter()
        .map(|(kind, der)| {
            let pkey = PKey::private_key_from_der(der).expect("key");
            let spki = pkey.public_key_to_der().unwrap();
            let raw = match kind {
                Kind::P256 => spki[spki.len() - 65..].to_vec(),
                Kind::P384 => spki[spki.len() - 97..].to_vec(),
                Kind::Ed => spki[spki.len() - 32..].to_vec(),
                _ => pkey.rsa().unwrap().public_key_to_der_pkcs1().unwrap(),
            };
            Key { kind, pkey, spki, raw }
        })
        .collect()
    })
}

/// Signs with a key; `None` when the algorithm does not fit the key.
pub fn sign(key: usize, alg: Sig, msg: &[u8]) -> Option<Vec<u8>> {
    let k = &keys()[key];
    let id = k.pkey.id();
    let mut out = match (alg, id) {
        (Sig::Ecdsa(h), Id::EC) => {
            let mut s = Signer::new(h.md(), &k.pkey).unwrap();
            s.update(msg).unwrap();
            s.sign_to_vec().unwrap()
        }
        (Sig::Ed, Id::ED25519) => Signer::new_without_digest(&k.pkey).unwrap().sign_oneshot_to_vec(msg).unwrap(),
        (Sig::Pkcs1(h), Id::RSA) => {
            let mut s = Signer::new(h.md(), &k.pkey).unwrap();
            s.set_rsa_padding(Padding::PKCS1).unwrap();
            s.update(msg).unwrap();
            s.sign_to_vec().unwrap()
        }
        (Sig::Pss(h), Id::RSA) => {
            let mut s = Signer::new(h.md(), &k.pkey).unwrap();
            s.set_rsa_padding(Padding::PKCS1_PSS).unwrap();
            s.set_rsa_pss_saltlen(RsaPssSaltlen::DIGEST_LENGTH).unwrap();
            s.set_rsa_mgf1_md(h.md()).unwrap();
            s.update(msg).unwrap();
            s.sign_to_vec().ok()?
        }
        _ => return None,
    };
    out.shrink_to_fit();
    Some(out)
}

// ---------------------------------------------------------------- DER

pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut o = vec![tag];
    if n < 128 {
        o.push(n as u8);
    } else if n < 256 {
        o.extend([0x81, n as u8]);
    } else if n < 65536 {
        o.extend([0x82, (n >> 8) as u8, n as u8]);
    } else {
        o.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    o.extend(body);
    o
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn oid(arcs: &[u64]) -> Vec<u8> {
    let mut b = vec![(arcs[0] * 40 + arcs[1]) as u8];
    for &a in &arcs[2..] {
        let mut t = vec![(a & 0x7f) as u8];
        let mut a = a >> 7;
        while a > 0 {
            t.insert(0, 0x80 | (a & 0x7f) as u8);
            a >>= 7;
        }
        b.extend(t);
    }
    tlv(6, &b)
}

fn alg_id(a: Sig) -> Vec<u8> {
    let h = |h: Hsh| match h {
        Hsh::Sha1 => 0u64,
        Hsh::Sha256 => 1,
        Hsh::Sha384 => 2,
        Hsh::Sha512 => 3,
    };
    let null = vec![5, 0];
    match a {
        Sig::Ecdsa(Hsh::Sha1) => seq(&[oid(&[1, 2, 840, 10045, 4, 1])]),
        Sig::Ecdsa(x) => seq(&[oid(&[1, 2, 840, 10045, 4, 3, h(x) + 1])]),
        Sig::Ed => seq(&[oid(&[1, 3, 101, 112])]),
        Sig::Pkcs1(Hsh::Sha1) => seq(&[oid(&[1, 2, 840, 113549, 1, 1, 5]), null]),
        Sig::Pkcs1(x) => seq(&[oid(&[1, 2, 840, 113549, 1, 1, 10 + h(x)]), null]),
        Sig::Pss(x) => {
            let hash = seq(&[oid(&[2, 16, 840, 1, 101, 3, 4, 2, h(x)]), null]);
            let mgf = seq(&[oid(&[1, 2, 840, 113549, 1, 1, 8]), hash.clone()]);
            let salt = match x {
                Hsh::Sha256 => 32u8,
                Hsh::Sha384 => 48,
                _ => 64,
            };
            seq(&[oid(&[1, 2, 840, 113549, 1, 1, 10]), seq(&[tlv(0xa0, &hash), tlv(0xa1, &mgf), tlv(0xa2, &tlv(2, &[salt]))])])
        }
    }
}

/// UTCTime or GeneralizedTime for seconds since 1970.
fn time(t: i64) -> Vec<u8> {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    // Civil from days (Howard Hinnant).
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let rest = format!("{m:02}{d:02}{:02}{:02}{:02}Z", s / 3600, s / 60 % 60, s % 60);
    if (1950..2050).contains(&y) {
        tlv(0x17, format!("{:02}{rest}", y % 100).as_bytes())
    } else {
        tlv(0x18, format!("{y:04}{rest}").as_bytes())
    }
}

/// A distinguished name holding one CN (without the outer SEQUENCE).
pub fn name_body(n: u8) -> Vec<u8> {
    tlv(0x31, &seq(&[oid(&[2, 5, 4, 3]), tlv(0x0c, format!("Entity {n}").as_bytes())]))
}
pub fn name(n: u8) -> Vec<u8> {
    tlv(0x30, &name_body(n))
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum San {
    Dns(String),
    Ip(Vec<u8>),
    Mail(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Tamper {
    /// One bit of the signature.
    Sig(u16),
    /// The serial number was changed after signing.
    Serial,
    /// The public key was replaced after signing.
    Spki(u8),
    /// The validity was extended after signing.
    Validity,
    /// The names were replaced after signing.
    Names,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Cert {
    pub subject: u8,
    pub issuer: u8,
    pub key: u8,
    pub signer: u8,
    pub sig: Sig,
    pub nb: i64,
    pub na: i64,
    /// basicConstraints: CA flag and path length.
    pub bc: Option<(bool, Option<u8>)>,
    /// extKeyUsage: last arc of id-kp (1 = serverAuth).
    pub eku: Option<Vec<u8>>,
    pub sans: Vec<San>,
    /// nameConstraints: permitted and excluded DNS subtrees.
    pub nc: Option<(Vec<String>, Vec<String>)>,
    /// An extension nobody knows: critical?
    pub unknown: Option<bool>,
    pub tamper: Option<Tamper>,
}

impl Cert {
    fn tbs(&self, after: bool) -> Vec<u8> {
        let t = if after { self.tamper.as_ref() } else { None };
        let ext = |id: &[u64], critical: bool, v: Vec<u8>| {
            let mut p = vec![oid(id)];
            if critical {
                p.push(vec![1, 1, 0xff]);
            }
            p.push(tlv(4, &v));
            seq(&p)
        };
        let mut exts = vec![];
        if let Some((ca, len)) = &self.bc {
            let mut p = vec![];
            if *ca {
                p.push(vec![1, 1, 0xff]);
                if let Some(l) = len {
                    p.push(tlv(2, &[*l]));
                }
            }
            exts.push(ext(&[2, 5, 29, 19], true, seq(&p)));
        }
        if let Some(e) = &self.eku {
            exts.push(ext(&[2, 5, 29, 37], false, seq(&e.iter().map(|x| oid(&[1, 3, 6, 1, 5, 5, 7, 3, *x as u64])).collect::<Vec<_>>())));
        }
        let mut sans = self.sans.clone();
        if let Some(Tamper::Names) = t {
            sans = vec![San::Dns("a.test".into()), San::Dns("*.a.test".into()), San::Dns("b.test".into())];
        }
        if !sans.is_empty() {
            let n: Vec<Vec<u8>> = sans
                .iter()
                .map(|s| match s {
                    San::Dns(d) => tlv(0x82, d.as_bytes()),
                    San::Ip(i) => tlv(0x87, i),
                    San::Mail(m) => tlv(0x81, m.as_bytes()),
                })
                .collect();
            exts.push(ext(&[2, 5, 29, 17], false, seq(&n)));
        }
        if let Some((p, e)) = &self.nc {
            let sub = |tag: u8, v: &Vec<String>| tlv(tag, &v.iter().map(|d| seq(&[tlv(0x82, d.as_bytes())])).collect::<Vec<_>>().concat());
            let mut parts = vec![];
            if !p.is_empty() {
                parts.push(sub(0xa0, p));
            }
            if !e.is_empty() {
                parts.push(sub(0xa1, e));
            }
            exts.push(ext(&[2, 5, 29, 30], true, seq(&parts)));
        }
        if let Some(c) = self.unknown {
            exts.push(ext(&[1, 3, 6, 1, 4, 1, 99999, 7], c, tlv(4, b"??")));
        }
        let (mut nb, mut na) = (self.nb, self.na);
        if let Some(Tamper::Validity) = t {
            nb = (nb - 40 * 31_536_000).max(0);
            na += 40 * 31_536_000;
        }
        let key = if after { self.carried_key() } else { self.key };
        let serial = if let Some(Tamper::Serial) = t { 0x55 } else { 0x11 };
        let mut p = vec![
            tlv(0xa0, &tlv(2, &[2])),
            tlv(2, &[serial, self.subject, self.key]),
            alg_id(self.sig),
            name(self.issuer),
            seq(&[time(nb), time(na)]),
            name(self.subject),
            keys()[key as usize].spki.clone(),
        ];
        if !exts.is_empty() {
            p.push(tlv(0xa3, &seq(&exts)));
        }
        seq(&p)
    }

    pub fn der(&self) -> Vec<u8> {
        let mut sig = sign(self.signer as usize, self.sig, &self.tbs(false)).expect("algorithm fits key");
        if let Some(Tamper::Sig(bit)) = self.tamper {
            let bit = bit as usize % (sig.len() * 8);
            sig[bit / 8] ^= 1 << (bit % 8);
        }
        let mut bits = vec![0];
        bits.extend(sig);
        seq(&[self.tbs(true), alg_id(self.sig), tlv(3, &bits)])
    }

    /// The key the encoded certificate carries.
    pub fn carried_key(&self) -> u8 {
        match self.tamper {
            Some(Tamper::Spki(k)) => k,
            _ => self.key,
        }
    }

    /// Whether the content is what the signer signed. A flipped signature bit
    /// may, for some schemes, still verify only with negligible probability.
    pub fn intact(&self) -> bool {
        self.tamper.is_none()
    }
}

/// Algorithms that fit a key and that the library can verify in certificates.
pub fn natural(kind: Kind) -> Vec<Sig> {
    use Hsh::*;
    match kind {
        Kind::P256 | Kind::P384 => vec![Sig::Ecdsa(Sha256), Sig::Ecdsa(Sha384)],
        Kind::Ed => vec![Sig::Ed],
        Kind::Rsa => vec![Sig::Pkcs1(Sha256), Sig::Pkcs1(Sha384), Sig::Pkcs1(Sha512), Sig::Pss(Sha256), Sig::Pss(Sha384), Sig::Pss(Sha512)],
        Kind::RsaSmall => vec![Sig::Pkcs1(Sha256)],
    }
}
