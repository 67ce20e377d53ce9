//! C38: verification of a server's identity from recorded handshake data.

use crate::{names::*, pki::*, util::*, x509gen::*};
use proptest::{prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use tlsn_core::{
    connection::{CertBinding, CertBindingV1_2, DnsName, HandshakeData, KeyType, ServerEphemKey, ServerName, ServerSignature, SignatureAlgorithm as A, TlsVersion},
    webpki::{CertificateDer, PrivateKeyDer, RootCertStore, ServerCertVerifier},
};
use vpt::{cases, catch, check, check_eq, fail, gen::*, law, CaseResult, Check, Cx};

const ALGS: [A; 11] = [
    A::ECDSA_NISTP256_SHA256,
    A::ECDSA_NISTP256_SHA384,
    A::ECDSA_NISTP384_SHA256,
    A::ECDSA_NISTP384_SHA384,
    A::ED25519,
    A::RSA_PKCS1_2048_8192_SHA256,
    A::RSA_PKCS1_2048_8192_SHA384,
    A::RSA_PKCS1_2048_8192_SHA512,
    A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
    A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
    A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
];

/// What each name means.
fn meaning(a: A) -> (Kind, Sig) {
    match a {
        A::ECDSA_NISTP256_SHA256 => (Kind::P256, Sig::Ecdsa(Hsh::Sha256)),
        A::ECDSA_NISTP256_SHA384 => (Kind::P256, Sig::Ecdsa(Hsh::Sha384)),
        A::ECDSA_NISTP384_SHA256 => (Kind::P384, Sig::Ecdsa(Hsh::Sha256)),
        A::ECDSA_NISTP384_SHA384 => (Kind::P384, Sig::Ecdsa(Hsh::Sha384)),
        A::ED25519 => (Kind::Ed, Sig::Ed),
        A::RSA_PKCS1_2048_8192_SHA256 => (Kind::Rsa, Sig::Pkcs1(Hsh::Sha256)),
        A::RSA_PKCS1_2048_8192_SHA384 => (Kind::Rsa, Sig::Pkcs1(Hsh::Sha384)),
        A::RSA_PKCS1_2048_8192_SHA512 => (Kind::Rsa, Sig::Pkcs1(Hsh::Sha512)),
        A::RSA_PSS_2048_8192_SHA256_LEGACY_KEY => (Kind::Rsa, Sig::Pss(Hsh::Sha256)),
        A::RSA_PSS_2048_8192_SHA384_LEGACY_KEY => (Kind::Rsa, Sig::Pss(Hsh::Sha384)),
        A::RSA_PSS_2048_8192_SHA512_LEGACY_KEY => (Kind::Rsa, Sig::Pss(Hsh::Sha512)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hs {
    scn: Scn,
    /// Signs in place of the leaf's key.
    signer: Option<u8>,
    /// Algorithm actually used, and the one named in the record.
    alg: u8,
    named: Option<u8>,
    cr: [u8; 32],
    sr: [u8; 32],
    key: Bytes,
    change: u8,
    m: Mutation,
    /// The certificate that is presented first.
    json: bool,
}

fn hs() -> impl Strategy<Value = Hs> {
    (
        scn(),
        proptest::option::weighted(0.1, 0u8..16),
        any::<u8>(),
        proptest::option::weighted(0.15, any::<u8>()),
        any::<([u8; 32], [u8; 32])>(),
        prop_oneof![8 => bytes(65..66), 1 => bytes(0..100), 1 => bytes(254..256)],
        prop_oneof![7 => Just(0u8), 5 => 1u8..13],
        mutation(),
        any::<bool>(),
    )
        .prop_map(|(scn, signer, alg, named, (cr, sr), key, change, m, json)| Hs { scn, signer, alg, named, cr, sr, key, change, m, json })
}

fn der(c: &Cert) -> CertificateDer {
    CertificateDer(c.der())
}

fn kx(key: &[u8]) -> Vec<u8> {
    let mut v = vec![3, 0, 0x17, key.len() as u8];
    v.extend(key);
    v
}

fn handshake(c: &Hs, cx: &mut Cx) -> CaseResult {
    let s = normalise(&c.scn);
    let (chain, name) = acceptable(&s);
    let leaf_key = s.leaf.carried_key();
    let signer = c.signer.unwrap_or(leaf_key);
    let kind = keys()[signer as usize].kind;
    let fit: Vec<A> = ALGS.into_iter().filter(|a| meaning(*a).0 == kind || (kind == Kind::RsaSmall && meaning(*a).0 == Kind::Rsa)).collect();
    let alg = fit[c.alg as usize % fit.len()];
    let named = match c.named {
        None => alg,
        Some(k) => ALGS[k as usize % ALGS.len()],
    };
    let message = [&c.cr[..], &c.sr[..], &kx(&c.key)].concat();
    // A small RSA key cannot make every PSS signature.
    let Some(mut sig) = sign(signer as usize, meaning(alg).1, &message) else {
        return Ok(());
    };
    let (mut cr, mut sr, mut key) = (c.cr, c.sr, c.key.0.clone());
    let mut stated = ServerEphemKey { typ: KeyType::SECP256R1, key: key.clone() };
    let mut certs: Vec<CertificateDer> = vec![der(&s.leaf)];
    certs.extend(s.presented.iter().map(der));
    if let Some((at, j)) = &s.junk {
        let at = 1 + *at as usize % certs.len();
        certs.insert(at, CertificateDer(j.0.clone()));
    }
    let before = (cr, sr, key.clone(), sig.clone());
    let (mut chain, mut keys_agree) = (chain, true);
    match c.change {
        1 => cr[c.alg as usize % 32] ^= 1 << (c.alg % 8),
        2 => sr[c.alg as usize % 32] ^= 1 << (c.alg % 8),
        3 => {
            c.m.apply(&mut key);
            stated.key = key.clone();
        }
        4 => c.m.apply(&mut sig),
        5 => std::mem::swap(&mut cr, &mut sr),
        6 => {
            certs.clear();
            chain = false;
        }
        7 => {
            key.clear();
            stated.key.clear();
        }
        // Only one side changes: the key of the session is not the one signed.
        8 => c.m.apply(&mut key),
        9 => c.m.apply(&mut stated.key),
        // The last byte of the server random moves into the key.
        10 => {
            key.insert(0, sr[31]);
            stated.key = key.clone();
        }
        11 => {
            certs[0] = CertificateDer(c.key.0.clone());
            chain = false;
        }
        12 => sig.clear(),
        _ => {}
    }
    if key.len() > 255 || stated.key.len() > 255 {
        return Ok(());
    }
    keys_agree &= key == stated.key;
    let same = (cr, sr, key.clone(), sig.clone()) == before;
    let signed = same && signer == leaf_key && strong(leaf_key) && named == alg;
    let ok = chain && name && keys_agree && signed;
    cx.nontrivial(true);
    cx.label(format!("chain {} name {} keys {} signature {}", chain as u8, name as u8, keys_agree as u8, signed as u8));
    let data = HandshakeData {
        certs,
        sig: ServerSignature { alg: named, sig },
        binding: CertBinding::V1_2(CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key } }),
    };
    let roots = RootCertStore { roots: s.trusted.iter().map(der).collect() };
    let roots: RootCertStore = dec(&enc(&roots))?;
    let v = ServerCertVerifier::new(&roots).map_err(|e| format!("usable roots refused: {e}"))?;
    let sn = ServerName::Dns(DnsName::try_from(s.name.as_str()).map_err(|e| e.to_string())?);
    let got = data.verify(&v, s.now as u64, &stated, &sn);
    check_eq!(got.is_ok(), ok, "verdict on a handshake (chain {chain}, name {name}, key {keys_agree}, signature {signed}): {:?}", got.map_err(|e| e.to_string()));
    // The same after storage.
    let back: HandshakeData = if c.json { serde_json::from_slice(&serde_json::to_vec(&data).map_err(|e| e.to_string())?).map_err(|e| e.to_string())? } else { dec(&enc(&data))? };
    check_eq!(enc(&back), enc(&data), "record after storage");
    check_eq!(back.verify(&v, s.now as u64, &stated, &sn).is_ok(), ok, "verdict after storage");
    // And the certificate half alone.
    if let Some((ee, inter)) = data.certs.split_first() {
        check_eq!(v.verify_server_cert(ee, inter, &sn, s.now as u64).is_ok(), chain && name, "verdict on the certificates alone");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clock {
    scn: Scn,
    which: u8,
    delta: i64,
    start: bool,
}

fn clock(c: &Clock, cx: &mut Cx) -> CaseResult {
    let mut s = normalise(&c.scn);
    let all: Vec<Cert> = std::iter::once(s.leaf.clone()).chain(s.presented.clone()).collect();
    let cert = &all[c.which as usize % all.len()];
    s.now = (if c.start { cert.nb } else { cert.na }) + c.delta;
    if s.now < 0 {
        return Ok(());
    }
    let (chain, name) = acceptable(&s);
    cx.nontrivial(true);
    cx.label(if chain && name { "inside" } else { "outside" });
    let v = ServerCertVerifier::new(&RootCertStore { roots: s.trusted.iter().map(der).collect() }).map_err(|e| e.to_string())?;
    let sn = ServerName::Dns(DnsName::try_from(s.name.clone()).map_err(|e| e.to_string())?);
    let rest: Vec<CertificateDer> = s.presented.iter().map(der).collect();
    check_eq!(v.verify_server_cert(&der(&s.leaf), &rest, &sn, s.now as u64).is_ok(), chain && name, "at {} of certificate window [{}, {}]", s.now, cert.nb, cert.na);
    Ok(())
}

/// Roots that are not certificates are refused, wherever they stand.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Roots {
    scn: Scn,
    bad: Option<(u8, u8, Mutation)>,
    far: u64,
}

fn roots(c: &Roots, cx: &mut Cx) -> CaseResult {
    let s = normalise(&c.scn);
    let mut list: Vec<CertificateDer> = s.trusted.iter().map(der).collect();
    let mut bad = false;
    if let Some((at, how, m)) = &c.bad {
        let mut j = der(&s.leaf).0;
        match how % 4 {
            0 => j = vec![],
            1 => j.truncate(j.len() / 2),
            2 => j.push(0),
            _ => m.apply(&mut j),
        }
        bad = webpki::anchor_from_trusted_cert(&rustls_pki_types::CertificateDer::from(j.as_slice())).is_err();
        check!(bad || how % 4 == 3);
        let at = *at as usize % (list.len() + 1);
        list.insert(at, CertificateDer(j));
    }
    cx.nontrivial(bad);
    let got = catch(|| ServerCertVerifier::new(&RootCertStore { roots: list.clone() }).is_ok()).map_err(|e| format!("panic: {e}"))?;
    check_eq!(got, !bad, "store of {} roots", list.len());
    // Without roots nothing is trusted, and no time makes it panic.
    let sn = ServerName::Dns(DnsName::try_from(s.name.as_str()).map_err(|e| e.to_string())?);
    let rest: Vec<CertificateDer> = s.presented.iter().map(der).collect();
    let none = ServerCertVerifier::new(&RootCertStore::empty()).map_err(|e| e.to_string())?;
    check!(none.verify_server_cert(&der(&s.leaf), &rest, &sn, s.now as u64).is_err(), "accepted with no root");
    let moz = mozilla();
    check!(moz.verify_server_cert(&der(&s.leaf), &rest, &sn, s.now as u64).is_err(), "accepted under public roots");
    let v = ServerCertVerifier::new(&RootCertStore { roots: s.trusted.iter().map(der).collect() }).map_err(|e| e.to_string())?;
    let far = c.far.max(300_000_000_000);
    let r = catch(|| v.verify_server_cert(&der(&s.leaf), &rest, &sn, far).is_ok()).map_err(|e| format!("panic at time {far}: {e}"))?;
    check!(!r, "accepted at {far}");
    Ok(())
}

fn mozilla() -> &'static ServerCertVerifier {
    static M: std::sync::OnceLock<ServerCertVerifier> = std::sync::OnceLock::new();
    M.get_or_init(ServerCertVerifier::mozilla)
}

fn dns_name(s: &String, cx: &mut Cx) -> CaseResult {
    let legal = legal_dns(s.as_bytes());
    cx.nontrivial(!s.is_empty());
    cx.label(if legal { "legal" } else { "not legal" });
    let got = DnsName::try_from(s.as_str());
    check_eq!(got.is_ok(), legal, "name {s:?}");
    check_eq!(DnsName::try_from(s.clone()).is_ok(), legal, "owned name {s:?}");
    let bin = dec::<DnsName>(&enc(s));
    check_eq!(bin.is_ok(), legal, "encoded name {s:?}");
    let js = serde_json::from_str::<DnsName>(&serde_json::to_string(s).unwrap());
    check_eq!(js.is_ok(), legal, "name {s:?} in JSON");
    let tagged = serde_json::from_value::<ServerName>(serde_json::json!({ "Dns": s }));
    check_eq!(tagged.is_ok(), legal, "server name {s:?} in JSON");
    if let Ok(n) = got {
        check_eq!(n.as_str(), s);
        check_eq!(n.as_ref() as &str, s);
        check_eq!(n.to_string(), *s);
        check_eq!(bin.unwrap(), n);
        check_eq!(js.unwrap(), n);
        let sn = ServerName::Dns(n.clone());
        check_eq!(sn.to_string(), *s);
        check_eq!(tagged.unwrap(), sn);
        check_eq!(dec::<ServerName>(&enc(&sn))?, sn);
        // Asking whether a certificate is for it never panics.
        let leaf = some_cert();
        let r = catch(|| mozilla().verify_server_cert(leaf, &[], &sn, 1_700_000_000).is_ok()).map_err(|e| format!("panic for {s:?}: {e}"))?;
        check!(!r);
    }
    Ok(())
}

fn some_cert() -> &'static CertificateDer {
    static C: std::sync::OnceLock<CertificateDer> = std::sync::OnceLock::new();
    C.get_or_init(|| CertificateDer(tlsn_core::fixtures::ConnectionFixture::tlsnotary(tlsn_core::connection::TranscriptLength { sent: 1, received: 1 }).server_cert_data.certs[0].0.clone()))
}

/// Certificates and keys in PEM files, and the small conversions.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pem {
    data: Bytes,
    width: u8,
    label: u8,
    crlf: bool,
    before: Option<Bytes>,
    version: u16,
    group: u16,
}

fn b64(d: &[u8]) -> String {
    openssl::base64::encode_block(d)
}

fn pem(c: &Pem, cx: &mut Cx) -> CaseResult {
    cx.nontrivial(!c.data.is_empty());
    let labels = ["CERTIFICATE", "PRIVATE KEY", "RSA PRIVATE KEY", "EC PRIVATE KEY", "X509 CRL", "CERTIFICATE REQUEST"];
    let label = labels[c.label as usize % labels.len()];
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let w = 4 + c.width as usize % 76;
    let body = b64(&c.data).as_bytes().chunks(w).map(|l| format!("{}{nl}", std::str::from_utf8(l).unwrap())).collect::<String>();
    let mut text = String::new();
    if let Some(b) = &c.before {
        // Something else first: a comment or another kind of object.
        text += &if b.len() % 2 == 0 { format!("# {}{nl}", hex::encode(&b[..])) } else { format!("-----BEGIN X509 CRL-----{nl}{}{nl}-----END X509 CRL-----{nl}", b64(b)) };
    }
    text += &format!("-----BEGIN {label}-----{nl}{body}-----END {label}-----{nl}");
    let cert = catch(|| CertificateDer::from_pem_slice(text.as_bytes())).map_err(|e| format!("panic: {e}"))?;
    check_eq!(cert.is_ok(), label == "CERTIFICATE", "certificate from {label}");
    if let Ok(x) = cert {
        check_eq!(x.0, c.data.0);
    }
    let key = PrivateKeyDer::from_pem_slice(text.as_bytes());
    check_eq!(key.is_ok(), label.ends_with("PRIVATE KEY"), "key from {label}");
    if let Ok(x) = key {
        check_eq!(x.0, c.data.0);
    }
    // Versions and key types the system knows.
    let v = TlsVersion::try_from(tls_core::msgs::enums::ProtocolVersion::from(c.version));
    match (c.version, v) {
        (0x0303, Ok(TlsVersion::V1_2)) | (0x0304, Ok(TlsVersion::V1_3)) => {}
        (0x0303 | 0x0304, v) => fail!("version {:04x} is {v:?}", c.version),
        (_, v) => check!(v.is_err(), "version {:04x} is {v:?}", c.version),
    }
    let k = ServerEphemKey::try_from(tls_core::key::PublicKey { group: tls_core::msgs::enums::NamedGroup::from(c.group), key: c.data.0.clone() });
    check_eq!(k.is_ok(), c.group == 0x17, "key of group {:04x}", c.group);
    if let Ok(k) = k {
        check_eq!(k, ServerEphemKey { typ: KeyType::SECP256R1, key: c.data.0.clone() });
    }
    Ok(())
}

pub fn c38() -> Check {
    Check {
        id: "C38",
        rule: "every recorded handshake and clock; root stores with an unusable root; names and PEM objects that are not empty",
        assumptions: &["chain acceptability is judged by the reference validator of C07"],
        laws: vec![
            law("handshake", cases(80_000), hs, handshake),
            law("clock", cases(30_000), || (scn(), any::<u8>(), select(vec![-2i64, -1, 0, 1, 2]), any::<bool>()).prop_map(|(scn, which, delta, start)| Clock { scn, which, delta, start }), clock),
            law("roots", cases(8_000), || (scn(), proptest::option::weighted(0.7, (any::<u8>(), any::<u8>(), mutation())), prop_oneof![Just(u64::MAX), any::<u64>()]).prop_map(|(scn, bad, far)| Roots { scn, bad, far }), roots),
            law("names", cases(200_000), name_string, dns_name),
            law(
                "forms",
                cases(50_000),
                || {
                    (spiky_bytes(0..400), any::<u8>(), any::<u8>(), any::<bool>(), proptest::option::weighted(0.3, bytes(1..20)), prop_oneof![0x0300u16..0x0306, any::<u16>()], prop_oneof![0x16u16..0x1f, any::<u16>()])
                        .prop_map(|(data, width, label, crlf, before, version, group)| Pem { data, width, label, crlf, before, version, group })
                },
                pem,
            ),
        ],
    }
}
