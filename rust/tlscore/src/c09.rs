//! C09 (PRF), C10 (negotiation), C11 (stored evidence), C12 (server names),
//! C14 (code points), C15 (derived encodings).

use std::collections::HashMap;

use proptest::{
    collection::vec,
    option,
    prelude::*,
    sample::{select, subsequence},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use tls_core::{
    anchors::RootCertStore,
    cert::ServerCertDetails,
    cipher::make_tls12_aad,
    dns::ServerName,
    handshake::HandshakeData,
    ke::ServerKxDetails,
    key::{Certificate, PublicKey},
    msgs::{
        base::PayloadU16,
        codec::{Codec, Reader},
        enums::*,
        handshake::*,
        message::{Message, MessagePayload, PlainMessage},
    },
    prf::prf,
    suites::{self, tls12, AEADAlgorithm, HashAlgorithm as SuiteHash, SupportedCipherSuite},
    versions::{EnabledVersions, ALL_VERSIONS, TLS12, TLS13},
    x509,
};
use vpt::{
    cases, check, check_eq, exhaustive, fail,
    gen::{bytes, many, sized_bytes, Bytes},
    law, CaseResult, Check, Cx,
};

use crate::hs_spec;

// ---------------------------------------------------------------- C09

/// HMAC written from RFC 2104 over ring's SHA-256.
fn hmac_ref(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(ring::digest::digest(&ring::digest::SHA256, key).as_ref());
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut c = ring::digest::Context::new(&ring::digest::SHA256);
    c.update(&k.map(|b| b ^ 0x36));
    for p in parts {
        c.update(p);
    }
    let inner = c.finish();
    let mut c = ring::digest::Context::new(&ring::digest::SHA256);
    c.update(&k.map(|b| b ^ 0x5c));
    c.update(inner.as_ref());
    c.finish().as_ref().try_into().unwrap()
}

/// RFC 5246 section 5.
fn prf_ref(n: usize, secret: &[u8], label: &[u8], seed: &[u8]) -> Vec<u8> {
    let ls = [label, seed].concat();
    let mut a = ls.clone();
    let mut out = vec![];
    while out.len() < n {
        a = hmac_ref(secret, &[&a]).to_vec();
        out.extend(hmac_ref(secret, &[&a, &ls]));
    }
    out.truncate(n);
    out
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PrfCase {
    n: usize,
    secret: Bytes,
    label: Bytes,
    seed: Bytes,
    fill: u8,
    split: u16,
}

fn prf_case() -> impl Strategy<Value = PrfCase> {
    (
        prop_oneof![4 => 0usize..200, 2 => vpt::gen::near(&[0, 12, 31, 32, 33, 48, 64, 72, 104, 128, 256], 2, 600), 1 => 0usize..5000],
        prop_oneof![3 => bytes(0..=130usize), 2 => bytes(48..=48usize), 1 => vpt::gen::near(&[63, 64, 65], 1, 70).prop_flat_map(|n| bytes(n..=n))],
        prop_oneof![
            select(vec![&b"master secret"[..], b"extended master secret", b"key expansion", b"client finished", b"server finished", b""]).prop_map(|l| Bytes(l.to_vec())),
            bytes(0..40)
        ],
        prop_oneof![bytes(0..=100usize), bytes(32..=32usize), bytes(64..=64usize)],
        any::<u8>(),
        any::<u16>(),
    )
        .prop_map(|(n, secret, label, seed, fill, split)| PrfCase { n, secret, label, seed, fill, split })
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "A case is an output length, a secret, a label, a seed and the previous content of the output buffer. Non-trivial: at least one output byte.",
        assumptions: &["The reference is RFC 2104 HMAC and RFC 5246 P_hash over ring's SHA-256."],
        laws: vec![
            law("equals_rfc5246", cases(600_000), prf_case, |c: &PrfCase, cx| {
                cx.nontrivial(c.n > 0);
                cx.label(match c.n {
                    0 => "empty",
                    1..=32 => "one block",
                    _ if c.n % 32 == 0 => "whole blocks",
                    _ => "partial last block",
                });
                let mut out = vec![c.fill; c.n];
                prf(&mut out, &c.secret, &c.label, &c.seed).map_err(|e| e.to_string())?;
                check_eq!(out, prf_ref(c.n, &c.secret, &c.label, &c.seed), "PRF output of {} bytes", c.n);
                // A shorter output is a prefix of a longer one.
                let mut more = vec![!c.fill; c.n + 1 + (c.split % 70) as usize];
                prf(&mut more, &c.secret, &c.label, &c.seed).map_err(|e| e.to_string())?;
                check_eq!(more[..c.n], out[..], "output is not a prefix of a longer output");
                Ok(())
            }),
            law("label_and_seed_are_one_string", cases(20_000), prf_case, |c: &PrfCase, cx| {
                cx.nontrivial(c.n > 0);
                let ls = [&c.label.0[..], &c.seed.0[..]].concat();
                let k = c.split as usize % (ls.len() + 1);
                let (mut x, mut y) = (vec![0; c.n], vec![0; c.n]);
                prf(&mut x, &c.secret, &c.label, &c.seed).map_err(|e| e.to_string())?;
                prf(&mut y, &c.secret, &ls[..k], &ls[k..]).map_err(|e| e.to_string())?;
                check_eq!(x, y, "output depends on where the label ends");
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Copy, PartialEq, Debug)]
enum Auth {
    Any,
    Rsa,
    Ecdsa,
}

struct Row {
    lib: SupportedCipherSuite,
    name: &'static str,
    code: u16,
    auth: Auth,
    aead: AEADAlgorithm,
    hash: SuiteHash,
    iv: usize,
    nonce: usize,
}

/// The parameters the RFCs (5288, 5289, 7905, 8446) give each suite.
fn rows() -> Vec<Row> {
    use AEADAlgorithm::*;
    use Auth::*;
    let r = |lib, name, code, auth, aead, hash, iv, nonce| Row { lib, name, code, auth, aead, hash, iv, nonce };
    vec![
        r(suites::TLS13_AES_128_GCM_SHA256, "TLS13_AES_128_GCM_SHA256", 0x1301, Any, AES_128_GCM, SuiteHash::SHA256, 0, 0),
        r(suites::TLS13_AES_256_GCM_SHA384, "TLS13_AES_256_GCM_SHA384", 0x1302, Any, AES_256_GCM, SuiteHash::SHA384, 0, 0),
        r(suites::TLS13_CHACHA20_POLY1305_SHA256, "TLS13_CHACHA20_POLY1305_SHA256", 0x1303, Any, CHACHA20_POLY1305, SuiteHash::SHA256, 0, 0),
        r(suites::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256", 0xc02b, Ecdsa, AES_128_GCM, SuiteHash::SHA256, 4, 8),
        r(suites::TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384", 0xc02c, Ecdsa, AES_256_GCM, SuiteHash::SHA384, 4, 8),
        r(suites::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256", 0xc02f, Rsa, AES_128_GCM, SuiteHash::SHA256, 4, 8),
        r(suites::TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384", 0xc030, Rsa, AES_256_GCM, SuiteHash::SHA384, 4, 8),
        r(suites::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256", 0xcca8, Rsa, CHACHA20_POLY1305, SuiteHash::SHA256, 12, 0),
        r(suites::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256, "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256", 0xcca9, Ecdsa, CHACHA20_POLY1305, SuiteHash::SHA256, 12, 0),
    ]
}

const ECDSA_SCHEMES: [u16; 4] = [0x0807, 0x0603, 0x0503, 0x0403];
const RSA_SCHEMES: [u16; 6] = [0x0806, 0x0805, 0x0804, 0x0601, 0x0501, 0x0401];

/// The kind of key a scheme signs with.
fn scheme_auth(code: u16) -> Option<Auth> {
    match code {
        0x0201 | 0x0401 | 0x0501 | 0x0601 | 0x0804 | 0x0805 | 0x0806 => Some(Auth::Rsa),
        0x0403 | 0x0503 | 0x0603 => Some(Auth::Ecdsa),
        _ => None,
    }
}

fn suite_ok(auth: Auth, sig: SignatureAlgorithm) -> bool {
    match (auth, sig) {
        (Auth::Any, _) => true,
        (Auth::Rsa, SignatureAlgorithm::RSA) => true,
        (Auth::Ecdsa, SignatureAlgorithm::ECDSA) => true,
        // Keys outside of the TLS 1.2 registry (Ed25519) go with ECDSA suites (RFC 8422, 5.10).
        (Auth::Ecdsa, SignatureAlgorithm::Unknown(0)) => true,
        _ => false,
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Nego {
    client: Vec<u16>,
    server: Vec<u8>,
    scheme: u16,
    sig: u8,
    offered: Vec<u16>,
    version: u16,
    versions: Vec<bool>,
}

fn scheme_code() -> impl Strategy<Value = u16> + Clone {
    prop_oneof![
        5 => select(vec![0x0807u16, 0x0603, 0x0503, 0x0403, 0x0806, 0x0805, 0x0804, 0x0601, 0x0501, 0x0401, 0x0201, 0x0203, 0x0808]),
        1 => any::<u16>(),
    ]
}

fn nego() -> impl Strategy<Value = Nego> {
    let code = prop_oneof![
        6 => select(vec![0x1301u16, 0x1302, 0x1303, 0xc02b, 0xc02c, 0xc02f, 0xc030, 0xcca8, 0xcca9]),
        1 => any::<u16>(),
        1 => select(vec![0x00ffu16, 0x5600, 0, 0xc013, 0x009c]),
    ];
    (
        many(code, 0..12, 80),
        (subsequence((0u8..9).collect::<Vec<_>>(), 0..=9), any::<u64>()).prop_map(|(mut v, s)| {
            // A deterministic shuffle: preference order matters.
            let mut x = s | 1;
            for i in (1..v.len()).rev() {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.swap(i, (x >> 33) as usize % (i + 1));
            }
            v
        }),
        scheme_code(),
        prop_oneof![0u8..5, any::<u8>()],
        many(scheme_code(), 0..14, 60),
        prop_oneof![3 => select(vec![0x0303u16, 0x0304, 0x0301, 0x0302, 0x0300]), 1 => any::<u16>()],
        vec(any::<bool>(), 0..5),
    )
        .prop_map(|(client, server, scheme, sig, offered, version, versions)| Nego { client, server, scheme, sig, offered, version, versions })
}

fn check_nego(c: &Nego, cx: &mut Cx) -> CaseResult {
    let rows = rows();
    let server: Vec<&Row> = c.server.iter().map(|i| &rows[*i as usize]).collect();
    let lib: Vec<SupportedCipherSuite> = server.iter().map(|r| r.lib).collect();
    let client: Vec<CipherSuite> = c.client.iter().map(|x| CipherSuite::from(*x)).collect();
    let common: Vec<u16> = c.client.iter().copied().filter(|x| server.iter().any(|r| r.code == *x)).collect();
    cx.nontrivial(!common.is_empty());
    let code = |s: Option<SupportedCipherSuite>| s.map(|s| s.suite().get_u16());

    let by_client = c.client.iter().copied().find(|x| server.iter().any(|r| r.code == *x));
    check_eq!(code(suites::choose_ciphersuite_preferring_client(&client, &lib)), by_client, "suite chosen by the client's preference");
    let by_server = server.iter().map(|r| r.code).find(|x| c.client.contains(x));
    check_eq!(code(suites::choose_ciphersuite_preferring_server(&client, &lib)), by_server, "suite chosen by the server's preference");
    cx.label_if(by_client != by_server, "preferences differ");

    let codes = |v: &[SupportedCipherSuite]| v.iter().map(|s| s.suite().get_u16()).collect::<Vec<_>>();
    let sig = SignatureAlgorithm::from(c.sig);
    let want: Vec<u16> = server.iter().filter(|r| suite_ok(r.auth, sig)).map(|r| r.code).collect();
    check_eq!(codes(&suites::reduce_given_sigalg(&lib, sig)), want, "suites usable with {sig:?} keys");
    let v = ProtocolVersion::from(c.version);
    let want: Vec<u16> = server.iter().filter(|r| c.version == if r.auth == Auth::Any { 0x0304 } else { 0x0303 }).map(|r| r.code).collect();
    check_eq!(codes(&suites::reduce_given_version(&lib, v)), want, "suites of version {v:?}");

    let scheme = SignatureScheme::from(c.scheme);
    let alg = match scheme_auth(c.scheme) {
        Some(Auth::Rsa) => SignatureAlgorithm::RSA,
        Some(Auth::Ecdsa) => SignatureAlgorithm::ECDSA,
        _ => SignatureAlgorithm::Unknown(0),
    };
    check_eq!(scheme.sign(), alg, "key type of scheme {:#06x}", c.scheme);
    check_eq!(suites::compatible_sigscheme_for_suites(scheme, &lib), server.iter().any(|r| suite_ok(r.auth, alg)), "compatibility of scheme {:#06x}", c.scheme);

    let offered: Vec<SignatureScheme> = c.offered.iter().map(|x| SignatureScheme::from(*x)).collect();
    for r in &rows {
        if let SupportedCipherSuite::Tls12(s) = r.lib {
            let mine: &[u16] = if r.auth == Auth::Rsa { &RSA_SCHEMES } else { &ECDSA_SCHEMES };
            let want: Vec<u16> = mine.iter().copied().filter(|x| c.offered.contains(x)).collect();
            let got: Vec<u16> = s.resolve_sig_schemes(&offered).iter().map(|x| x.get_u16()).collect();
            check_eq!(got, want, "schemes resolved for {}", r.name);
        }
    }

    let list: Vec<&'static tls_core::versions::SupportedProtocolVersion> = c.versions.iter().map(|t| if *t { &TLS13 } else { &TLS12 }).collect();
    let ev = EnabledVersions::new(&list);
    let want = match c.version {
        0x0303 => c.versions.contains(&false),
        0x0304 => c.versions.contains(&true),
        _ => false,
    };
    check_eq!(ev.contains(v), want, "{v:?} enabled by {:?}", c.versions);
    Ok(())
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        rule: "A case is a client's list of suite codes (known, unknown, repeated), a server's ordered set of supported suites, a signature scheme, a key type, \
               an offered list of schemes and a set of versions. Non-trivial: client and server have a suite in common.",
        assumptions: &["Suite parameters are those of RFC 5288, 5289, 7905, 8446; Ed25519 keys go with ECDSA suites (RFC 8422)."],
        laws: vec![
            law("choices_follow_preferences", cases(1_500_000), nego, check_nego),
            exhaustive(
                "suite_table",
                || (0u8..9).collect::<Vec<_>>(),
                |i: &u8, cx| {
                    cx.nontrivial(true);
                    let all = rows();
                    let r = &all[*i as usize];
                    check_eq!(r.lib.suite().get_u16(), r.code, "code of {}", r.name);
                    check_eq!(r.lib.suite().as_str(), Some(r.name));
                    check_eq!(r.lib.hash_algorithm(), &r.hash, "hash of {}", r.name);
                    check_eq!(r.lib.hash_algorithm().output_len(), if r.hash == SuiteHash::SHA384 { 48 } else { 32 });
                    check_eq!(r.lib.version().version.get_u16(), if r.auth == Auth::Any { 0x0304 } else { 0x0303 });
                    match r.lib {
                        SupportedCipherSuite::Tls12(s) => {
                            check_eq!(s.common.aead_algorithm, &r.aead, "cipher of {}", r.name);
                            check_eq!((s.fixed_iv_len, s.explicit_nonce_len), (r.iv, r.nonce), "nonce layout of {}", r.name);
                            check!(matches!(s.kx, KeyExchangeAlgorithm::ECDHE), "key exchange of {}", r.name);
                            check!(r.lib.tls13().is_none());
                            let got: Vec<u16> = s.sign.iter().map(|x| x.get_u16()).collect();
                            check_eq!(got, if r.auth == Auth::Rsa { RSA_SCHEMES.to_vec() } else { ECDSA_SCHEMES.to_vec() });
                        }
                        SupportedCipherSuite::Tls13(s) => {
                            check_eq!(s.common.aead_algorithm, &r.aead, "cipher of {}", r.name);
                            check!(r.lib.tls13().is_some());
                            for o in &all {
                                if let SupportedCipherSuite::Tls13(p) = o.lib {
                                    let got = s.can_resume_from(p);
                                    check_eq!(got.is_some(), r.hash == o.hash, "{} resuming from {}", r.name, o.name);
                                    check!(got.is_none_or(|g| g == p), "resumption names another suite");
                                }
                            }
                        }
                    }
                    for o in &all {
                        check_eq!(r.lib == o.lib, r.code == o.code, "equality of {} and {}", r.name, o.name);
                    }
                    // The suites and versions offered: the ones the MPC can do.
                    let offered: Vec<u16> = suites::ALL_CIPHER_SUITES.iter().map(|s| s.suite().get_u16()).collect();
                    check_eq!(offered, vec![0xc02b, 0xc02f], "suites offered");
                    let offered: Vec<u16> = suites::DEFAULT_CIPHER_SUITES.iter().map(|s| s.suite().get_u16()).collect();
                    check_eq!(offered, vec![0xc02b, 0xc02f], "suites offered by default");
                    let v: Vec<u16> = ALL_VERSIONS.iter().map(|v| v.version.get_u16()).collect();
                    check_eq!(v, vec![0x0303], "versions offered");
                    Ok(())
                },
            ),
            law(
                "key_exchange_parameters",
                cases(60_000),
                || (bytes(0..90), any::<u8>(), any::<u16>(), prop_oneof![4 => Just(0u8), 1 => 1u8..5], any::<bool>()),
                |(key, typ, group, extra, named): &(Bytes, u8, u16, u8, bool), cx| {
                    // struct { ECParameters; opaque point<1..2^8-1>; } with nothing after it.
                    let typ = if *named { 3 } else { *typ };
                    let mut w = vec![typ];
                    w.extend(group.to_be_bytes());
                    w.push(key.len() as u8);
                    w.extend(&key.0);
                    w.extend(vec![0u8; *extra as usize]);
                    let ok = typ == 3 && *extra == 0;
                    cx.nontrivial(ok);
                    match tls12::decode_ecdh_params::<ServerECDHParams>(&w) {
                        Some(p) => {
                            check!(ok, "parameters with curve type {typ} and {extra} more bytes accepted");
                            check_eq!(p.curve_params.named_group.get_u16(), *group);
                            check_eq!(p.public.0, key.0);
                            let mut again = vec![];
                            p.encode(&mut again);
                            check_eq!(again, w, "parameters as covered by the signature");
                            let made = ServerECDHParams::new(NamedGroup::from(*group), &key.0);
                            check_eq!(made.get_encoding(), w, "parameters built from key and group");
                        }
                        None => check!(!ok, "legal parameters refused"),
                    }
                    let c = tls12::decode_ecdh_params::<ClientECDHParams>(&w[3..]);
                    check_eq!(c.map(|p| p.public.0), (*extra == 0).then(|| key.0.clone()), "client's key");
                    Ok(())
                },
            ),
            law("joined_randoms", cases(2_000), || (any::<[u8; 32]>(), any::<[u8; 32]>()), |(a, b): &([u8; 32], [u8; 32]), cx| {
                cx.nontrivial(true);
                check_eq!(tls12::join_randoms(a, b).to_vec(), [&a[..], &b[..]].concat());
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C11

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Evidence {
    certs: Vec<Bytes>,
    ocsp: Bytes,
    scts: Option<Vec<Bytes>>,
    params: Bytes,
    scheme: u16,
    sig: Bytes,
    cr: [u8; 32],
    sr: [u8; 32],
    group: u16,
    key: Bytes,
    version: u16,
    suite: u16,
    ctype: u8,
}

fn evidence() -> impl Strategy<Value = Evidence> {
    (
        (many(sized_bytes(300), 0..4, 30), sized_bytes(300), option::of(many(sized_bytes(80), 0..4, 30)), sized_bytes(300), scheme_code(), sized_bytes(300)),
        (any::<[u8; 32]>(), any::<[u8; 32]>(), hs_spec::code16(), sized_bytes(140), hs_spec::code16(), hs_spec::code16(), any::<u8>()),
    )
        .prop_map(|((certs, ocsp, scts, params, scheme, sig), (cr, sr, group, key, version, suite, ctype))| Evidence {
            certs,
            ocsp,
            scts,
            params,
            scheme,
            sig,
            cr,
            sr,
            group,
            key,
            version,
            suite,
            ctype,
        })
}

/// Stores and reloads in the two formats used (self-describing and positional).
fn through<T: Serialize + DeserializeOwned>(x: &T, what: &str) -> Result<Vec<T>, vpt::Failure> {
    let j = serde_json::to_vec(x).map_err(|e| format!("{what}: {e}"))?;
    let b = bincode::serialize(x).map_err(|e| format!("{what}: {e}"))?;
    let jv = serde_json::from_slice(&j).map_err(|e| format!("{what} from JSON: {e}"))?;
    let bv = bincode::deserialize(&b).map_err(|e| format!("{what} from bincode: {e}"))?;
    // Damaged storage must be refused or give something else, never crash.
    for cut in [0, b.len() / 2, b.len().saturating_sub(1)] {
        if cut < b.len() {
            check!(bincode::deserialize::<T>(&b[..cut]).is_err(), "{what} cut to {cut} of {} bytes accepted", b.len());
        }
    }
    Ok(vec![jv, bv])
}

fn check_evidence(e: &Evidence, cx: &mut Cx) -> CaseResult {
    cx.nontrivial(!e.certs.is_empty());
    cx.label(match &e.scts {
        None => "no timestamps",
        Some(v) if v.is_empty() => "empty timestamps",
        _ => "timestamps",
    });
    let certs: Vec<Certificate> = e.certs.iter().map(|c| Certificate(c.0.clone())).collect();
    let scts: Option<Vec<PayloadU16>> = e.scts.as_ref().map(|v| v.iter().map(|s| PayloadU16::new(s.0.clone())).collect());
    let scd = ServerCertDetails::new(certs.clone(), e.ocsp.0.clone(), scts.clone());
    let same_scd = |x: &ServerCertDetails| -> CaseResult {
        check_eq!(x.cert_chain(), &certs[..], "chain");
        check_eq!(x.ocsp_response(), &e.ocsp.0[..], "OCSP response");
        check_eq!(x.scts(), scts.as_ref(), "timestamps");
        Ok(())
    };
    let kx = ServerKxDetails::new(e.params.0.clone(), DigitallySignedStruct::new(SignatureScheme::from(e.scheme), e.sig.0.clone()));
    let same_kx = |x: &ServerKxDetails| -> CaseResult {
        check_eq!(x.kx_params(), &e.params.0[..], "parameters");
        check_eq!(x.kx_sig().scheme.get_u16(), e.scheme, "scheme");
        check_eq!(x.kx_sig().sig.0, e.sig.0, "signature");
        Ok(())
    };
    let hd = HandshakeData::new(scd.clone(), kx.clone(), Random(e.cr), Random(e.sr));
    let same_hd = |x: &HandshakeData| -> CaseResult {
        same_scd(x.server_cert_details())?;
        same_kx(x.server_kx_details())?;
        check_eq!(x.client_random().0, e.cr, "client random");
        check_eq!(x.server_random().0, e.sr, "server random");
        Ok(())
    };
    same_scd(&scd)?;
    same_kx(&kx)?;
    same_hd(&hd)?;
    for x in through(&scd, "certificate details")? {
        same_scd(&x)?;
    }
    for x in through(&kx, "key exchange details")? {
        same_kx(&x)?;
    }
    for x in through(&hd, "handshake data")? {
        same_hd(&x)?;
    }
    let pk = PublicKey::new(NamedGroup::from(e.group), &e.key.0);
    for x in through(&pk, "public key")? {
        check_eq!(x.group.get_u16(), e.group, "group");
        check_eq!(x.key, e.key.0, "key");
    }
    let share: KeyShareEntry = pk.clone().into();
    check_eq!((share.group.get_u16(), &share.payload.0), (e.group, &e.key.0), "key share made of a key");
    check_eq!(PublicKey::from(share), pk, "key made of a key share");
    for c in &certs {
        for x in through(c, "certificate")? {
            check_eq!(&x, c);
        }
    }
    macro_rules! code {
        ($t:ty, $v:expr, $get:ident) => {{
            let c = <$t>::from($v);
            for x in through(&c, stringify!($t))? {
                check_eq!(x, c, "stored code point");
                check_eq!(x.$get(), $v, "stored code point");
            }
        }};
    }
    code!(ProtocolVersion, e.version, get_u16);
    code!(CipherSuite, e.suite, get_u16);
    code!(NamedGroup, e.group, get_u16);
    code!(SignatureScheme, e.scheme, get_u16);
    code!(ContentType, e.ctype, get_u8);
    code!(HandshakeType, e.ctype, get_u8);
    code!(AlertDescription, e.ctype, get_u8);
    Ok(())
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "A case is a set of handshake evidence (certificates, OCSP response, absent, empty or present timestamps, key exchange, randoms, key, code points). \
               Non-trivial: at least one certificate.",
        assumptions: &["Storage formats exercised: serde_json and bincode."],
        laws: vec![law("evidence_survives_storage", cases(400_000), evidence, check_evidence)],
    }
}

// ---------------------------------------------------------------- C12

use crate::names::*;

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "A case is a string: legal names, names at the length limits, labels with forbidden characters, addresses, arbitrary text. Non-trivial: the string is \
               a legal DNS name.",
        assumptions: &["The grammar of legal names is restated in the check; names made only of a final dot-terminated numeric label are left to the library."],
        laws: vec![
            law("parses_exactly_dns_names", cases(1_200_000), name_string, |s: &String, cx| {
                let legal = legal_dns(s.as_bytes());
                cx.nontrivial(legal);
                cx.label(if legal { "legal" } else { "illegal" });
                match ServerName::try_from(s.as_str()) {
                    Ok(n) => {
                        check!(legal, "{s:?} accepted");
                        let sni = n.for_sni().ok_or("a DNS name must be sent in the SNI")?;
                        let text: &str = sni.as_ref();
                        check_eq!(text, s.as_str(), "name for the SNI");
                        // Type, length, name.
                        let mut want = vec![1, s.len() as u8];
                        want.extend(s.as_bytes());
                        check_eq!(n.encode(), want, "encoding of the name");
                        // What is sent carries no trailing dot (RFC 6066).
                        let sent = s.strip_suffix('.').unwrap_or(s);
                        match ClientExtension::make_sni(sni) {
                            ClientExtension::ServerName(v) => {
                                check_eq!(v.len(), 1);
                                match &v[0].payload {
                                    ServerNamePayload::HostName((raw, d)) => {
                                        check_eq!(raw.0, sent.as_bytes(), "host name sent");
                                        let d: &str = d.as_ref();
                                        check_eq!(d, sent);
                                    }
                                    _ => fail!("not a host name"),
                                }
                                check_eq!(v.get_single_hostname().map(|d| { let s: &str = d.as_ref(); s.to_string() }), Some(sent.to_string()));
                            }
                            _ => fail!("not a server name extension"),
                        }
                        match n.clone().into_pki_server_name() {
                            rustls_pki_types::ServerName::DnsName(d) => {
                                let d: &str = d.as_ref();
                                check_eq!(d, s.as_str());
                            }
                            _ => fail!("not a DNS name"),
                        }
                        check_eq!(ServerName::try_from(s.as_str()).unwrap(), n);
                    }
                    Err(e) => {
                        check!(!legal, "{s:?} refused");
                        check_eq!(e.to_string(), "invalid dns name");
                    }
                }
                Ok(())
            }),
            law("encoding_is_unique", cases(60_000), || (hs_spec::hostname(), hs_spec::hostname(), any::<bool>()), |(a, b, same): &(String, String, bool), cx| {
                // Prefix-free: no name's encoding is the beginning of another's.
                let b = if *same { format!("{a}.{b}") } else { b.clone() };
                let (Ok(x), Ok(y)) = (ServerName::try_from(a.as_str()), ServerName::try_from(b.as_str())) else { return Ok(()) };
                cx.nontrivial(*a != b);
                let (ex, ey) = (x.encode(), y.encode());
                check_eq!(ex.starts_with(&ey) || ey.starts_with(&ex), a.eq_ignore_ascii_case(&b) && *a == b, "encodings of {a:?} and {b:?}");
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C14

fn table() -> HashMap<&'static str, Vec<(&'static str, u16)>> {
    let mut m: HashMap<&'static str, Vec<(&'static str, u16)>> = HashMap::new();
    for l in include_str!("codes.tsv").lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() == 3 {
            m.entry(f[0]).or_default().push((f[1], f[2].parse().unwrap()));
        }
    }
    m
}

fn codes<T, F, G, S>(name: &str, wide: bool, from: F, get: G, text: S, hi: u8) -> CaseResult
where
    T: Codec + PartialEq + std::fmt::Debug + Copy,
    F: Fn(u16) -> T,
    G: Fn(&T) -> u16,
    S: Fn(&T) -> Option<Option<&'static str>>,
{
    let tab = table();
    let names: HashMap<u16, &str> = tab[name].iter().map(|(n, c)| (*c, *n)).collect();
    let range: Vec<u16> = if wide { (0..=255u16).map(|lo| (hi as u16) << 8 | lo).collect() } else if hi == 0 { (0..=255).collect() } else { vec![] };
    for c in range {
        let wire: Vec<u8> = if wide { c.to_be_bytes().to_vec() } else { vec![c as u8] };
        let v = from(c);
        check_eq!(get(&v), c, "{name} made of {c:#x} says");
        check_eq!(v.get_encoding(), wire, "{name} {c:#x} on the wire");
        let mut rd = Reader::init(&wire);
        check_eq!(T::read(&mut rd), Some(v), "{name} {c:#x} read");
        check!(!rd.any_left());
        for n in 0..wire.len() {
            check!(T::read(&mut Reader::init(&wire[..n])).is_none(), "{name} read from {n} bytes");
        }
        let want = names.get(&c).copied();
        let shown = format!("{v:?}");
        match want {
            Some(n) => check_eq!(shown, n, "name of {name} {c:#x}"),
            None => check_eq!(shown, format!("Unknown({c})"), "name of {name} {c:#x}"),
        }
        if let Some(t) = text(&v) {
            check_eq!(t, want, "text of {name} {c:#x}");
        }
    }
    Ok(())
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "A case is one enumeration and 256 consecutive code points of it; all code points of all enumerations are covered. Non-trivial: every case.",
        assumptions: &["The table of names and code points was checked against the rustls 0.22/0.23 registries and the IANA values they restate."],
        laws: vec![exhaustive(
            "every_code_point",
            || {
                let mut v = vec![];
                let mut names: Vec<&str> = table().keys().copied().collect();
                names.sort();
                for n in names {
                    for hi in 0..=255u8 {
                        if hi == 0 || WIDE.contains(&n) {
                            v.push((n.to_string(), hi));
                        }
                    }
                }
                v
            },
            |(name, hi): &(String, u8), cx| {
                cx.nontrivial(true);
                macro_rules! w {
                    ($t:ident) => {
                        codes(name, true, |c| $t::from(c), |v| v.get_u16(), |v| Some(v.as_str()), *hi)
                    };
                }
                macro_rules! n {
                    ($t:ident) => {
                        codes(name, false, |c| $t::from(c as u8), |v| v.get_u8() as u16, |_| None, *hi)
                    };
                }
                match name.as_str() {
                    "ProtocolVersion" => w!(ProtocolVersion),
                    "CipherSuite" => w!(CipherSuite),
                    "ExtensionType" => w!(ExtensionType),
                    "NamedGroup" => w!(NamedGroup),
                    "SignatureScheme" => w!(SignatureScheme),
                    "HashAlgorithm" => n!(HashAlgorithm),
                    "SignatureAlgorithm" => n!(SignatureAlgorithm),
                    "ClientCertificateType" => n!(ClientCertificateType),
                    "Compression" => n!(Compression),
                    "ContentType" => n!(ContentType),
                    "HandshakeType" => n!(HandshakeType),
                    "AlertLevel" => n!(AlertLevel),
                    "AlertDescription" => n!(AlertDescription),
                    "HeartbeatMessageType" => n!(HeartbeatMessageType),
                    "ServerNameType" => n!(ServerNameType),
                    "NamedCurve" => w!(NamedCurve),
                    "ECPointFormat" => n!(ECPointFormat),
                    "HeartbeatMode" => n!(HeartbeatMode),
                    "ECCurveType" => n!(ECCurveType),
                    "PSKKeyExchangeMode" => n!(PSKKeyExchangeMode),
                    "KeyUpdateRequest" => n!(KeyUpdateRequest),
                    "CertificateStatusType" => n!(CertificateStatusType),
                    o => fail!("no such enumeration: {o}"),
                }
            },
        )],
    }
}

const WIDE: [&str; 6] = ["NamedCurve", "ProtocolVersion", "CipherSuite", "ExtensionType", "NamedGroup", "SignatureScheme"];

// ---------------------------------------------------------------- C15

fn der_len(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    let mut v = vec![0x80 | b.len() as u8];
    v.extend(b);
    v
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Aad {
    seq: u64,
    typ: u8,
    version: u16,
    len: u16,
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        rule: "A case is a byte string to wrap, a record header for additional data, a set of trust anchors, a scheme to decompose or an alert to build. \
               Non-trivial: every case.",
        assumptions: &["DER lengths from X.690, additional data from RFC 5246 6.2.3.3."],
        laws: vec![
            law(
                "der_wrapping",
                cases(3_000),
                || prop_oneof![3 => 0usize..400, 2 => vpt::gen::near(&[127, 128, 255, 256, 65535, 65536], 2, 70_000), 1 => 0usize..70_000],
                |n: &usize, cx| {
                    cx.nontrivial(true);
                    let body = vpt::gen::filler(*n as u64, *n);
                    let mut v = body.clone();
                    x509::wrap_in_asn1_len(&mut v);
                    let mut want = der_len(*n);
                    want.extend(&body);
                    check_eq!(v, want, "length prefix of {n} bytes");
                    let mut v = body.clone();
                    x509::wrap_in_sequence(&mut v);
                    want.insert(0, 0x30);
                    check_eq!(v, want, "sequence of {n} bytes");
                    Ok(())
                },
            ),
            law(
                "additional_data",
                cases(50_000),
                || {
                    (prop_oneof![any::<u64>(), 0u64..300], any::<u8>(), hs_spec::code16(), prop_oneof![any::<u16>(), select(vec![0u16, 255, 256, 16384, 18432])])
                        .prop_map(|(seq, typ, version, len)| Aad { seq, typ, version, len })
                },
                |c: &Aad, cx| {
                    cx.nontrivial(true);
                    let got = make_tls12_aad(c.seq, ContentType::from(c.typ), ProtocolVersion::from(c.version), c.len as usize);
                    let mut want = c.seq.to_be_bytes().to_vec();
                    want.push(c.typ);
                    want.extend(c.version.to_be_bytes());
                    want.extend(c.len.to_be_bytes());
                    check_eq!(got.to_vec(), want);
                    Ok(())
                },
            ),
            law("trust_anchor_names", cases(20_000), || many(sized_bytes(300), 0..5, 20), |names: &Vec<Bytes>, cx| {
                cx.nontrivial(true);
                let mut s = RootCertStore::empty();
                check!(s.is_empty() && s.is_empty() == (s.len() == 0), "a new store is not empty");
                for n in names {
                    s.roots.push(rustls_pki_types::TrustAnchor {
                        subject: n.0.clone().into(),
                        subject_public_key_info: vec![].into(),
                        name_constraints: None,
                    });
                }
                check_eq!(s.len(), names.len());
                check_eq!(s.is_empty(), names.is_empty());
                let want: Vec<Vec<u8>> = names.iter().map(|n| [&[0x30][..], &der_len(n.len()), &n.0].concat()).collect();
                let got: Vec<Vec<u8>> = s.subjects().iter().map(|x| x.0.clone()).collect();
                check_eq!(got, want, "subjects");
                Ok(())
            }),
            exhaustive("downgrade_marker", || vec![0u8, 1, 2, 3, 4, 5, 6, 7], |i: &u8, cx| {
                cx.nontrivial(true);
                check_eq!(tls12::DOWNGRADE_SENTINEL[*i as usize], b"DOWNGRD\x01"[*i as usize], "byte {i}");
                Ok(())
            }),
            exhaustive(
                "schemes_decompose",
                || vec![(1u8, 2u8, 0x0201u16), (1, 4, 0x0401), (1, 5, 0x0501), (1, 6, 0x0601), (3, 4, 0x0403), (3, 5, 0x0503), (3, 6, 0x0603)],
                |(alg, hash, code): &(u8, u8, u16), cx| {
                    cx.nontrivial(true);
                    let s = <SignatureScheme as DecomposedSignatureScheme>::make(SignatureAlgorithm::from(*alg), HashAlgorithm::from(*hash));
                    check_eq!(s.get_u16(), *code, "scheme of {alg} and {hash}");
                    check_eq!(s.sign().get_u8(), *alg, "algorithm of {s:?}");
                    Ok(())
                },
            ),
            law("built_messages", cases(20_000), || (any::<u8>(), any::<u8>(), bytes(0..70)), |(level, desc, hash): &(u8, u8, Bytes), cx| {
                cx.nontrivial(true);
                let plain = |m: Message| PlainMessage::from(m);
                let m = Message::build_alert(AlertLevel::from(*level), AlertDescription::from(*desc));
                for t in 0..=255u8 {
                    check!(!m.is_handshake_type(HandshakeType::from(t)));
                }
                let p = plain(m);
                check_eq!((p.typ.get_u8(), p.version.get_u16(), p.payload.0), (21, 0x0303, vec![*level, *desc]));
                let m = Message::build_key_update_notify();
                for t in 0..=255u8 {
                    check_eq!(m.is_handshake_type(HandshakeType::from(t)), t == 24, "type {t}");
                }
                let p = plain(m);
                check_eq!((p.typ.get_u8(), p.version.get_u16(), p.payload.0), (22, 0x0304, vec![24, 0, 0, 1, 0]));
                // The synthetic message standing for a first ClientHello (RFC 8446, 4.4.1).
                let mut want = vec![254, 0, 0, hash.len() as u8];
                want.extend(&hash.0);
                check_eq!(HandshakeMessagePayload::build_handshake_hash(&hash.0).get_encoding(), want);
                let m = Message { version: ProtocolVersion::TLSv1_2, payload: MessagePayload::Handshake(HandshakeMessagePayload::build_handshake_hash(&hash.0)) };
                check!(m.is_handshake_type(HandshakeType::MessageHash));
                Ok(())
            }),
            law(
                "server_key_exchange_in_context",
                cases(600_000),
                || (hs_spec::code16(), bytes(0..80), scheme_code(), bytes(0..90), any::<u8>(), prop_oneof![5 => Just(None), 2 => any::<u16>().prop_map(Some)], 0u8..3),
                |(group, key, scheme, sig, typ, cut, extra): &(u16, Bytes, u16, Bytes, u8, Option<u16>, u8), cx| {
                    cx.nontrivial(true);
                    let typ = if *typ < 200 { 3 } else { *typ };
                    let mut params = vec![typ];
                    params.extend(group.to_be_bytes());
                    params.push(key.len() as u8);
                    params.extend(&key.0);
                    let mut w = params.clone();
                    w.extend(scheme.to_be_bytes());
                    w.extend((sig.len() as u16).to_be_bytes());
                    w.extend(&sig.0);
                    let full = w.len();
                    if let Some(c) = cut {
                        w.truncate(*c as usize % (full + 1));
                    } else if *extra > 1 {
                        w.push(0);
                    }
                    let ok = w.len() == full && typ == 3;
                    let p = ServerKeyExchangePayload::Unknown(tls_core::msgs::base::Payload::new(w.clone()));
                    match p.unwrap_given_kxa(&KeyExchangeAlgorithm::ECDHE) {
                        Some(x) => {
                            check!(ok, "malformed key exchange accepted");
                            check_eq!(x.params.get_encoding(), params, "parameters as signed");
                            check_eq!(x.params.curve_params.named_group.get_u16(), *group);
                            check_eq!(x.params.public.0, key.0);
                            check_eq!((x.dss.scheme.get_u16(), &x.dss.sig.0), (*scheme, &sig.0));
                            check_eq!(ServerKeyExchangePayload::ECDHE(x).get_encoding(), w);
                        }
                        None => check!(!ok, "well-formed key exchange refused"),
                    }
                    for k in [KeyExchangeAlgorithm::BulkOnly, KeyExchangeAlgorithm::RSA, KeyExchangeAlgorithm::DHE, KeyExchangeAlgorithm::DH, KeyExchangeAlgorithm::ECDH] {
                        if let Some(_) = p.unwrap_given_kxa(&k) {
                            fail!("read as ECDHE although {k:?} was negotiated");
                        }
                    }
                    Ok(())
                },
            ),
        ],
    }
}
