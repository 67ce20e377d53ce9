//! C37 the TLS transcript, built from the bytes of a connection or from records.

use openssl::{
    pkey::PKey,
    symm::{decrypt_aead, Cipher},
};
use proptest::{collection::vec, option::weighted, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use tlsn_core::{
    connection::{CertBinding, CertBindingV1_2, DnsName, HandshakeData, KeyType, ServerEphemKey, ServerName, ServerSignature, SignatureAlgorithm, TlsVersion},
    transcript::{ContentType, Record, TlsTranscript},
    webpki::{CertificateDer, RootCertStore, ServerCertVerifier},
};
use vpt::{
    cases, catch, check, check_eq, fail,
    gen::{bytes, filler, Bytes},
    law, CaseResult, Check, Cx, Failure,
};

use crate::{sess::*, util::*, x509gen::*};

// ---------------------------------------------------------------- reference

pub fn hmac(key: &[u8], data: &[u8]) -> Vec<u8> {
    let k = PKey::hmac(key).unwrap();
    let mut s = openssl::sign::Signer::new(openssl::hash::MessageDigest::sha256(), &k).unwrap();
    s.update(data).unwrap();
    s.sign_to_vec().unwrap()
}

/// The TLS 1.2 PRF with SHA-256 (RFC 5246, section 5).
pub fn prf(secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let seed = [label, seed].concat();
    let mut a = seed.clone();
    let mut out = vec![];
    while out.len() < n {
        a = hmac(secret, &a);
        out.extend(hmac(secret, &[&a[..], &seed].concat()));
    }
    out.truncate(n);
    out
}

fn message(typ: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![typ];
    v.extend_from_slice(&(body.len() as u32).to_be_bytes()[1..]);
    v.extend_from_slice(body);
    v
}

fn vec8(b: &[u8]) -> Vec<u8> {
    [&[b.len() as u8][..], b].concat()
}

fn vec16(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u16).to_be_bytes()[..], b].concat()
}

fn vec24(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u32).to_be_bytes()[1..], b].concat()
}

fn record(typ: u8, ver: u16, body: &[u8]) -> Vec<u8> {
    let mut v = vec![typ];
    v.extend_from_slice(&ver.to_be_bytes());
    v.extend(vec16(body));
    v
}

fn algorithm(kind: Kind, scheme: u16) -> Option<SignatureAlgorithm> {
    use SignatureAlgorithm::*;
    Some(match (scheme, kind) {
        (0x0403, Kind::P256) => ECDSA_NISTP256_SHA256,
        (0x0503, Kind::P256) => ECDSA_NISTP256_SHA384,
        (0x0403, Kind::P384) => ECDSA_NISTP384_SHA256,
        (0x0503, Kind::P384) => ECDSA_NISTP384_SHA384,
        (0x0807, _) => ED25519,
        (0x0804, _) => RSA_PSS_2048_8192_SHA256_LEGACY_KEY,
        (0x0805, _) => RSA_PSS_2048_8192_SHA384_LEGACY_KEY,
        (0x0806, _) => RSA_PSS_2048_8192_SHA512_LEGACY_KEY,
        (0x0401, _) => RSA_PKCS1_2048_8192_SHA256,
        (0x0501, _) => RSA_PKCS1_2048_8192_SHA384,
        (0x0601, _) => RSA_PKCS1_2048_8192_SHA512,
        _ => return None,
    })
}

fn same_record(a: &Record, b: &Record) -> bool {
    (a.seq, a.typ, &a.plaintext, &a.explicit_nonce, &a.ciphertext, &a.tag) == (b.seq, b.typ, &b.plaintext, &b.explicit_nonce, &b.ciphertext, &b.tag)
}

fn show(r: &Record) -> String {
    format!("seq {} {:?} plaintext {:?} nonce {:?} ciphertext {} bytes tag {:?}", r.seq, r.typ, r.plaintext.as_ref().map(|p| p.len()), r.explicit_nonce, r.ciphertext.len(), r.tag)
}

// ---------------------------------------------------------------- law: session

fn session(s: &Sess, cx: &mut Cx) -> CaseResult {
    let r = run_session(s)?;
    let mut b = TlsTranscript::builder().time(s.seed).tls_sent(&r.c2s).tls_recv(&r.s2c);
    let plain = s.scheme % 4 != 0;
    if plain {
        b = b.app_sent(&r.sent[0]).app_recv(&r.sent[1]);
    }
    let got = b.build();
    if s.group != 1 {
        check!(got.is_err(), "a key exchange on another curve is taken for secp256r1");
        cx.label("other curve");
        return Ok(());
    }
    let t = got.map_err(|e| format!("genuine session refused: {e}"))?;
    cx.nontrivial(true);
    cx.label_if(s.tickets, "ticket issued");
    cx.label_if(s.client_auth == 2, "client certificate");
    check_eq!(t.time(), s.seed);
    check_eq!(t.version(), TlsVersion::V1_2);
    check_eq!(t.server_cert_chain().map(|c| c.iter().map(|c| c.0.clone()).collect::<Vec<_>>()), Some(r.pki.chain.clone()), "certificate chain");
    let sig = t.server_signature().ok_or("no signature")?.clone();
    let ok = pick_scheme(s.key, s.scheme, false);
    check_eq!(Some(sig.alg), algorithm(keys()[ok.key].kind, ok.scheme), "signature algorithm");
    #[allow(irrefutable_let_patterns)]
    let CertBinding::V1_2(bind) = t.certificate_binding() else { fail!("binding of another version") };
    // The handshake it names is the one that was signed.
    let data = HandshakeData { certs: r.pki.chain.iter().cloned().map(CertificateDer).collect(), sig, binding: t.certificate_binding().clone() };
    let verifier = ServerCertVerifier::new(&RootCertStore { roots: vec![CertificateDer(r.pki.root.clone())] }).map_err(|e| e.to_string())?;
    data.verify(&verifier, NOW, &bind.server_ephemeral_key, &ServerName::Dns(DnsName::try_from("a.test").unwrap())).map_err(|e| format!("handshake of a genuine session does not verify: {e}"))?;
    // Hashes: they lead to the secrets and verify data of the endpoints.
    let pms = r.kx.clone().ok_or("harness: no shared secret")?;
    let ms = prf(&pms, b"extended master secret", &t.session_hash().ok_or("no session hash")?, 48);
    check_eq!(ms, logged("CLIENT_RANDOM")?, "master secret derived from the session hash");
    let kb = prf(&ms, b"key expansion", &[&bind.server_random[..], &bind.client_random].concat(), 40);
    let mut app = [vec![], vec![]];
    let mut sf_vd = vec![];
    for d in 0..2 {
        let recs = if d == 0 { t.sent() } else { t.recv() };
        let (key, iv) = (&kb[16 * d..16 * d + 16], &kb[32 + 4 * d..36 + 4 * d]);
        let mut fin = vec![];
        for (i, rec) in recs.iter().enumerate() {
            check_eq!(rec.seq, i as u64, "sequence number");
            let typ = match rec.typ {
                ContentType::ChangeCipherSpec => 20,
                ContentType::Alert => 21,
                ContentType::Handshake => 22,
                ContentType::ApplicationData => 23,
                t => fail!("record of type {t:?}"),
            };
            let aad = [&rec.seq.to_be_bytes()[..], &[typ, 3, 3], &(rec.ciphertext.len() as u16).to_be_bytes()].concat();
            let nonce = [iv, &rec.explicit_nonce[..]].concat();
            check_eq!(nonce.len(), 12, "nonce length");
            let pt = decrypt_aead(Cipher::aes_128_gcm(), key, Some(&nonce), &aad, &rec.ciphertext, rec.tag.as_ref().ok_or("no tag")?).map_err(|_| Failure::from(format!("record {i} of direction {d} does not decrypt")))?;
            match rec.typ {
                ContentType::ApplicationData => {
                    if plain {
                        check_eq!(rec.plaintext.as_ref(), Some(&pt), "plaintext of record {i}");
                    } else {
                        check!(rec.plaintext.is_none(), "plaintext made up");
                    }
                    app[d].extend(pt);
                }
                ContentType::Handshake => {
                    check_eq!(i, 0, "place of the finished record");
                    fin = pt;
                }
                _ => {}
            }
        }
        check_eq!(&fin[..4], &[0x14, 0, 0, 12][..], "finished record");
        let vd: [u8; 12] = fin[4..].try_into().unwrap();
        if d == 0 {
            check_eq!(prf(&ms, b"client finished", &t.cf_hash().ok_or("no hash")?, 12), vd.to_vec(), "client verify data from the client finished hash");
            let sf = t.sf_hash(&vd).ok_or("no hash")?;
            sf_vd = prf(&ms, b"server finished", &sf, 12);
        } else {
            check_eq!(sf_vd, vd.to_vec(), "server verify data from the server finished hash");
        }
    }
    check_eq!(app, r.sent, "application data of the records");
    let tr = t.to_transcript();
    if plain {
        let tr = tr.map_err(|e| e.to_string())?;
        check_eq!((tr.sent(), tr.received()), (&r.sent[0][..], &r.sent[1][..]), "application data");
    } else {
        check_eq!(tr.is_ok(), app.iter().all(|d| d.is_empty()) && t.sent().iter().chain(t.recv()).all(|r| r.typ != ContentType::ApplicationData), "a transcript without plaintext");
    }
    Ok(())
}

// ---------------------------------------------------------------- law: wire

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Leaf {
    Key(u8),
    P521,
    Noise(Bytes),
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Defect {
    None,
    DropSent(u8),
    DropRecv(u8),
    /// The key exchange message comes before the hello.
    SwapFirst,
    NoCcs(bool),
    NothingAfterCcs(bool),
    FinishedType(bool, u8),
    FinishedShort(bool, u8),
    RecordShort(bool, u8, u8),
    /// The raw bytes end inside of a record.
    CutRaw(bool, u16),
    /// The handshake ends inside of a message.
    CutMessage(bool, u8),
    /// A warning alert before the change of ciphers.
    Alert(bool, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wire {
    seed: u32,
    server_version: u16,
    sid: [u8; 2],
    exts: bool,
    leaf: Leaf,
    chain: u8,
    scheme: u16,
    group: u16,
    point: u8,
    sig: u16,
    status: Option<u16>,
    request: Option<bool>,
    ticket: Option<u16>,
    frag: [Vec<u16>; 2],
    fin: [u16; 2],
    recs: [Vec<(u8, u16)>; 2],
    plain: [Option<i8>; 2],
    /// Which fields the caller gives: version, signature, chain, binding, sent, received records; not the raw bytes sent, received.
    given: u8,
    without: [bool; 2],
    defect: Defect,
}

fn wires() -> impl Strategy<Value = Wire> {
    let leaf = prop_oneof![8 => select(vec![0u8, 3, 6, 7, 9, 12, 13]).prop_map(Leaf::Key), 1 => Just(Leaf::P521), 1 => bytes(0..40).prop_map(Leaf::Noise), 1 => Just(Leaf::Empty)];
    let scheme = prop_oneof![12 => select(vec![0x0403u16, 0x0503, 0x0807, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601]), 1 => select(vec![0x0603u16, 0x0203, 0x0201, 0x0808, 0x0809]), 1 => any::<u16>()];
    let recs = || {
        let one = (prop_oneof![8 => Just(23u8), 1 => Just(21u8), 1 => Just(22u8)], prop_oneof![6 => 0u16..40, 1 => 0u16..600, 1 => 16300u16..16384]);
        vpt::gen::many(one, 0..5, 30)
    };
    let frag = || vec(prop_oneof![1 => 1u16..5, 3 => 5u16..200, 2 => 200u16..16384], 1..5);
    let defect = prop_oneof![
        14 => Just(Defect::None),
        2 => any::<u8>().prop_map(Defect::DropSent),
        3 => any::<u8>().prop_map(Defect::DropRecv),
        1 => Just(Defect::SwapFirst),
        1 => any::<bool>().prop_map(Defect::NoCcs),
        1 => any::<bool>().prop_map(Defect::NothingAfterCcs),
        1 => (any::<bool>(), select(vec![20u8, 21, 23])).prop_map(|(a, b)| Defect::FinishedType(a, b)),
        1 => (any::<bool>(), 1u8..24).prop_map(|(a, b)| Defect::FinishedShort(a, b)),
        1 => (any::<bool>(), any::<u8>(), 1u8..24).prop_map(|(a, b, c)| Defect::RecordShort(a, b, c)),
        1 => any::<(bool, u16)>().prop_map(|(a, b)| Defect::CutRaw(a, b)),
        1 => any::<(bool, u8)>().prop_map(|(a, b)| Defect::CutMessage(a, b)),
        2 => any::<(bool, u8)>().prop_map(|(a, b)| Defect::Alert(a, b)),
    ];
    let len = || prop_oneof![4 => 0u16..120, 1 => 0u16..5000];
    (
        (any::<u32>(), prop_oneof![20 => Just(0x0303u16), 1 => select(vec![0x0301u16, 0x0302, 0x0300])], [0u8..=32, 0u8..=32], any::<bool>()),
        (leaf, 0u8..4, scheme, prop_oneof![12 => Just(23u16), 1 => select(vec![24u16, 29, 25])], prop_oneof![4 => Just(65u8), 1 => any::<u8>()], len()),
        (weighted(0.2, len()), weighted(0.3, any::<bool>()), weighted(0.4, len())),
        ([frag(), frag()], [prop_oneof![4 => Just(16u16), 1 => 0u16..100], prop_oneof![4 => Just(16u16), 1 => 0u16..100]], [recs(), recs()]),
        ([weighted(0.8, prop_oneof![5 => Just(0i8), 1 => -20i8..20]), weighted(0.8, prop_oneof![5 => Just(0i8), 1 => -20i8..20])], prop_oneof![3 => Just(0u8), 1 => any::<u8>()], [proptest::bool::weighted(0.05), proptest::bool::weighted(0.05)]),
        defect,
    )
        .prop_map(|((seed, server_version, sid, exts), (leaf, chain, scheme, group, point, sig), (status, request, ticket), (frag, fin, recs), (plain, given, without), defect)| Wire {
            seed, server_version, sid, exts, leaf, chain, scheme, group, point, sig, status, request, ticket, frag, fin, recs, plain, given, without, defect,
        })
}

fn p521() -> &'static [u8] {
    static C: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        use openssl::{asn1::Asn1Time, bn::BigNum, ec::*, hash::MessageDigest, nid::Nid, x509::*};
        let g = EcGroup::from_curve_name(Nid::SECP521R1).unwrap();
        let k = PKey::from_ec_key(EcKey::generate(&g).unwrap()).unwrap();
        let mut b = X509Builder::new().unwrap();
        b.set_version(2).unwrap();
        b.set_serial_number(&BigNum::from_u32(7).unwrap().to_asn1_integer().unwrap()).unwrap();
        b.set_pubkey(&k).unwrap();
        b.set_not_before(&Asn1Time::from_unix(1_600_000_000).unwrap()).unwrap();
        b.set_not_after(&Asn1Time::from_unix(1_900_000_000).unwrap()).unwrap();
        b.sign(&k, MessageDigest::sha512()).unwrap();
        b.build().to_der().unwrap()
    })
}

fn leaf_der(key: u8) -> Vec<u8> {
    pki(key, 1).chain.remove(0)
}

fn cached_leaf(key: u8) -> Vec<u8> {
    thread_local!(static C: std::cell::RefCell<std::collections::HashMap<u8, Vec<u8>>> = Default::default());
    C.with(|c| c.borrow_mut().entry(key).or_insert_with(|| leaf_der(key)).clone())
}

/// Cuts a handshake stream into records, at most as long as the given sizes.
fn cut_records(stream: &[u8], frag: &[u16], alert: Option<u8>) -> Vec<(u8, u16, Vec<u8>)> {
    let mut out = vec![];
    let mut rest = stream;
    let mut i = 0;
    while !rest.is_empty() {
        let n = (frag[i % frag.len()] as usize).clamp(1, rest.len());
        out.push((22, if i == 0 { 0x0301 } else { 0x0303 }, rest[..n].to_vec()));
        rest = &rest[n..];
        i += 1;
    }
    if let Some(a) = alert {
        out.insert(a as usize % (out.len() + 1), (21, 0x0303, vec![1, a]));
    }
    out
}

fn wire(w: &Wire, cx: &mut Cx) -> CaseResult {
    let f = |k: u64, n: usize| filler((w.seed as u64) << 8 | k, n);
    let rnd = |k: u64| -> [u8; 32] { f(k, 32).try_into().unwrap() };
    let (cr, sr) = (rnd(1), rnd(2));
    // Messages.
    let mut ch = vec![3, 3];
    ch.extend(cr);
    ch.extend(vec8(&f(3, w.sid[0] as usize)));
    ch.extend(vec16(&[0xc0, 0x2f, 0xc0, 0x2b]));
    ch.extend(vec8(&[0]));
    ch.extend(vec16(&if w.exts { [vec![0, 23, 0, 0], vec![0xab, 0xcd], vec16(&f(4, w.sid[1] as usize))].concat() } else { vec![0, 23, 0, 0] }));
    let mut sh = w.server_version.to_be_bytes().to_vec();
    sh.extend(sr);
    sh.extend(vec8(&f(5, w.sid[1] as usize)));
    sh.extend([0xc0, 0x2f, 0]);
    sh.extend(vec16(&if w.exts { vec![0, 23, 0, 0] } else { vec![] }));
    let mut certs: Vec<Vec<u8>> = match &w.leaf {
        Leaf::Key(k) => vec![cached_leaf(*k)],
        Leaf::P521 => vec![p521().to_vec()],
        Leaf::Noise(b) => vec![b.0.clone()],
        Leaf::Empty => vec![],
    };
    if !certs.is_empty() {
        for i in 0..w.chain {
            certs.push(f(40 + i as u64, 1 + w.sig as usize % 700));
        }
    }
    let list = |c: &[Vec<u8>]| vec24(&c.iter().flat_map(|c| vec24(c)).collect::<Vec<_>>());
    let point = f(6, w.point as usize);
    let sig = f(7, w.sig as usize);
    let ske = [vec![3], w.group.to_be_bytes().to_vec(), vec8(&point), w.scheme.to_be_bytes().to_vec(), vec16(&sig)].concat();
    let mut recv: Vec<(u8, Vec<u8>)> = vec![(2, sh), (11, list(&certs))];
    if let Some(n) = w.status {
        recv.push((22, [vec![1], vec24(&f(8, n as usize))].concat()));
    }
    recv.push((12, ske));
    if w.request.is_some() {
        recv.push((13, [vec8(&[1, 64]), vec16(&[4, 3, 8, 4]), vec16(&[])].concat()));
    }
    recv.push((14, vec![]));
    if let Some(n) = w.ticket {
        recv.push((4, [vec![0, 0, 0x1c, 0x20], vec16(&f(9, n as usize))].concat()));
    }
    let mut sent: Vec<(u8, Vec<u8>)> = vec![(1, ch)];
    if let Some(c) = w.request {
        sent.push((11, list(&if c { vec![f(10, 50)] } else { vec![] })));
    }
    sent.push((16, vec8(&f(11, 65))));
    if w.request == Some(true) {
        sent.push((15, [vec![4, 3], vec16(&f(12, 70))].concat()));
    }
    match &w.defect {
        Defect::DropSent(k) => {
            sent.remove(*k as usize % sent.len());
        }
        Defect::DropRecv(k) => {
            recv.remove(*k as usize % recv.len());
        }
        Defect::SwapFirst => {
            let k = sent.iter().position(|m| m.0 == 16).unwrap();
            sent.swap(0, k);
        }
        _ => {}
    }
    let bytes_of = |m: &[(u8, Vec<u8>)]| m.iter().flat_map(|(t, b)| message(*t, b)).collect::<Vec<u8>>();
    let msgs = [sent, recv];
    // Records.
    let mut raw = [vec![], vec![]];
    let mut tail: [Vec<(u8, Vec<u8>)>; 2] = [vec![], vec![]];
    for d in 0..2 {
        let me = d == 1;
        let mut hs = bytes_of(&msgs[d]);
        if let Defect::CutMessage(x, k) = &w.defect {
            if *x == me {
                let last = msgs[d].last().map_or(0, |m| m.1.len() + 4);
                hs.truncate(hs.len() - (1 + *k as usize % (last - 1)));
            }
        }
        let alert = match &w.defect {
            Defect::Alert(x, a) if *x == me => Some(*a),
            _ => None,
        };
        let mut ends = vec![];
        for (t, v, b) in cut_records(&hs, &w.frag[d], alert) {
            raw[d].extend(record(t, v, &b));
            ends.push(raw[d].len());
        }
        if !matches!(&w.defect, Defect::NoCcs(x) if *x == me) {
            raw[d].extend(record(20, 0x0303, &[1]));
            ends.push(raw[d].len());
        }
        let mut t: Vec<(u8, Vec<u8>)> = vec![(22, f(20 + d as u64, 24 + w.fin[d] as usize))];
        for (i, (ty, n)) in w.recs[d].iter().enumerate() {
            t.push((*ty, f(100 + 2 * i as u64 + d as u64, 24 + *n as usize)));
        }
        match &w.defect {
            Defect::NothingAfterCcs(x) if *x == me => t.clear(),
            Defect::FinishedType(x, ty) if *x == me => t[0].0 = *ty,
            Defect::FinishedShort(x, n) if *x == me => t[0].1.truncate(*n as usize),
            Defect::RecordShort(x, k, n) if *x == me && t.len() > 1 => {
                let k = 1 + *k as usize % (t.len() - 1);
                t[k].1.truncate(*n as usize);
            }
            _ => {}
        }
        for (ty, b) in &t {
            raw[d].extend(record(*ty, 0x0303, b));
            ends.push(raw[d].len());
        }
        if let Defect::CutRaw(x, k) = &w.defect {
            if *x == me {
                let mut at = *k as usize % raw[d].len();
                while at == 0 || ends.contains(&at) {
                    at += 1;
                }
                raw[d].truncate(at);
            }
        }
        tail[d] = t;
    }
    let mut app = [vec![], vec![]];
    for d in 0..2 {
        let n: usize = tail[d].iter().skip(1).filter(|r| r.0 == 23).map(|r| r.1.len().saturating_sub(24)).sum();
        app[d] = f(30 + d as u64, (n as i64 + w.plain[d].unwrap_or(0) as i64).max(0) as usize);
    }
    // What the caller gives.
    let bit = |k: u8| w.given >> k & 1 == 1;
    let gsig = ServerSignature { alg: SignatureAlgorithm::ED25519, sig: f(60, 64) };
    let gchain = vec![f(61, 30), f(62, 20)];
    let gbind = CertBindingV1_2 { client_random: rnd(63), server_random: rnd(64), server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: f(65, 65) } };
    let grec = |d: u64| -> Vec<Record> {
        (0..3u64)
            .map(|i| Record { seq: i * (1 + d), typ: if i == 0 { ContentType::Handshake } else { ContentType::ApplicationData }, plaintext: (i > 0).then(|| f(70 + i + 8 * d, 9)), explicit_nonce: f(80 + i, 8), ciphertext: f(90 + i, 9), tag: None })
            .collect()
    };
    let mut b = TlsTranscript::builder().time(w.seed as u64);
    if bit(0) {
        b = b.version(TlsVersion::V1_3);
    }
    if bit(1) {
        b = b.server_signature(gsig.clone());
    }
    if bit(2) {
        b = b.server_cert_chain(gchain.iter().cloned().map(CertificateDer).collect());
    }
    if bit(3) {
        b = b.certificate_binding(CertBinding::V1_2(gbind.clone()));
    }
    if bit(4) {
        b = b.records_sent(grec(0));
    }
    if bit(5) {
        b = b.records_recv(grec(1));
    }
    if !w.without[0] {
        b = b.tls_sent(&raw[0]);
    }
    if !w.without[1] {
        b = b.tls_recv(&raw[1]);
    }
    if w.plain[0].is_some() {
        b = b.app_sent(&app[0]);
    }
    if w.plain[1].is_some() {
        b = b.app_recv(&app[1]);
    }
    let got = catch(|| b.build().map_err(|e| e.to_string()));
    let got = match got {
        Err(p) => fail!("building panics: {p}"),
        Ok(g) => g,
    };
    // What must come of it.
    let mut why: Vec<&str> = vec![];
    let mut unclear = false;
    let both = !w.without[0] && !w.without[1];
    let find = |d: usize, t: u8| msgs[d].iter().position(|m| m.0 == t);
    let touched = |x: bool| !w.without[x as usize];
    match &w.defect {
        Defect::CutRaw(x, _) if touched(*x) => why.push("raw bytes cut"),
        Defect::CutMessage(x, _) if touched(*x) && both => why.push("message cut"),
        Defect::NoCcs(x) if touched(*x) => {
            if bit(4 + *x as u8) {
                unclear = true;
            } else {
                why.push("no change of ciphers");
            }
        }
        Defect::NothingAfterCcs(x) | Defect::FinishedType(x, _) | Defect::FinishedShort(x, _) if touched(*x) && !bit(4 + *x as u8) => why.push("no finished record"),
        Defect::RecordShort(x, ..) if touched(*x) && !bit(4 + *x as u8) && tail[*x as usize].len() > 1 => why.push("record too short"),
        _ => {}
    }
    let kind = match &w.leaf {
        Leaf::Key(k) => Some(keys()[*k as usize].kind),
        _ => None,
    };
    let alg = match (w.scheme, kind) {
        (0x0403 | 0x0503, None | Some(Kind::Ed | Kind::Rsa | Kind::RsaSmall)) => None,
        (s, k) => algorithm(k.unwrap_or(Kind::Rsa), s),
    };
    if both {
        if find(0, 1) != Some(0) || find(0, 16).is_none() {
            why.push("client message missing");
        }
        if [2u8, 11, 12, 14].iter().any(|t| find(1, *t).is_none()) {
            why.push("server message missing");
        }
        if w.server_version != 0x0303 {
            why.push("version");
        }
        if w.group != 23 {
            why.push("group");
        }
        if alg.is_none() {
            why.push("signature scheme");
        }
    } else {
        if !bit(0) || !bit(3) {
            why.push("handshake unknown");
        }
        for d in 0..2 {
            if w.without[d] && !bit(4 + d as u8) {
                why.push("records unknown");
            }
        }
    }
    for d in 0..2 {
        if !w.without[d] && !bit(4 + d as u8) && w.plain[d].is_some_and(|p| p < 0) && tail[d].iter().skip(1).any(|r| r.0 == 23 && r.1.len() > 24) {
            why.push("plaintext missing");
        }
    }
    cx.nontrivial(true);
    if unclear {
        return Ok(());
    }
    cx.label(*why.first().unwrap_or(&"accepted"));
    let t = match got {
        Err(e) => {
            check!(!why.is_empty(), "refused a complete transcript: {e}");
            return Ok(());
        }
        Ok(t) => {
            check!(why.is_empty(), "accepted although: {why:?}");
            t
        }
    };
    check_eq!(t.time(), w.seed as u64);
    check_eq!(t.version(), if bit(0) { TlsVersion::V1_3 } else { TlsVersion::V1_2 });
    let chain = if bit(2) { Some(gchain) } else { both.then_some(certs) };
    check_eq!(t.server_cert_chain().map(|c| c.iter().map(|c| c.0.clone()).collect::<Vec<_>>()), chain, "chain");
    let sig = if bit(1) { Some((gsig.alg, gsig.sig)) } else { both.then(|| (alg.unwrap(), sig)) };
    check_eq!(t.server_signature().map(|s| (s.alg, s.sig.clone())), sig, "signature");
    #[allow(irrefutable_let_patterns)]
    let CertBinding::V1_2(bind) = t.certificate_binding() else { fail!("binding of another version") };
    let want = if bit(3) { gbind } else { CertBindingV1_2 { client_random: cr, server_random: sr, server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: point } } };
    check_eq!((bind.client_random, bind.server_random, &bind.server_ephemeral_key), (want.client_random, want.server_random, &want.server_ephemeral_key), "binding");
    // Hashes by their definition: messages in the order in which they were exchanged.
    if both {
        let shd = find(1, 14).unwrap();
        let ckx = find(0, 16).unwrap();
        let (s, r) = (&msgs[0], &msgs[1]);
        let upto_shd = [bytes_of(&s[..1]), bytes_of(&r[..=shd])].concat();
        let session = [upto_shd.clone(), bytes_of(&s[1..=ckx])].concat();
        check_eq!(t.session_hash().map(|h| h.to_vec()), Some(sha256(&session)), "session hash (with a ticket: {})", w.ticket.is_some());
        let cf = [upto_shd, bytes_of(&s[1..])].concat();
        check_eq!(t.cf_hash().map(|h| h.to_vec()), Some(sha256(&cf)), "client finished hash");
        let vd: [u8; 12] = f(50, 12).try_into().unwrap();
        let sf = [cf, message(20, &vd), bytes_of(&r[shd + 1..])].concat();
        check_eq!(t.sf_hash(&vd).map(|h| h.to_vec()), Some(sha256(&sf)), "server finished hash");
    } else {
        check!(t.session_hash().is_none() && t.cf_hash().is_none() && t.sf_hash(&[0; 12]).is_none(), "hashes of an unknown handshake");
    }
    // Records.
    for d in 0..2 {
        let got = if d == 0 { t.sent() } else { t.recv() };
        let want: Vec<Record> = if bit(4 + d as u8) {
            grec(d as u64)
        } else {
            let mut at = 0;
            tail[d]
                .iter()
                .enumerate()
                .map(|(i, (ty, b))| {
                    let n = b.len() - 24;
                    let mut plaintext = None;
                    if i > 0 && *ty == 23 && w.plain[d].is_some() {
                        plaintext = Some(app[d][at..at + n].to_vec());
                        at += n;
                    }
                    let typ = match ty {
                        21 => ContentType::Alert,
                        22 => ContentType::Handshake,
                        _ => ContentType::ApplicationData,
                    };
                    Record { seq: i as u64, typ, plaintext, explicit_nonce: b[..8].to_vec(), ciphertext: b[8..8 + n].to_vec(), tag: Some(b[8 + n..].to_vec()) }
                })
                .collect()
        };
        check_eq!(got.len(), want.len(), "records of direction {d}");
        for (g, w) in got.iter().zip(&want) {
            check!(same_record(g, w), "record of direction {d}: {} instead of {}", show(g), show(w));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- law: records

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plain {
    None,
    Finished(u8),
    Other(u8),
    Cut(u8),
    Data(Bytes),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Given {
    recs: [Vec<(u64, u8, Plain)>; 2],
    missing: u8,
}

fn givens() -> impl Strategy<Value = Given> {
    let first = (prop_oneof![12 => Just(0u64), 1 => any::<u64>()], prop_oneof![12 => Just(22u8), 1 => Just(23u8), 1 => any::<u8>()], prop_oneof![
        4 => Just(Plain::None), 8 => prop_oneof![6 => Just(12u8), 1 => any::<u8>()].prop_map(Plain::Finished), 1 => any::<u8>().prop_map(Plain::Other), 1 => any::<u8>().prop_map(Plain::Cut),
    ]);
    let rest = || {
        let one = (prop_oneof![10 => Just(1u64), 3 => 1u64..9, 1 => Just(0u64)], prop_oneof![6 => Just(23u8), 1 => Just(21u8), 1 => any::<u8>()], prop_oneof![10 => bytes(0..30).prop_map(Plain::Data), 1 => Just(Plain::None)]);
        vpt::gen::many(one, 0..6, 40)
    };
    let side = |f: BoxedStrategy<(u64, u8, Plain)>| {
        (f, rest(), any::<u16>()).prop_map(|(f, r, back)| {
            let mut at = f.0;
            let mut v = vec![f];
            for (step, t, p) in r {
                at = at.wrapping_add(step);
                // Now and then a step back.
                if back < 800 && v.len() == 2 {
                    at = at.saturating_sub(back as u64 % 5);
                }
                v.push((at, t, p));
            }
            v
        })
    };
    let first = first.boxed();
    ([side(first.clone()), side(first)], prop_oneof![8 => Just(255u8), 1 => 0u8..5], 0u8..40).prop_map(|(mut recs, missing, none)| {
        if none < 2 {
            recs[none as usize].clear();
        }
        Given { recs, missing }
    })
}

fn ctype(t: u8) -> ContentType {
    match t {
        20 => ContentType::ChangeCipherSpec,
        21 => ContentType::Alert,
        22 => ContentType::Handshake,
        23 => ContentType::ApplicationData,
        24 => ContentType::Heartbeat,
        x => ContentType::Unknown(x),
    }
}

fn given(g: &Given, cx: &mut Cx) -> CaseResult {
    let mut ok = true;
    let mut recs: [Vec<Record>; 2] = [vec![], vec![]];
    for d in 0..2 {
        for (i, (seq, t, p)) in g.recs[d].iter().enumerate() {
            let plaintext = match p {
                Plain::None => None,
                Plain::Finished(n) => Some(message(20, &filler(*seq + d as u64, *n as usize))),
                Plain::Other(n) => Some(message(14, &vec![0; *n as usize % 2])),
                Plain::Cut(n) => Some(message(20, &[7; 12])[..*n as usize % 16].to_vec()),
                Plain::Data(b) => Some(b.0.clone()),
            };
            if i == 0 {
                ok &= *seq == 0 && *t == 22 && matches!(p, Plain::None | Plain::Finished(_));
            } else {
                ok &= *seq > g.recs[d][i - 1].0;
            }
            recs[d].push(Record { seq: *seq, typ: ctype(*t), plaintext, explicit_nonce: filler(*seq, 8), ciphertext: filler(*seq, 30), tag: (i % 3 > 0).then(|| vec![i as u8; 16]) });
        }
    }
    ok &= g.missing > 4 && recs.iter().all(|r| !r.is_empty());
    cx.label_if(recs.iter().any(|r| r.is_empty()), "no records in a direction");
    let mut b = TlsTranscript::builder();
    if g.missing != 0 {
        b = b.time(77);
    }
    if g.missing != 1 {
        b = b.version(TlsVersion::V1_2);
    }
    if g.missing != 2 {
        b = b.certificate_binding(CertBinding::V1_2(CertBindingV1_2 { client_random: [1; 32], server_random: [2; 32], server_ephemeral_key: ServerEphemKey { typ: KeyType::SECP256R1, key: vec![4; 65] } }));
    }
    if g.missing != 3 {
        b = b.records_sent(recs[0].clone());
    }
    if g.missing != 4 {
        b = b.records_recv(recs[1].clone());
    }
    let got = catch(|| b.build());
    cx.nontrivial(recs.iter().any(|r| r.len() > 1) || !ok);
    cx.label(if ok { "accepted" } else { "refused" });
    let t = match got {
        Err(p) => fail!("building panics: {p}"),
        Ok(Err(e)) => {
            check!(!ok, "valid records refused: {e}");
            return Ok(());
        }
        Ok(Ok(t)) => t,
    };
    check!(ok, "accepted {:?}", g.recs);
    check!(t.server_signature().is_none() && t.server_cert_chain().is_none() && t.session_hash().is_none() && t.cf_hash().is_none() && t.sf_hash(&[1; 12]).is_none(), "fields made up");
    let mut want = [vec![], vec![]];
    let mut complete = true;
    for d in 0..2 {
        let got = if d == 0 { t.sent() } else { t.recv() };
        check_eq!(got.len(), recs[d].len());
        for (a, b) in got.iter().zip(&recs[d]) {
            check!(same_record(a, b), "record changed: {} instead of {}", show(a), show(b));
            if b.typ == ContentType::ApplicationData {
                match &b.plaintext {
                    Some(p) => want[d].extend_from_slice(p),
                    None => complete = false,
                }
            }
        }
        let (fin, vd) = if d == 0 { (t.client_finished(), t.cf_vd()) } else { (t.server_finished(), t.sf_vd()) };
        check!(same_record(fin, &recs[d][0]), "finished record");
        check_eq!(vd, recs[d][0].plaintext.as_ref().map(|p| &p[4..]), "verify data");
    }
    let tr = t.to_transcript();
    check_eq!(tr.is_ok(), complete, "transcript of records");
    cx.label_if(!complete, "plaintext missing");
    if let Ok(tr) = tr {
        check_eq!((tr.sent(), tr.received()), (&want[0][..], &want[1][..]), "application data");
    }
    Ok(())
}

pub fn c37() -> Check {
    Check {
        id: "C37",
        rule: "sessions on secp256r1; every generated wire transcript; record lists with more than one record or a defect",
        assumptions: &["rustls 0.22 with OpenSSL key exchange is the reference for whole sessions", "SHA-256, HMAC and AES-GCM of OpenSSL"],
        laws: vec![
            law(
                "session",
                cases(12_000),
                || {
                    (sess(), prop_oneof![12 => Just(1u8), 1 => 0u8..3]).prop_map(|(mut s, g)| {
                        s.tls13 = false;
                        s.suite = 0;
                        s.group = g;
                        s
                    })
                },
                session,
            ),
            law("wire", cases(300_000), wires, wire),
            law("records", cases(450_000), givens, given),
        ],
    }
}
