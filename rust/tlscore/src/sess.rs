//! Whole TLS sessions between two rustls endpoints, recorded. Shared by the
//! checks of tls-core (C18) and of the TLS transcript (C37).
//!
//! The peer implementation (rustls 0.22 over ring) is independent of the code
//! under test. Its randomness (nonces, ephemeral keys) is drawn from the case's
//! seed, so that a case is reproducible up to ECDSA nonces.

use std::{
    cell::RefCell,
    io::{Read, Write},
    sync::Arc,
};

use openssl::{
    bn::{BigNum, BigNumContext},
    derive::Deriver,
    ec::{EcGroup, EcKey, EcPoint, PointConversionForm},
    nid::Nid,
    pkey::{Id, PKey, Private},
};
use proptest::{collection::vec, option::weighted, prelude::*, sample::select};
use rand_chacha::rand_core::{RngCore, SeedableRng};
use rustls::{
    client::danger::{HandshakeSignatureValid as HsOk, ServerCertVerified as ScOk, ServerCertVerifier as RlsVerifier},
    crypto::{self, ActiveKeyExchange, CryptoProvider, GetRandomFailed, SecureRandom, SharedSecret, SupportedKxGroup},
    pki_types::{CertificateDer, ServerName as RlsName, UnixTime},
    server::danger::{ClientCertVerified, ClientCertVerifier},
    sign::{CertifiedKey, Signer, SigningKey},
    ClientConfig, ClientConnection, ServerConfig, ServerConnection,
};
use serde::{Deserialize, Serialize};
use vpt::{
    check, check_eq,
    gen::{bytes, Bytes},
    Failure,
};

use crate::x509gen::*;

thread_local! {
    static RNG: RefCell<Option<rand_chacha::ChaCha20Rng>> = const { RefCell::new(None) };
    static SHARED: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
    static LOG: RefCell<Vec<(String, Vec<u8>, Vec<u8>)>> = const { RefCell::new(vec![]) };
}

fn draw(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    RNG.with(|r| r.borrow_mut().as_mut().expect("seeded").fill_bytes(&mut v));
    v
}

#[derive(Debug)]
struct Rng;
impl SecureRandom for Rng {
    fn fill(&self, buf: &mut [u8]) -> Result<(), GetRandomFailed> {
        buf.copy_from_slice(&draw(buf.len()));
        Ok(())
    }
}

#[derive(Debug)]
struct Kx(rustls::NamedGroup);
struct ActiveKx {
    group: rustls::NamedGroup,
    key: PKey<Private>,
    public: Vec<u8>,
}
fn nid(g: rustls::NamedGroup) -> Option<Nid> {
    match g {
        rustls::NamedGroup::secp256r1 => Some(Nid::X9_62_PRIME256V1),
        rustls::NamedGroup::secp384r1 => Some(Nid::SECP384R1),
        _ => None,
    }
}
impl SupportedKxGroup for Kx {
    fn start(&self) -> Result<Box<dyn ActiveKeyExchange>, rustls::Error> {
        let (key, public) = match nid(self.0) {
            None => {
                let k = PKey::private_key_from_raw_bytes(&draw(32), Id::X25519).unwrap();
                let p = k.raw_public_key().unwrap();
                (k, p)
            }
            Some(n) => {
                let g = EcGroup::from_curve_name(n).unwrap();
                let mut ctx = BigNumContext::new().unwrap();
                let mut d = draw(if n == Nid::SECP384R1 { 47 } else { 31 });
                d[0] |= 1;
                let d = BigNum::from_slice(&d).unwrap();
                let mut q = EcPoint::new(&g).unwrap();
                q.mul_generator2(&g, &d, &mut ctx).unwrap();
                let mut c = BigNumContext::new().unwrap();
                let p = q.to_bytes(&g, PointConversionForm::UNCOMPRESSED, &mut c).unwrap();
                (PKey::from_ec_key(EcKey::from_private_components(&g, &d, &q).unwrap()).unwrap(), p)
            }
        };
        Ok(Box::new(ActiveKx { group: self.0, key, public }))
    }
    fn name(&self) -> rustls::NamedGroup {
        self.0
    }
}
impl ActiveKeyExchange for ActiveKx {
    fn complete(self: Box<Self>, peer: &[u8]) -> Result<SharedSecret, rustls::Error> {
        let peer = match nid(self.group) {
            None => PKey::public_key_from_raw_bytes(peer, Id::X25519).unwrap(),
            Some(n) => {
                let g = EcGroup::from_curve_name(n).unwrap();
                let mut c = BigNumContext::new().unwrap();
                PKey::from_ec_key(EcKey::from_public_key(&g, &EcPoint::from_bytes(&g, peer, &mut c).unwrap()).unwrap()).unwrap()
            }
        };
        let mut d = Deriver::new(&self.key).unwrap();
        d.set_peer(&peer).unwrap();
        let s = d.derive_to_vec().unwrap();
        SHARED.with(|v| v.borrow_mut().push(s.clone()));
        Ok(SharedSecret::from(s.as_slice()))
    }
    fn pub_key(&self) -> &[u8] {
        &self.public
    }
    fn group(&self) -> rustls::NamedGroup {
        self.group
    }
}
static KX: [Kx; 3] = [Kx(rustls::NamedGroup::X25519), Kx(rustls::NamedGroup::secp256r1), Kx(rustls::NamedGroup::secp384r1)];

#[derive(Debug)]
struct Log;
impl rustls::KeyLog for Log {
    fn log(&self, label: &str, cr: &[u8], secret: &[u8]) {
        LOG.with(|l| l.borrow_mut().push((label.into(), cr.to_vec(), secret.to_vec())));
    }
}
pub fn logged(label: &str) -> Result<Vec<u8>, Failure> {
    LOG.with(|l| l.borrow().iter().find(|x| x.0 == label).map(|x| x.2.clone())).ok_or_else(|| format!("harness: {label} not logged").into())
}

#[derive(Debug, Clone, Copy)]
pub struct OsslKey {
    pub key: usize,
    pub scheme: u16,
    pub sig: Sig,
}
impl SigningKey for OsslKey {
    fn choose_scheme(&self, offered: &[rustls::SignatureScheme]) -> Option<Box<dyn Signer>> {
        offered.contains(&rustls::SignatureScheme::from(self.scheme)).then(|| Box::new(*self) as Box<dyn Signer>)
    }
    fn algorithm(&self) -> rustls::SignatureAlgorithm {
        match keys()[self.key].kind {
            Kind::P256 | Kind::P384 => rustls::SignatureAlgorithm::ECDSA,
            Kind::Ed => rustls::SignatureAlgorithm::ED25519,
            _ => rustls::SignatureAlgorithm::RSA,
        }
    }
}
impl Signer for OsslKey {
    fn sign(&self, m: &[u8]) -> Result<Vec<u8>, rustls::Error> {
        Ok(sign(self.key, self.sig, m).expect("fits"))
    }
    fn scheme(&self) -> rustls::SignatureScheme {
        rustls::SignatureScheme::from(self.scheme)
    }
}

pub const SCHEMES: &[u16] = &[0x0403, 0x0503, 0x0807, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601];
#[derive(Debug)]
struct Trusting;
impl Trusting {
    fn schemes() -> Vec<rustls::SignatureScheme> {
        SCHEMES.iter().map(|s| rustls::SignatureScheme::from(*s)).collect()
    }
}
impl RlsVerifier for Trusting {
    fn verify_server_cert(&self, _: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: &RlsName<'_>, _: &[u8], _: UnixTime) -> Result<ScOk, rustls::Error> {
        Ok(ScOk::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<HsOk, rustls::Error> {
        Ok(HsOk::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<HsOk, rustls::Error> {
        Ok(HsOk::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        Self::schemes()
    }
}
impl ClientCertVerifier for Trusting {
    fn root_hint_subjects(&self) -> &[rustls::DistinguishedName] {
        &[]
    }
    fn verify_client_cert(&self, _: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: UnixTime) -> Result<ClientCertVerified, rustls::Error> {
        Ok(ClientCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<HsOk, rustls::Error> {
        Ok(HsOk::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<HsOk, rustls::Error> {
        Ok(HsOk::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        Self::schemes()
    }
}

#[derive(Debug)]
struct Fixed(Arc<CertifiedKey>);
impl rustls::server::ResolvesServerCert for Fixed {
    fn resolve(&self, _: rustls::server::ClientHello<'_>) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
}
impl rustls::client::ResolvesClientCert for Fixed {
    fn resolve(&self, _: &[&[u8]], _: &[rustls::SignatureScheme]) -> Option<Arc<CertifiedKey>> {
        Some(self.0.clone())
    }
    fn has_certs(&self) -> bool {
        true
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Sess {
    pub seed: u64,
    pub tls13: bool,
    /// 0: AES-128-GCM, 1: ChaCha20-Poly1305, 2: AES-256-GCM (TLS 1.3 only).
    pub suite: u8,
    pub key: u8,
    pub scheme: u8,
    pub group: u8,
    /// The client offers another group first (hello retry in TLS 1.3).
    pub other_first: bool,
    pub chain: u8,
    pub name: Option<String>,
    pub alpn: Vec<Bytes>,
    pub alpn_pick: u8,
    pub ocsp: Option<Bytes>,
    /// 0: none; 1: requested, none sent; 2: requested and sent.
    pub client_auth: u8,
    pub client_key: u8,
    pub frag_c: Option<u16>,
    pub frag_s: Option<u16>,
    pub tickets: bool,
    pub app: Vec<(bool, Bytes)>,
    pub close: (bool, bool),
    pub chunks: Vec<u16>,
}

pub fn sess() -> impl Strategy<Value = Sess> {
    let frag = || weighted(0.4, prop_oneof![3 => 32u16..200, 2 => 200u16..2000, 1 => 16300u16..=16389]);
    let app = || prop_oneof![4 => bytes(0..60), 1 => bytes(60..3000), 1 => bytes(16380..17000)];
    (
        (any::<u64>(), any::<bool>(), 0u8..3, select(vec![0u8, 3, 6, 7, 9, 12, 13]), any::<u8>(), 0u8..3, any::<bool>(), 0u8..3),
        (weighted(0.8, select(vec!["a.test".to_string(), "www.a.test".into(), "xn--80ak6aa92e.example".into(), "a-b.c-d.e".into()])), vec(bytes(1..12), 0..3), any::<u8>()),
        (weighted(0.3, bytes(1..300)), 0u8..3, select(vec![1u8, 4, 8, 10, 14]), frag(), frag(), any::<bool>()),
        vec((any::<bool>(), app()), 0..6),
        (any::<bool>(), any::<bool>()),
        vec(prop_oneof![Just(1u16), 1u16..20, 20u16..600, 600u16..=20000], 1..6),
    )
        .prop_map(|((seed, tls13, suite, key, scheme, group, other_first, chain), (name, alpn, alpn_pick), (ocsp, client_auth, client_key, frag_c, frag_s, tickets), app, close, chunks)| Sess {
            seed, tls13, suite, key, scheme, group, other_first, chain, name, alpn, alpn_pick, ocsp, client_auth, client_key, frag_c, frag_s, tickets, app, close, chunks,
        })
}

pub fn pick_scheme(key: u8, n: u8, tls13: bool) -> OsslKey {
    use Hsh::*;
    let opts: Vec<(u16, Sig)> = match keys()[key as usize].kind {
        Kind::P256 if tls13 => vec![(0x0403, Sig::Ecdsa(Sha256))],
        Kind::P384 if tls13 => vec![(0x0503, Sig::Ecdsa(Sha384))],
        Kind::P256 | Kind::P384 => vec![(0x0403, Sig::Ecdsa(Sha256)), (0x0503, Sig::Ecdsa(Sha384))],
        Kind::Ed => vec![(0x0807, Sig::Ed)],
        _ => {
            let mut v = vec![(0x0804, Sig::Pss(Sha256)), (0x0805, Sig::Pss(Sha384)), (0x0806, Sig::Pss(Sha512))];
            if !tls13 {
                v.extend([(0x0401, Sig::Pkcs1(Sha256)), (0x0501, Sig::Pkcs1(Sha384)), (0x0601, Sig::Pkcs1(Sha512))]);
            }
            v
        }
    };
    let (scheme, sig) = opts[n as usize % opts.len()];
    OsslKey { key: key as usize, scheme, sig }
}

pub const NOW: u64 = 1_700_000_000;
pub struct Pki {
    pub root: Vec<u8>,
    pub chain: Vec<Vec<u8>>,
}
pub fn pki(key: u8, depth: u8) -> Pki {
    let rootk = 2u8;
    let ca = |subject, issuer, key, signer: u8| Cert {
        subject, issuer, key, signer, sig: Sig::Ecdsa(Hsh::Sha256), nb: 1_600_000_000, na: 1_900_000_000, bc: Some((true, None)), eku: None, sans: vec![], nc: None, unknown: None, tamper: None,
    };
    let root = ca(30, 30, rootk, rootk);
    let mut chain = vec![];
    let (mut issuer, mut signer) = (30u8, rootk);
    for i in 0..depth {
        let k = 4 + i;
        chain.insert(0, ca(20 + i, issuer, k, signer).der());
        (issuer, signer) = (20 + i, k);
    }
    let mut leaf = ca(10, issuer, key, signer);
    leaf.bc = None;
    leaf.sans = vec![San::Dns("a.test".into()), San::Dns("*.a.test".into())];
    chain.insert(0, leaf.der());
    Pki { root: root.der(), chain }
}

pub struct Recorded {
    pub c2s: Vec<u8>,
    pub s2c: Vec<u8>,
    pub pki: Pki,
    pub client_chain: Option<Vec<Vec<u8>>>,
    pub suite: u16,
    pub alpn: Option<Vec<u8>>,
    pub sent: [Vec<u8>; 2],
    pub kx: Option<Vec<u8>>,
}

pub fn run_session(s: &Sess) -> Result<Recorded, Failure> {
    use crypto::ring::cipher_suite as cs;
    RNG.with(|r| *r.borrow_mut() = Some(rand_chacha::ChaCha20Rng::seed_from_u64(s.seed)));
    SHARED.with(|v| v.borrow_mut().clear());
    LOG.with(|v| v.borrow_mut().clear());
    let ecdsa = s.key < 12;
    let suite = match (s.tls13, s.suite, ecdsa) {
        (true, 0, _) => cs::TLS13_AES_128_GCM_SHA256,
        (true, 1, _) => cs::TLS13_CHACHA20_POLY1305_SHA256,
        (true, _, _) => cs::TLS13_AES_256_GCM_SHA384,
        (false, 1, true) => cs::TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
        (false, 1, false) => cs::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
        (false, _, true) => cs::TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
        (false, _, false) => cs::TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
    };
    let g = &KX[s.group as usize];
    let other = &KX[(s.group as usize + 1) % 3];
    let provider = |groups: Vec<&'static dyn SupportedKxGroup>| {
        let mut p: CryptoProvider = crypto::ring::default_provider();
        p.cipher_suites = vec![suite];
        p.kx_groups = groups;
        p.secure_random = &Rng;
        Arc::new(p)
    };
    let versions: &[&'static rustls::SupportedProtocolVersion] = if s.tls13 { &[&rustls::version::TLS13] } else { &[&rustls::version::TLS12] };
    let pki = pki(s.key, s.chain);
    let ders = |v: &[Vec<u8>]| v.iter().map(|c| CertificateDer::from(c.clone())).collect::<Vec<_>>();
    let mut ck = CertifiedKey::new(ders(&pki.chain), Arc::new(pick_scheme(s.key, s.scheme, s.tls13)));
    ck.ocsp = s.ocsp.as_ref().map(|o| o.0.clone());
    let sb = ServerConfig::builder_with_provider(provider(vec![g])).with_protocol_versions(versions).map_err(|e| format!("harness: {e}"))?;
    let sb = if s.client_auth > 0 { sb.with_client_cert_verifier(Arc::new(OptionalAuth)) } else { sb.with_no_client_auth() };
    let mut sc = sb.with_cert_resolver(Arc::new(Fixed(Arc::new(ck))));
    sc.max_fragment_size = s.frag_s.map(|x| x as usize);
    sc.key_log = Arc::new(Log);
    let alpn: Vec<Vec<u8>> = s.alpn.iter().map(|a| a.0.clone()).collect();
    let chosen = (!alpn.is_empty()).then(|| alpn[s.alpn_pick as usize % alpn.len()].clone());
    sc.alpn_protocols = chosen.iter().cloned().collect();
    if s.tickets {
        sc.ticketer = Arc::new(Tickets);
    } else {
        sc.send_tls13_tickets = 0;
    }
    let cgroups: Vec<&'static dyn SupportedKxGroup> = if s.other_first { vec![other, g] } else { vec![g, other] };
    let cb = ClientConfig::builder_with_provider(provider(cgroups)).with_protocol_versions(versions).map_err(|e| format!("harness: {e}"))?.dangerous().with_custom_certificate_verifier(Arc::new(Trusting));
    let client_chain = (s.client_auth == 2).then(|| self::pki(s.client_key, 1).chain);
    let mut cc = match &client_chain {
        Some(c) => cb.with_client_cert_resolver(Arc::new(Fixed(Arc::new(CertifiedKey::new(ders(c), Arc::new(pick_scheme(s.client_key, s.scheme / 3, s.tls13))))))),
        None => cb.with_no_client_auth(),
    };
    cc.max_fragment_size = s.frag_c.map(|x| x as usize);
    cc.alpn_protocols = alpn;
    let name: RlsName<'static> = match &s.name {
        Some(n) => RlsName::try_from(n.clone()).unwrap(),
        None => RlsName::try_from("10.1.2.3").unwrap(),
    };
    let mut c = ClientConnection::new(Arc::new(cc), name).map_err(|e| format!("harness: client: {e}"))?;
    let mut v = ServerConnection::new(Arc::new(sc)).map_err(|e| format!("harness: server: {e}"))?;
    let (mut c2s, mut s2c) = (vec![], vec![]);
    let mut sent = [vec![], vec![]];
    let mut got = [vec![], vec![]];
    let mut script = s.app.iter();
    let mut closing = false;
    loop {
        let mut moved = false;
        let mut buf = vec![];
        while c.wants_write() {
            c.write_tls(&mut buf).unwrap();
        }
        moved |= !buf.is_empty();
        let mut rd = &buf[..];
        while !rd.is_empty() {
            v.read_tls(&mut rd).unwrap();
            v.process_new_packets().map_err(|e| format!("harness: server refuses: {e}"))?;
            let _ = v.reader().read_to_end(&mut got[0]);
        }
        c2s.extend(buf);
        let mut buf = vec![];
        while v.wants_write() {
            v.write_tls(&mut buf).unwrap();
        }
        moved |= !buf.is_empty();
        let mut rd = &buf[..];
        while !rd.is_empty() {
            c.read_tls(&mut rd).unwrap();
            c.process_new_packets().map_err(|e| format!("harness: client refuses: {e}"))?;
            let _ = c.reader().read_to_end(&mut got[1]);
        }
        s2c.extend(buf);
        if moved {
            continue;
        }
        check!(!c.is_handshaking() && !v.is_handshaking(), "harness: handshake stalled");
        if let Some((from_client, data)) = script.next() {
            sent[!*from_client as usize].extend(&data.0);
            if *from_client {
                c.writer().write_all(data).unwrap();
            } else {
                v.writer().write_all(data).unwrap();
            }
        } else if !closing {
            closing = true;
            if s.close.0 {
                c.send_close_notify();
            }
            if s.close.1 {
                v.send_close_notify();
            }
        } else {
            break;
        }
    }
    check_eq!(got, sent, "harness: session delivered other data");
    check_eq!(v.alpn_protocol().map(|x| x.to_vec()), chosen, "harness: protocol");
    Ok(Recorded { c2s, s2c, pki, client_chain, suite: suite.suite().get_u16(), alpn: chosen, sent, kx: SHARED.with(|k| k.borrow().last().cloned()) })
}

#[derive(Debug)]
struct OptionalAuth;
impl ClientCertVerifier for OptionalAuth {
    fn client_auth_mandatory(&self) -> bool {
        false
    }
    fn root_hint_subjects(&self) -> &[rustls::DistinguishedName] {
        &[]
    }
    fn verify_client_cert(&self, a: &CertificateDer<'_>, b: &[CertificateDer<'_>], c: UnixTime) -> Result<ClientCertVerified, rustls::Error> {
        ClientCertVerifier::verify_client_cert(&Trusting, a, b, c)
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<HsOk, rustls::Error> {
        Ok(HsOk::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &rustls::DigitallySignedStruct) -> Result<HsOk, rustls::Error> {
        Ok(HsOk::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        Trusting::schemes()
    }
}

#[derive(Debug)]
struct Tickets;
impl rustls::server::ProducesTickets for Tickets {
    fn enabled(&self) -> bool {
        true
    }
    fn lifetime(&self) -> u32 {
        7200
    }
    fn encrypt(&self, plain: &[u8]) -> Option<Vec<u8>> {
        Some(ring::digest::digest(&ring::digest::SHA256, plain).as_ref().to_vec())
    }
    fn decrypt(&self, _: &[u8]) -> Option<Vec<u8>> {
        None
    }
}
