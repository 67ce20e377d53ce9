//! C40 attestations end to end, C41 forged presentations, C42 acceptance and
//! validation, C43 notary signatures, C44 what the parties are shown.

use openssl::{
    bn::{BigNum, BigNumContext},
    ec::{EcGroup, EcKey, EcPoint, PointConversionForm},
    ecdsa::EcdsaSig,
    nid::Nid,
};
use proptest::prelude::*;
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use tiny_keccak::Hasher as _;
use tlsn_attestation::{
    presentation::Presentation,
    request::{Request, RequestConfig},
    signing::{KeyAlgId, Secp256k1EthSigner, Secp256k1EthVerifier, Secp256k1Signer, Secp256k1Verifier, Secp256r1Signer, Secp256r1Verifier, Signature, SignatureAlgId, SignatureError, SignatureVerifier, Signer, VerifyingKey},
    Attestation, AttestationConfig, CryptoProvider, Extension, Field, FieldId, Header, InvalidExtension, Secrets,
};
use tlsn_core::{
    connection::{ConnectionInfo, DnsName, HandshakeData, ServerEphemKey, ServerName, TlsVersion, TranscriptLength},
    fixtures::ConnectionFixture,
    hash::{Blinder, Hash, HashAlgId, HashAlgorithm, TypedHash},
    transcript::{
        hash::{hash_plaintext, PlaintextHash, PlaintextHashSecret},
        TranscriptCommitment,
    },
    webpki::{CertificateDer, RootCertStore, ServerCertVerifier},
};
use vpt::{cases, catch, check, check_eq, fail, gen::*, law, CaseResult, Check, Cx};

use crate::{proof::*, util::*};

// ---------------------------------------------------------------- parties

const SIGS: [SignatureAlgId; 3] = [SignatureAlgId::SECP256K1, SignatureAlgId::SECP256R1, SignatureAlgId::SECP256K1ETH];
const CUSTOM: u8 = 200;

fn sig_alg(i: u8) -> SignatureAlgId {
    SIGS[i as usize % 3]
}

/// A private key for either curve.
fn scalar(tag: u32) -> [u8; 32] {
    let mut k: [u8; 32] = filler(tag as u64 ^ 0x9e37_0000_0000, 32).try_into().unwrap();
    k[0] &= 0x7f;
    k[31] |= 1;
    k
}

fn signer(i: u8, key: &[u8]) -> Result<Box<dyn Signer + Send + Sync>, String> {
    Ok(match i % 3 {
        0 => Box::new(Secp256k1Signer::new(key).map_err(|e| e.to_string())?),
        1 => Box::new(Secp256r1Signer::new(key).map_err(|e| e.to_string())?),
        _ => Box::new(Secp256k1EthSigner::new(key).map_err(|e| e.to_string())?),
    })
}

fn verifier(i: u8) -> Box<dyn SignatureVerifier + Send + Sync> {
    match i % 3 {
        0 => Box::new(Secp256k1Verifier {}),
        1 => Box::new(Secp256r1Verifier {}),
        _ => Box::new(Secp256k1EthVerifier {}),
    }
}

fn site(i: bool, len: TranscriptLength) -> ConnectionFixture {
    if i {
        ConnectionFixture::appliedzkp(len)
    } else {
        ConnectionFixture::tlsnotary(len)
    }
}

/// The names the certificate of the site is for.
fn is_name_of(i: bool, name: &str) -> bool {
    let n = name.to_ascii_lowercase();
    let n = n.strip_suffix('.').unwrap_or(&n);
    let under = |base: &str| n.strip_suffix(base).and_then(|h| h.strip_suffix('.')).is_some_and(|h| !h.is_empty() && !h.contains('.'));
    if i {
        n == "appliedzkp.org" || under("appliedzkp.org") || under("semaphore.appliedzkp.org")
    } else {
        n == "tlsnotary.org" || n == "www.tlsnotary.org"
    }
}

const NAMES: [&str; 9] = ["tlsnotary.org", "www.tlsnotary.org", "appliedzkp.org", "a.appliedzkp.org", "a.b.appliedzkp.org", "x.semaphore.appliedzkp.org", "evil.org", "org", "TLSNotary.ORG"];

fn provider(roots: bool) -> CryptoProvider {
    let len = TranscriptLength { sent: 0, received: 0 };
    let roots: Vec<CertificateDer> = if roots { [false, true].iter().map(|s| site(*s, len.clone()).server_cert_data.certs.last().unwrap().clone()).collect() } else { vec![] };
    CryptoProvider { hash: Default::default(), cert: ServerCertVerifier::new(&RootCertStore { roots }).unwrap(), signer: Default::default(), signature: Default::default() }
}

thread_local! {
    static PUBLIC: CryptoProvider = provider(true);
    static ROOTLESS: CryptoProvider = provider(false);
}

fn as_verifier<T>(f: impl FnOnce(&CryptoProvider) -> T) -> T {
    PUBLIC.with(|p| f(p))
}

/// One connection and the attestation agreed for it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deal {
    lens: Lens,
    commits: Vec<Commit>,
    site: bool,
    sig: u8,
    key: u32,
    hash: u8,
    exts: Vec<(Bytes, Bytes)>,
    extra: Vec<(Bytes, Bytes)>,
    dt: i16,
    v13: bool,
    /// Commitments whose ranges are shown.
    show: Option<Vec<u8>>,
    identity: bool,
    stored: bool,
}

fn ext() -> impl Strategy<Value = (Bytes, Bytes)> + Clone {
    (spiky_bytes(0..12), spiky_bytes(0..40))
}

fn deal() -> impl Strategy<Value = Deal> + Clone {
    // Four fields are always present: totals that are powers of two and others.
    let exts = prop_oneof![3 => proptest::collection::vec(ext(), 0..1), 3 => proptest::collection::vec(ext(), 0..4), 1 => proptest::collection::vec(ext(), 0..12)];
    let extra = prop_oneof![3 => proptest::collection::vec(ext(), 0..1), 1 => proptest::collection::vec(ext(), 0..3)];
    let cs = prop_oneof![1 => Just(vec![]), 3 => commits(6), 3 => commits(6).prop_map(|mut v| { v.truncate(4); v }), 1 => commits(16)];
    (
        (lens(), cs, any::<bool>(), any::<u8>(), any::<u32>(), any::<u8>()),
        (exts, extra, -30000i16..30000, proptest::bool::weighted(0.1)),
        (proptest::option::weighted(0.8, proptest::collection::vec(any::<u8>(), 0..4)), proptest::bool::weighted(0.7), any::<bool>()),
    )
        .prop_map(|((lens, commits, site, sig, key, hash), (exts, extra, dt, v13), (show, identity, stored))| Deal { lens, commits, site, sig, key, hash, exts, extra, dt, v13, show, identity, stored })
}

fn extensions(v: &[(Bytes, Bytes)]) -> Vec<Extension> {
    v.iter().map(|(a, b)| Extension { id: a.0.clone(), value: b.0.clone() }).collect()
}

struct World {
    site: bool,
    h: Holder,
    conn: ConnectionFixture,
    key: VerifyingKey,
    request: Request,
    secrets: Secrets,
    att: Attestation,
    exts: Vec<Extension>,
    shown: [Vec<bool>; 2],
    commits: Vec<Commit>,
}

fn request_for(d: &Deal, h: &Holder, conn: &ConnectionFixture) -> Result<(Request, Secrets), String> {
    let mut rc = RequestConfig::builder();
    rc.signature_alg(sig_alg(d.sig)).hash_alg(alg(d.hash));
    for e in extensions(&d.exts) {
        rc.extension(e);
    }
    let rc = rc.build().map_err(|e| e.to_string())?;
    let mut rb = Request::builder(&rc);
    rb.server_name(conn.server_name.clone()).handshake_data(conn.server_cert_data.clone()).transcript(h.t.clone()).transcript_commitments(h.secrets.clone(), h.commitments.clone());
    as_verifier(|p| rb.build(p)).map_err(|e| e.to_string())
}

impl World {
    fn new(d: &Deal) -> Result<World, String> {
        let h = Holder::new(&d.lens, &d.commits);
        let mut conn = site(d.site, h.t.length());
        conn.connection_info.time = (conn.connection_info.time as i64 + d.dt as i64) as u64;
        if d.v13 {
            conn.connection_info.version = TlsVersion::V1_3;
        }
        let (mut request, mut secrets) = request_for(d, &h, &conn)?;
        if d.stored {
            request = dec(&enc(&request))?;
            secrets = dec(&enc(&secrets))?;
        }
        let config = AttestationConfig::builder().supported_signature_algs([sig_alg(d.sig)]).extension_validator(|_| Ok(())).build().map_err(|e| e.to_string())?;
        let mut b = Attestation::builder(&config).accept_request(request.clone()).map_err(|e| format!("request refused: {e}"))?;
        b.connection_info(conn.connection_info.clone()).server_ephemeral_key(conn.server_ephemeral_key().clone()).transcript_commitments(h.commitments.clone());
        for e in extensions(&d.extra) {
            b.extension(e);
        }
        let mut notary = provider(false);
        let s = signer(d.sig, &scalar(d.key))?;
        let key = s.verifying_key();
        notary.signer.set_signer(s);
        let mut att = b.build(&notary).map_err(|e| format!("no attestation: {e}"))?;
        if d.stored {
            att = dec(&enc(&att))?;
        }
        let mut shown = [vec![false; h.data[0].len()], vec![false; h.data[1].len()]];
        for k in d.show.iter().flatten() {
            if !h.idx.is_empty() {
                let k = *k as usize % h.idx.len();
                let n = d.commits[k].dir as usize;
                let m = mask(&h.idx[k], h.data[n].len());
                or(&mut shown[n], &m);
            }
        }
        let exts = extensions(&[d.exts.clone(), d.extra.clone()].concat());
        Ok(World { site: d.site, h, conn, key, request, secrets, att, exts, shown, commits: d.commits.clone() })
    }

    fn present(&self, identity: bool, transcript: bool) -> Result<Presentation, String> {
        as_verifier(|p| {
            let mut b = self.att.presentation_builder(p);
            if identity {
                b.identity_proof(self.secrets.identity_proof());
            }
            if transcript {
                let mut t = self.secrets.transcript_proof_builder();
                t.reveal_sent(&set_of(&self.shown[0])).map_err(|e| e.to_string())?;
                t.reveal_recv(&set_of(&self.shown[1])).map_err(|e| e.to_string())?;
                b.transcript_proof(t.build().map_err(|e| format!("COVER {e}"))?);
            }
            b.build().map_err(|e| e.to_string())
        })
    }

    fn committed(&self, n: usize) -> Vec<bool> {
        let mut all = vec![false; self.h.data[n].len()];
        for (c, i) in self.commits.iter().zip(&self.h.idx) {
            if c.dir as usize == n {
                or(&mut all, &mask(i, self.h.data[n].len()));
            }
        }
        all
    }
}

// ---------------------------------------------------------------- C40

fn end_to_end(d: &Deal, cx: &mut Cx) -> CaseResult {
    let w = World::new(d)?;
    as_verifier(|p| w.request.validate(&w.att, p)).map_err(|e| format!("own attestation refused: {e}"))?;
    check_eq!(w.att.signature.alg, sig_alg(d.sig));
    check_eq!(w.att.header.root.alg, alg(d.hash));
    let p = match w.present(d.identity, d.show.is_some()) {
        // C33 says when that may happen.
        Err(e) if e.starts_with("COVER") => {
            cx.label("ranges of mixed hashes that do not add up");
            return Ok(());
        }
        p => p?,
    };
    cx.nontrivial(d.show.is_some() || d.identity);
    cx.label(format!("{} {} {}", w.att.signature.alg, w.att.header.root.alg, ["tlsnotary.org", "appliedzkp.org"][d.site as usize]));
    let p: Presentation = if d.stored { dec(&enc(&p))? } else { p };
    check_eq!(p.verifying_key(), &w.key, "key of the presentation");
    let q = p.clone();
    let out = as_verifier(|v| p.verify(v)).map_err(|e| format!("own presentation refused: {e}"))?;
    check_eq!(out.attestation.body.verifying_key(), &w.key);
    check_eq!(out.attestation.header, w.att.header);
    check_eq!(out.connection_info, w.conn.connection_info);
    check_eq!(out.extensions, w.exts);
    check_eq!(out.attestation.body.extensions().cloned().collect::<Vec<_>>(), w.exts);
    check_eq!(out.server_name, d.identity.then(|| w.conn.server_name.clone()));
    check_eq!(out.transcript.is_some(), d.show.is_some());
    if let Some(t) = &out.transcript {
        check!(same_transcript(t, &w.h.t.to_partial(set_of(&w.shown[0]), set_of(&w.shown[1]))), "transcript of the presentation");
    }
    // A verifier that does not trust the site's issuer refuses the identity only.
    let got = ROOTLESS.with(|v| q.verify(v)).is_ok();
    check_eq!(got, !d.identity, "verdict without roots");
    Ok(())
}

/// The presentation shipped with the source still verifies.
fn shipped(byte: &Option<(u32, u8)>, cx: &mut Cx) -> CaseResult {
    let mut b = include_bytes!("../../../mirror/crates/attestation/tests/fixtures/presentation.bin").to_vec();
    cx.nontrivial(true);
    let whole = b.clone();
    let run = |b: &[u8]| -> Result<_, String> {
        let p: Presentation = dec(b)?;
        let key = p.verifying_key().clone();
        let out = catch(|| as_verifier(|v| p.verify(v)).map_err(|e| e.to_string())).map_err(|e| format!("PANIC {e}"))??;
        Ok((key, out))
    };
    let (key, good) = run(&whole).map_err(|e| format!("shipped presentation refused: {e}"))?;
    check_eq!(key, Secp256k1Signer::new(&[42; 32]).map_err(|e| e.to_string())?.verifying_key());
    check_eq!(good.server_name.as_ref().map(|n| n.to_string()), Some("tlsnotary.org".to_string()));
    let t = good.transcript.as_ref().ok_or("no transcript")?;
    check_eq!(t.sent_unsafe(), tlsn_data_fixtures::http::request::GET_WITH_HEADER);
    check_eq!(t.received_unsafe(), tlsn_data_fixtures::http::response::OK_JSON);
    if let Some((i, x)) = byte {
        let i = *i as usize % b.len();
        b[i] ^= (*x).max(1);
        match run(&b) {
            Err(e) => check!(!e.starts_with("PANIC"), "byte {i}: {e}"),
            Ok((k, out)) => {
                cx.label("a byte without effect");
                check_eq!(k, key, "byte {i} changes the key");
                check_eq!(out.connection_info, good.connection_info, "byte {i} changes the connection");
                check!(out.server_name.as_ref().is_none_or(|n| is_name_of(false, &n.to_string())), "byte {i} gives {:?}", out.server_name);
                check_eq!(out.extensions, good.extensions);
                check!(out.transcript.as_ref().is_none_or(|o| same_transcript(o, t)), "byte {i} changes the transcript");
            }
        }
    }
    Ok(())
}

pub fn c40() -> Check {
    Check {
        id: "C40",
        rule: "presentations with an identity or a transcript",
        assumptions: &["curve arithmetic, blake3, keccak, bcs and Merkle trees come from stand-ins (see core/shims); the presentation shipped with the source, made with the real crates, verifies with them"],
        laws: vec![
            law("deal", cases(48_000), deal, end_to_end),
            law("shipped", cases(18_000), || proptest::option::weighted(0.99, any::<(u32, u8)>()), shipped),
        ],
    }
}

// ---------------------------------------------------------------- C41

#[derive(Clone, Serialize, Deserialize)]
struct RawPresentation {
    att: RawAtt,
    identity: Option<RawId>,
    transcript: Option<RawProof>,
}

#[derive(Clone, Serialize, Deserialize)]
struct RawAtt {
    signature: Signature,
    header: Header,
    body: RawBody,
    proof: RawTreeProof,
}

#[derive(Clone, Serialize, Deserialize)]
struct RawBody {
    vk: Field<VerifyingKey>,
    info: Field<ConnectionInfo>,
    eph: Field<ServerEphemKey>,
    cert: Field<TypedHash>,
    exts: Vec<Field<Extension>>,
    tcs: Vec<Field<TranscriptCommitment>>,
}

#[derive(Clone, Serialize, Deserialize)]
struct RawTreeProof {
    alg: HashAlgId,
    leaves: usize,
    hashes: Vec<Hash>,
}

#[derive(Clone, Serialize, Deserialize)]
struct RawId {
    name: ServerName,
    data: HandshakeData,
    blinder: Blinder,
}

/// An attestation as the parts that are encoded.
#[derive(Clone, Serialize, Deserialize)]
struct RawAttestation {
    signature: Signature,
    header: Header,
    body: RawBody,
}

/// A change by a prover who wants to show what was not attested.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Forge {
    None,
    Byte(Mutation),
    /// A made-up extension or commitment with an opening, under some field
    /// id, with further hashes in the proof and a claimed number of fields.
    AddExt(Place, (Bytes, Bytes)),
    AddCommit(Place, bool, Picks, u8, u32),
    DropExt(u8),
    DropCommit(u8),
    /// Replaces an attested field.
    EditExt(u8, Mutation),
    EditCommit(u8, bool, Picks, u8, u32),
    EditTime(i64),
    EditVersion,
    EditLength(bool, i32),
    EditEph(Mutation),
    EditCert(Mutation),
    EditKey(Mutation),
    SwapIds(u8, u8),
    SetId(u8, u32),
    ExtOrder(u8, u8),
    /// Parts of another attestation by the same or another notary.
    From(Part),
    Name(u8),
    Certs(u8),
    Random(u8),
    HandSig(Mutation),
    Blinder(u8),
    Data(bool, u16, u8),
    Claim(bool, Picks, u8),
    HeaderId(u8),
    HeaderVersion(u32),
    Root(Mutation),
    RootAlg(u8),
    SigAlg(u8),
    Sig(Mutation),
    /// Signs the header with a key of the prover.
    Resign(u8, u32, bool),
    /// Makes the tree anew over the fields.
    Rebuild,
    Leaves(u16),
    Hashes(u8),
    ProofAlg(u8),
    NoIdentity,
    NoTranscript,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Place {
    id: u32,
    beyond: bool,
    hashes: u8,
    leaves: Option<u16>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Part {
    Identity,
    Transcript,
    Body,
    Tree,
    Header,
    Signature,
    Info,
    Eph,
    Cert,
    Exts,
    Commits,
    Key,
    EphAndCert,
    Opening,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fraud {
    a: Deal,
    b: Deal,
    same_notary: bool,
    same_conn: bool,
    steps: Vec<Forge>,
}

fn place() -> impl Strategy<Value = Place> + Clone {
    (prop_oneof![4 => 0u32..24, 1 => any::<u32>()], proptest::bool::weighted(0.8), 0u8..6, proptest::option::weighted(0.3, 0u16..40)).prop_map(|(id, beyond, hashes, leaves)| Place { id, beyond, hashes, leaves })
}

fn forge() -> impl Strategy<Value = Forge> + Clone {
    use Forge::*;
    let part = prop::sample::select(vec![
        Part::Identity, Part::Transcript, Part::Body, Part::Tree, Part::Header, Part::Signature, Part::Info, Part::Eph, Part::Cert, Part::Exts, Part::Commits, Part::Key, Part::EphAndCert, Part::Opening,
    ]);
    let fields = prop_oneof![
        8 => (place(), ext()).prop_map(|(p, e)| AddExt(p, e)),
        8 => (place(), any::<bool>(), picks(2), any::<u8>(), any::<u32>()).prop_map(|(p, d, i, a, t)| AddCommit(p, d, i, a, t)),
        1 => any::<u8>().prop_map(DropExt),
        1 => any::<u8>().prop_map(DropCommit),
        2 => (any::<u8>(), mutation()).prop_map(|(k, m)| EditExt(k, m)),
        3 => (any::<u8>(), any::<bool>(), picks(2), any::<u8>(), any::<u32>()).prop_map(|(k, d, i, a, t)| EditCommit(k, d, i, a, t)),
        1 => (-3i64..4).prop_map(EditTime),
        1 => Just(EditVersion),
        2 => (any::<bool>(), -2i32..3).prop_map(|(a, b)| EditLength(a, b)),
        1 => mutation().prop_map(EditEph),
        1 => mutation().prop_map(EditCert),
        1 => mutation().prop_map(EditKey),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| SwapIds(a, b)),
        1 => (any::<u8>(), 0u32..20).prop_map(|(a, b)| SetId(a, b)),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| ExtOrder(a, b)),
    ];
    let rest = prop_oneof![
        6 => part.prop_map(From),
        3 => (0u8..9).prop_map(Name),
        1 => any::<u8>().prop_map(Certs),
        1 => any::<u8>().prop_map(Random),
        1 => mutation().prop_map(HandSig),
        1 => any::<u8>().prop_map(Blinder),
        2 => any::<(bool, u16, u8)>().prop_map(|(a, b, c)| Data(a, b, c)),
        3 => (any::<bool>(), picks(2), any::<u8>()).prop_map(|(a, b, c)| Claim(a, b, c)),
        1 => any::<u8>().prop_map(HeaderId),
        1 => (0u32..3).prop_map(HeaderVersion),
        1 => mutation().prop_map(Root),
        1 => any::<u8>().prop_map(RootAlg),
        1 => any::<u8>().prop_map(SigAlg),
        2 => mutation().prop_map(Sig),
        3 => any::<(u8, u32, bool)>().prop_map(|(a, b, c)| Resign(a, b, c)),
        2 => Just(Rebuild),
        1 => (0u16..40).prop_map(Leaves),
        1 => any::<u8>().prop_map(Hashes),
        1 => any::<u8>().prop_map(ProofAlg),
        1 => Just(NoIdentity),
        1 => Just(NoTranscript),
    ];
    prop_oneof![1 => Just(None), 3 => mutation().prop_map(Byte), 9 => fields, 8 => rest]
}

fn fraud() -> impl Strategy<Value = Fraud> {
    (deal(), deal(), any::<bool>(), any::<bool>(), proptest::collection::vec(forge(), 1..4)).prop_map(|(a, b, same_notary, same_conn, steps)| {
        let mut f = Fraud { a, b, same_notary, same_conn, steps };
        if f.same_notary {
            f.b.key = f.a.key;
            f.b.sig = f.a.sig;
        }
        if f.same_conn {
            f.b.site = f.a.site;
            f.b.lens = f.a.lens.clone();
            f.b.hash = f.a.hash;
        }
        f
    })
}

fn flip(h: &Hash, m: &Mutation) -> Hash {
    let mut v = h.as_bytes().to_vec();
    m.apply(&mut v);
    Hash::try_from(v).unwrap_or(*h)
}

/// The fields of a body with their hashes, by the published layout.
fn domain(name: &str) -> [u8; 16] {
    blake3::hash(name.as_bytes()).as_bytes()[..16].try_into().unwrap()
}

fn commitment(a: u8, d: bool, idx: &RangeSet<usize>, data: &[u8], tag: u32) -> (PlaintextHash, PlaintextHashSecret) {
    let b = blinder(tag as u64 ^ 0xf00d);
    let bytes = pick_bytes(data, &mask(idx, data.len()));
    let hash = with_hasher(alg(a), |x| hash_plaintext(x, &bytes, &b));
    (PlaintextHash { direction: dir(d), idx: idx.clone(), hash }, PlaintextHashSecret { direction: dir(d), idx: idx.clone(), alg: alg(a), blinder: b })
}

impl RawProof {
    /// Plain text of one direction with the claimed positions.
    fn view(&self, d: usize) -> (Vec<u8>, Vec<bool>) {
        let (idx, bytes, total) = if d == 0 { (&self.sent_idx, &self.sent_authed, self.sent_total) } else { (&self.recv_idx, &self.received_authed, self.recv_total) };
        let m = mask(idx, total);
        let mut v = vec![0; total];
        let mut it = bytes.iter();
        for i in 0..total {
            if m[i] {
                v[i] = *it.next().unwrap_or(&0);
            }
        }
        (v, m)
    }
    fn put(&mut self, d: usize, v: &[u8], m: &[bool]) {
        let (idx, bytes) = if d == 0 { (&mut self.sent_idx, &mut self.sent_authed) } else { (&mut self.recv_idx, &mut self.received_authed) };
        *idx = set_of(m);
        *bytes = pick_bytes(v, m);
    }
    /// Claims text at the given positions.
    fn claim(&mut self, d: usize, idx: &RangeSet<usize>, data: &[u8]) {
        let (mut v, mut m) = self.view(d);
        let add = mask(idx, v.len());
        for i in 0..v.len() {
            if add[i] {
                v[i] = *data.get(i).unwrap_or(&0);
                m[i] = true;
            }
        }
        self.put(d, &v, &m);
    }
}

impl RawBody {
    fn ids(&mut self) -> Vec<&mut FieldId> {
        let mut v = vec![&mut self.vk.id, &mut self.info.id, &mut self.eph.id, &mut self.cert.id];
        v.extend(self.exts.iter_mut().map(|f| &mut f.id));
        v.extend(self.tcs.iter_mut().map(|f| &mut f.id));
        v
    }
}

fn pick(k: u8, n: usize) -> Option<usize> {
    (n > 0).then(|| k as usize % n)
}

fn position(p: &Place, fields: usize, raw: &mut RawPresentation) -> FieldId {
    for i in 0..p.hashes {
        raw.att.proof.hashes.push(with_hasher(alg(0), |h| h.hash(&[i, 77])));
    }
    if let Some(n) = p.leaves {
        raw.att.proof.leaves = n as usize;
    }
    FieldId(if p.beyond { p.id.wrapping_add(fields as u32) } else { p.id })
}

fn apply(f: &Forge, raw: &mut RawPresentation, other: &RawPresentation, w: &World) -> Result<(), String> {
    let body = &mut raw.att.body;
    let fields = 4 + body.exts.len() + body.tcs.len();
    match f {
        Forge::None | Forge::Byte(_) => {}
        Forge::AddExt(p, (a, b)) => {
            let id = position(p, fields, raw);
            raw.att.body.exts.push(Field { id, data: Extension { id: a.0.clone(), value: b.0.clone() } });
        }
        Forge::AddCommit(p, d, idx, a, tag) => {
            let id = position(p, fields, raw);
            // Text of the prover's choice, committed to and opened.
            let n = w.h.data[*d as usize].len();
            let text = filler(*tag as u64 ^ 0xbad, n);
            let idx = within(idx, n);
            let (c, o) = commitment(*a, *d, &idx, &text, *tag);
            raw.att.body.tcs.push(Field { id, data: TranscriptCommitment::Hash(c) });
            let lens = [w.h.data[0].len(), w.h.data[1].len()];
            let t = raw.transcript.get_or_insert_with(|| RawProof {
                sent_authed: vec![],
                received_authed: vec![],
                sent_idx: RangeSet::default(),
                recv_idx: RangeSet::default(),
                sent_total: lens[0],
                recv_total: lens[1],
                hash_secrets: vec![],
            });
            t.claim(*d as usize, &idx, &text);
            t.hash_secrets.push(o);
        }
        Forge::DropExt(k) => {
            if let Some(k) = pick(*k, body.exts.len()) {
                body.exts.remove(k);
            }
        }
        Forge::DropCommit(k) => {
            if let Some(k) = pick(*k, body.tcs.len()) {
                body.tcs.remove(k);
            }
        }
        Forge::EditExt(k, m) => {
            if let Some(k) = pick(*k, body.exts.len()) {
                m.apply(if m == &Mutation::Truncate(0) { &mut body.exts[k].data.id } else { &mut body.exts[k].data.value });
            }
        }
        Forge::EditCommit(k, d, idx, a, tag) => {
            if let Some(k) = pick(*k, body.tcs.len()) {
                let n = w.h.data[*d as usize].len();
                let text = filler(*tag as u64 ^ 0xbad, n);
                let idx = within(idx, n);
                let (c, o) = commitment(*a, *d, &idx, &text, *tag);
                body.tcs[k].data = TranscriptCommitment::Hash(c);
                if let Some(t) = &mut raw.transcript {
                    t.claim(*d as usize, &idx, &text);
                    t.hash_secrets.push(o);
                }
            }
        }
        Forge::EditTime(d) => body.info.data.time = (body.info.data.time as i64 + d) as u64,
        Forge::EditVersion => body.info.data.version = if body.info.data.version == TlsVersion::V1_2 { TlsVersion::V1_3 } else { TlsVersion::V1_2 },
        Forge::EditLength(d, k) => {
            let l = &mut body.info.data.transcript_length;
            let l = if *d { &mut l.received } else { &mut l.sent };
            *l = (*l as i64 + *k as i64).max(0) as u32;
            if let Some(t) = &mut raw.transcript {
                let (v, m) = t.view(*d as usize);
                let total = *l as usize;
                let end = m.iter().rposition(|m| *m).map_or(0, |i| i + 1);
                if total >= end {
                    if *d {
                        t.recv_total = total;
                    } else {
                        t.sent_total = total;
                    }
                    let mut v = v;
                    let mut m = m;
                    v.resize(total, 0);
                    m.resize(total, false);
                    t.put(*d as usize, &v, &m);
                }
            }
        }
        Forge::EditEph(m) => m.apply(&mut body.eph.data.key),
        Forge::EditCert(m) => body.cert.data.value = flip(&body.cert.data.value, m),
        Forge::EditKey(m) => m.apply(&mut body.vk.data.data),
        Forge::SwapIds(a, b) => {
            let mut ids = body.ids();
            let (a, b) = (*a as usize % ids.len(), *b as usize % ids.len());
            if a != b {
                let x = *ids[a];
                *ids[a] = *ids[b];
                *ids[b] = x;
            }
        }
        Forge::SetId(k, x) => {
            let mut ids = body.ids();
            let k = *k as usize % ids.len();
            *ids[k] = FieldId(*x);
        }
        Forge::ExtOrder(a, b) => {
            if let (Some(a), Some(b)) = (pick(*a, body.exts.len()), pick(*b, body.exts.len())) {
                body.exts.swap(a, b);
            }
        }
        Forge::From(p) => {
            let (b, o) = (body, &other.att.body);
            match p {
                Part::Identity => raw.identity = other.identity.clone(),
                Part::Transcript => raw.transcript = other.transcript.clone(),
                Part::Body => *b = o.clone(),
                Part::Tree => raw.att.proof = other.att.proof.clone(),
                Part::Header => raw.att.header = other.att.header.clone(),
                Part::Signature => raw.att.signature = other.att.signature.clone(),
                Part::Info => b.info = o.info.clone(),
                Part::Eph => b.eph = o.eph.clone(),
                Part::Cert => b.cert = o.cert.clone(),
                Part::Exts => b.exts = o.exts.clone(),
                Part::Commits => b.tcs = o.tcs.clone(),
                Part::Key => b.vk = o.vk.clone(),
                Part::EphAndCert => {
                    b.eph = o.eph.clone();
                    b.cert = o.cert.clone();
                    raw.identity = other.identity.clone();
                }
                Part::Opening => {
                    if let (Some(x), Some(y)) = (&mut raw.identity, &other.identity) {
                        x.data = y.data.clone();
                    }
                }
            }
        }
        Forge::Name(k) => {
            if let Some(i) = &mut raw.identity {
                i.name = ServerName::Dns(DnsName::try_from(NAMES[*k as usize % NAMES.len()]).map_err(|e| e.to_string())?);
            }
        }
        Forge::Certs(k) => {
            if let Some(i) = &mut raw.identity {
                let n = i.data.certs.len();
                match k % 3 {
                    0 => i.data.certs.clear(),
                    1 => i.data.certs.rotate_left(1),
                    _ => i.data.certs.truncate(n - 1),
                }
            }
        }
        Forge::Random(k) => {
            if let Some(i) = &mut raw.identity {
                let tlsn_core::connection::CertBinding::V1_2(b) = &mut i.data.binding else { return Err("binding".into()) };
                if *k < 128 {
                    b.client_random[*k as usize % 32] ^= 1;
                } else {
                    b.server_random[*k as usize % 32] ^= 1;
                }
            }
        }
        Forge::HandSig(m) => {
            if let Some(i) = &mut raw.identity {
                m.apply(&mut i.data.sig.sig);
            }
        }
        Forge::Blinder(k) => {
            if let Some(i) = &mut raw.identity {
                i.blinder = blinder(*k as u64);
            }
        }
        Forge::Data(d, at, x) => {
            if let Some(t) = &mut raw.transcript {
                let v = if *d { &mut t.received_authed } else { &mut t.sent_authed };
                if !v.is_empty() {
                    let n = v.len();
                    v[*at as usize % n] ^= (*x).max(1);
                }
            }
        }
        Forge::Claim(d, idx, a) => {
            if let Some(t) = &mut raw.transcript {
                let n = t.view(*d as usize).0.len();
                let text = filler(*a as u64 ^ 0xbad, n);
                let idx = within(idx, n);
                let (_, o) = commitment(*a, *d, &idx, &text, *a as u32);
                t.claim(*d as usize, &idx, &text);
                if a % 2 == 0 {
                    t.hash_secrets.push(o);
                }
            }
        }
        Forge::HeaderId(k) => raw.att.header.id.0[*k as usize % 16] ^= 1 << (k >> 5),
        Forge::HeaderVersion(v) => raw.att.header.version = dec(&enc(v))?,
        Forge::Root(m) => raw.att.header.root.value = flip(&raw.att.header.root.value, m),
        Forge::RootAlg(a) => raw.att.header.root.alg = if *a > 200 { HashAlgId::new(*a) } else { alg(*a) },
        Forge::SigAlg(a) => raw.att.signature.alg = if *a > 200 { SignatureAlgId::new(*a) } else { sig_alg(*a) },
        Forge::Sig(m) => m.apply(&mut raw.att.signature.data),
        Forge::Resign(a, k, replace) => {
            let s = signer(*a, &scalar(*k))?;
            if *replace {
                raw.att.body.vk.data = s.verifying_key();
                rebuild(raw)?;
            }
            // The header's encoding is fixed-width: id, version, algorithm, root.
            let h = &raw.att.header;
            let msg = bcs::to_bytes(h).map_err(|e| e.to_string())?;
            raw.att.signature = s.sign(&msg).map_err(|e| e.to_string())?;
        }
        Forge::Rebuild => rebuild(raw)?,
        Forge::Leaves(n) => raw.att.proof.leaves = *n as usize,
        Forge::Hashes(k) => {
            let v = &mut raw.att.proof.hashes;
            match k % 3 {
                0 => v.clear(),
                1 => v.push(with_hasher(alg(0), |h| h.hash(&[*k]))),
                _ => v.reverse(),
            }
        }
        Forge::ProofAlg(a) => raw.att.proof.alg = alg(*a),
        Forge::NoIdentity => raw.identity = None,
        Forge::NoTranscript => raw.transcript = None,
    }
    Ok(())
}

/// Numbers the fields and computes a root for them.
fn rebuild(raw: &mut RawPresentation) -> Result<(), String> {
    let body = &mut raw.att.body;
    for (i, id) in body.ids().into_iter().enumerate() {
        *id = FieldId(i as u32);
    }
    let a = raw.att.header.root.alg;
    if !ALGS.contains(&a) {
        return Ok(());
    }
    fn leaf<T: Serialize>(h: &dyn HashAlgorithm, name: &str, t: &T) -> Hash {
        h.hash(&[&domain(name)[..], &bcs::to_bytes(t).unwrap()].concat())
    }
    with_hasher(a, |h| {
        let mut leaves = vec![
            leaf(h, "VerifyingKey", &body.vk.data),
            leaf(h, "tlsn_core::connection::ConnectionInfo", &body.info.data),
            leaf(h, "tlsn_core::connection::ServerEphemKey", &body.eph.data),
            leaf(h, "ServerCertCommitment", &body.cert.data),
        ];
        leaves.extend(body.exts.iter().map(|f| leaf(h, "Extension", &f.data)));
        leaves.extend(body.tcs.iter().map(|f| leaf(h, "tlsn_core::transcript::TranscriptCommitment", &f.data)));
        raw.att.proof = RawTreeProof { alg: a, leaves: leaves.len(), hashes: vec![] };
        raw.att.header.root.value = crate::transcript::root_of(h, &leaves);
    });
    Ok(())
}

/// What is shown under a notary's key is what that notary attested.
fn judge(bytes: &[u8], worlds: &[&World], cx: &mut Cx) -> CaseResult {
    let p: Presentation = match dec(bytes) {
        Ok(p) => p,
        Err(_) => {
            cx.label("does not decode");
            return Ok(());
        }
    };
    let shown_key = p.verifying_key().clone();
    let out = match catch(|| as_verifier(|v| p.verify(v))) {
        Err(e) => fail!("verification panics: {e}"),
        Ok(Err(_)) => {
            cx.label("refused");
            return Ok(());
        }
        Ok(Ok(o)) => o,
    };
    check_eq!(out.attestation.body.verifying_key(), &shown_key, "key before and after verification");
    let by: Vec<&&World> = worlds.iter().filter(|w| w.key == shown_key).collect();
    if by.is_empty() {
        cx.label("under the prover's own key");
        return Ok(());
    }
    let Some(w) = by.iter().find(|w| w.att.header.id == out.attestation.header.id) else {
        fail!("an attestation {:?} the notary did not make", out.attestation.header.id);
    };
    cx.label("accepted");
    check_eq!(out.attestation.header, w.att.header, "header");
    check_eq!(out.connection_info, w.conn.connection_info, "connection");
    let mut left = w.exts.clone();
    for e in &out.extensions {
        match left.iter().position(|x| x == e) {
            Some(i) => drop(left.swap_remove(i)),
            None => fail!("extension {e:?} was not attested"),
        }
    }
    check_eq!(out.attestation.body.extensions().cloned().collect::<Vec<_>>(), out.extensions);
    let raw: RawAttestation = dec(&enc(&out.attestation))?;
    let orig: RawAttestation = dec(&enc(&w.att))?;
    check_eq!(raw.body.info.data, w.conn.connection_info);
    check_eq!(&raw.body.eph.data, w.conn.server_ephemeral_key(), "server's key");
    check_eq!(raw.body.cert.data, orig.body.cert.data, "certificate commitment");
    for c in &raw.body.tcs {
        let b = enc(&c.data);
        check!(w.h.commitments.iter().any(|x| enc(x) == b), "commitment {:?} was not attested", c.data);
    }
    if let Some(n) = &out.server_name {
        check!(is_name_of(w.site, &n.to_string()), "name {n} for {}", w.conn.server_name);
    }
    if let Some(t) = &out.transcript {
        check_eq!((t.len_sent(), t.len_received()), (w.h.data[0].len(), w.h.data[1].len()), "lengths");
        for (d, (idx, data)) in [(t.sent_authed(), t.sent_unsafe()), (t.received_authed(), t.received_unsafe())].into_iter().enumerate() {
            let m = mask(idx, data.len());
            check!(subset(&m, &w.committed(d)), "authenticated {idx:?} of direction {d}, committed {:?}", set_of(&w.committed(d)));
            check_eq!(pick_bytes(data, &m), pick_bytes(&w.h.data[d], &m), "authenticated bytes of direction {d}");
        }
    }
    Ok(())
}

fn forgery(f: &Fraud, cx: &mut Cx) -> CaseResult {
    let (a, b) = (World::new(&f.a)?, World::new(&f.b)?);
    let present = |w: &World, d: &Deal| w.present(d.identity, d.show.is_some()).or_else(|_| w.present(d.identity, false));
    let (pa, pb) = (enc(&present(&a, &f.a)?), enc(&present(&b, &f.b)?));
    let mut raw: RawPresentation = dec(&pa)?;
    let other: RawPresentation = dec(&pb)?;
    check_eq!(enc(&raw), pa, "layout of a presentation");
    let mut changed = false;
    for s in &f.steps {
        apply(s, &mut raw, &other, &a)?;
    }
    let mut bytes = enc(&raw);
    for s in &f.steps {
        if let Forge::Byte(m) = s {
            m.apply(&mut bytes);
        }
    }
    changed |= bytes != pa;
    cx.nontrivial(changed);
    judge(&bytes, &[&a, &b], cx)
}

pub fn c41() -> Check {
    Check {
        id: "C41",
        rule: "presentations that differ from the honest one",
        assumptions: &["signatures cannot be forged and hashes do not collide on the generated inputs", "Merkle trees come from a stand-in for tlsnotary's rs_merkle that follows the published algorithm"],
        laws: vec![law("forgery", cases(72_000), fraud, forgery)],
    }
}

// ---------------------------------------------------------------- C42

/// The configuration of a notary and a request to it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
    deal: Deal,
    sigs: Option<Vec<u8>>,
    hashes: Option<Vec<u8>>,
    /// None: as configured by default.
    allow: Option<u8>,
    signers: Vec<u8>,
    skip_info: bool,
    skip_key: bool,
    want_hash: Option<u8>,
    want_sig: Option<u8>,
}

fn ask() -> impl Strategy<Value = Ask> {
    (
        deal(),
        proptest::option::weighted(0.9, proptest::collection::vec(0u8..4, 0..4)),
        proptest::option::weighted(0.5, proptest::collection::vec(0u8..4, 0..4)),
        proptest::option::weighted(0.6, any::<u8>()),
        proptest::collection::vec(0u8..3, 0..4),
        (proptest::bool::weighted(0.1), proptest::bool::weighted(0.1)),
        (proptest::option::weighted(0.1, any::<u8>()), proptest::option::weighted(0.1, any::<u8>())),
    )
        .prop_map(|(deal, sigs, hashes, allow, signers, (skip_info, skip_key), (want_hash, want_sig))| Ask { deal, sigs, hashes, allow, signers, skip_info, skip_key, want_hash, want_sig })
}

fn named_sig(i: u8) -> SignatureAlgId {
    if i % 4 == 3 {
        SignatureAlgId::new(CUSTOM)
    } else {
        sig_alg(i % 4)
    }
}

fn named_hash(i: u8) -> HashAlgId {
    if i % 4 == 3 {
        HashAlgId::new(CUSTOM)
    } else {
        alg(i % 4)
    }
}

fn acceptance(a: &Ask, cx: &mut Cx) -> CaseResult {
    let d = &a.deal;
    let h = Holder::new(&d.lens, &d.commits);
    let conn = site(d.site, h.t.length());
    let mut request = request_for(d, &h, &conn)?.0;
    // A request is data from the prover: it may name any algorithm.
    #[derive(Serialize, Deserialize)]
    struct RawRequest(SignatureAlgId, HashAlgId, TypedHash, Vec<Extension>);
    let mut raw: RawRequest = dec(&enc(&request))?;
    if let Some(x) = a.want_sig {
        raw.0 = named_sig(x);
    }
    if let Some(x) = a.want_hash {
        raw.1 = named_hash(x);
    }
    request = dec(&enc(&raw))?;
    let mut c = AttestationConfig::builder();
    let sigs: Vec<SignatureAlgId> = a.sigs.iter().flatten().map(|i| named_sig(*i)).collect();
    if a.sigs.is_some() {
        c.supported_signature_algs(sigs.clone());
    }
    let hashes: Vec<HashAlgId> = match &a.hashes {
        Some(v) => v.iter().map(|i| named_hash(*i)).collect(),
        None => ALGS.to_vec(),
    };
    if a.hashes.is_some() {
        c.supported_hash_algs(hashes.clone());
    }
    let exts = extensions(&d.exts);
    let mut exts_ok = exts.is_empty();
    if let Some(k) = a.allow {
        // Extensions up to a number, of bounded values.
        let (n, len) = ((k % 4) as usize, (k / 4) as usize);
        let ok = move |e: &[Extension]| e.len() <= n && e.iter().all(|e| e.value.len() <= len);
        exts_ok = ok(&exts);
        c.extension_validator(move |e| if ok(e) { Ok(()) } else { Err(InvalidExtension::new("not these")) });
    }
    let c = c.build().map_err(|e| e.to_string())?;
    let sig_ok = sigs.contains(&raw.0);
    let hash_ok = hashes.contains(&raw.1);
    let c2 = c.clone();
    let got = Attestation::builder(&c2).accept_request(request.clone());
    check_eq!(got.is_ok(), sig_ok && hash_ok && exts_ok, "acceptance: signature {} {sig_ok}, hash {} {hash_ok}, extensions {exts_ok}", raw.0, raw.1);
    let mut b = match got {
        Err(e) => {
            cx.nontrivial(true);
            cx.label("request refused");
            if !(sig_ok && hash_ok) {
                check!(e.is_request(), "a request for algorithms that are not supported is refused as {e}");
            }
            return Ok(());
        }
        Ok(b) => b,
    };
    if !a.skip_info {
        b.connection_info(conn.connection_info.clone());
    }
    if !a.skip_key {
        b.server_ephemeral_key(conn.server_ephemeral_key().clone());
    }
    b.transcript_commitments(h.commitments.clone());
    let mut notary = provider(false);
    for s in &a.signers {
        notary.signer.set_signer(signer(*s, &scalar(d.key))?);
    }
    let mut have: Vec<SignatureAlgId> = notary.signer.supported_algs().collect();
    have.sort_by_key(|s| s.as_u8());
    let mut want: Vec<SignatureAlgId> = a.signers.iter().map(|s| sig_alg(*s)).collect();
    want.sort_by_key(|s| s.as_u8());
    want.dedup();
    check_eq!(have, want, "signers");
    let can = want.contains(&raw.0) && ALGS.contains(&raw.1) && !a.skip_info && !a.skip_key;
    let got = catch(|| b.build(&notary)).map_err(|e| format!("panic: {e}"))?;
    check_eq!(got.is_ok(), can, "attestation: signers {want:?}, wants {} and {}, connection {}, key {}", raw.0, raw.1, !a.skip_info, !a.skip_key);
    cx.nontrivial(true);
    match got {
        Err(e) => {
            cx.label("accepted, cannot be made");
            check!(!e.is_request(), "a failure of the notary blamed on the request: {e}");
        }
        Ok(att) => {
            cx.label("accepted and made");
            check_eq!(att.signature.alg, raw.0);
            check_eq!(att.header.root.alg, raw.1);
            as_verifier(|p| request.validate(&att, p)).map_err(|e| format!("own attestation refused: {e}"))?;
        }
    }
    Ok(())
}

/// Parts of a request that must be present.
fn request_parts(v: &(Deal, [bool; 3], bool), cx: &mut Cx) -> CaseResult {
    let (d, skip, custom) = v;
    let h = Holder::new(&d.lens, &d.commits);
    let conn = site(d.site, h.t.length());
    let mut rc = RequestConfig::builder();
    if *custom {
        rc.hash_alg(HashAlgId::new(CUSTOM));
    }
    let rc = rc.build().map_err(|e| e.to_string())?;
    let mut rb = Request::builder(&rc);
    if !skip[0] {
        rb.server_name(conn.server_name.clone());
    }
    if !skip[1] {
        rb.handshake_data(conn.server_cert_data.clone());
    }
    if !skip[2] {
        rb.transcript(h.t.clone());
    }
    cx.nontrivial(true);
    let got = as_verifier(|p| rb.build(p));
    check_eq!(got.is_ok(), !skip.contains(&true) && !custom, "request without {skip:?}, unknown hash {custom}");
    if let Ok((_, s)) = got {
        check_eq!(s.server_name(), &conn.server_name);
        check_eq!(s.transcript().sent(), h.t.sent());
        check_eq!(s.transcript().received(), h.t.received());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Swap {
    SigAlg(u8),
    RootAlg(u8),
    Cert(Mutation),
    CertAlg(u8),
    DropExt(u8),
    EditExt(u8, bool, Mutation),
    AddExt((Bytes, Bytes)),
    MoveExt(u8, u8),
    Sig(Mutation),
    HeaderId(u8),
    Version(u32),
    Root(Mutation),
    Key(Mutation),
    KeyAlg(bool),
    OtherKey(u32),
    Resign(u8, u32),
    Commits,
}

fn swap() -> impl Strategy<Value = Swap> + Clone {
    use Swap::*;
    prop_oneof![
        2 => any::<u8>().prop_map(SigAlg),
        2 => any::<u8>().prop_map(RootAlg),
        2 => mutation().prop_map(Cert),
        1 => any::<u8>().prop_map(CertAlg),
        3 => any::<u8>().prop_map(DropExt),
        3 => (any::<u8>(), any::<bool>(), mutation()).prop_map(|(a, b, c)| EditExt(a, b, c)),
        1 => ext().prop_map(AddExt),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| MoveExt(a, b)),
        3 => mutation().prop_map(Sig),
        1 => any::<u8>().prop_map(HeaderId),
        1 => (0u32..3).prop_map(Version),
        1 => mutation().prop_map(Root),
        1 => mutation().prop_map(Key),
        1 => any::<bool>().prop_map(KeyAlg),
        1 => any::<u32>().prop_map(OtherKey),
        2 => any::<(u8, u32)>().prop_map(|(a, b)| Resign(a, b)),
        1 => Just(Commits),
    ]
}

/// The prover's check of an attestation against its request.
fn validation(v: &(Deal, Vec<Swap>), cx: &mut Cx) -> CaseResult {
    let (d, swaps) = v;
    let w = World::new(d)?;
    let mut raw: RawAttestation = dec(&enc(&w.att))?;
    let before = raw.clone();
    check_eq!(enc(&raw), enc(&w.att), "layout of an attestation");
    let mut resigned = None;
    for s in swaps {
        let b = &mut raw.body;
        match s {
            Swap::SigAlg(a) => raw.signature.alg = named_sig(*a),
            Swap::RootAlg(a) => raw.header.root.alg = named_hash(*a),
            Swap::Cert(m) => b.cert.data.value = flip(&b.cert.data.value, m),
            Swap::CertAlg(a) => b.cert.data.alg = alg(*a),
            Swap::DropExt(k) => {
                if let Some(k) = pick(*k, b.exts.len()) {
                    b.exts.remove(k);
                }
            }
            Swap::EditExt(k, id, m) => {
                if let Some(k) = pick(*k, b.exts.len()) {
                    m.apply(if *id { &mut b.exts[k].data.id } else { &mut b.exts[k].data.value });
                }
            }
            Swap::AddExt((i, v)) => b.exts.push(Field { id: FieldId(99), data: Extension { id: i.0.clone(), value: v.0.clone() } }),
            Swap::MoveExt(i, j) => {
                if let (Some(i), Some(j)) = (pick(*i, b.exts.len()), pick(*j, b.exts.len())) {
                    b.exts.swap(i, j);
                }
            }
            Swap::Sig(m) => m.apply(&mut raw.signature.data),
            Swap::HeaderId(k) => raw.header.id.0[*k as usize % 16] ^= 1 << (k >> 5),
            Swap::Version(v) => raw.header.version = dec(&enc(v))?,
            Swap::Root(m) => raw.header.root.value = flip(&raw.header.root.value, m),
            Swap::Key(m) => m.apply(&mut b.vk.data.data),
            Swap::KeyAlg(k) => b.vk.data.alg = if *k { KeyAlgId::K256 } else { KeyAlgId::P256 },
            Swap::OtherKey(k) => b.vk.data = signer(d.sig, &scalar(*k))?.verifying_key(),
            Swap::Resign(a, k) => {
                let s = signer(*a, &scalar(*k))?;
                raw.signature = s.sign(&bcs::to_bytes(&raw.header).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                raw.body.vk.data = s.verifying_key();
                resigned = Some((enc(&raw.header), raw.signature.clone(), raw.body.vk.data.clone()));
            }
            Swap::Commits => b.tcs.clear(),
        }
    }
    let att: Attestation = dec(&enc(&raw))?;
    let alg_ok = raw.signature.alg == sig_alg(d.sig);
    let hash_ok = raw.header.root.alg == alg(d.hash);
    let cert_ok = raw.body.cert.data == before.body.cert.data;
    let exts_ok = extensions(&d.exts).iter().all(|e| raw.body.exts.iter().any(|f| f.data == *e));
    let (h, s, k) = resigned.unwrap_or((enc(&before.header), before.signature.clone(), before.body.vk.data.clone()));
    let mut same_sig = raw.signature.data == s.data;
    // The last byte of an Ethereum signature only helps to recover the key.
    let eth = s.alg == SignatureAlgId::SECP256K1ETH && s.data.len() == 65 && raw.signature.data.len() == 65 && raw.signature.data[..64] == s.data[..64];
    same_sig |= eth;
    let signed = enc(&raw.header) == h && same_sig && raw.signature.alg == s.alg;
    // The same key may be written in another way.
    let same_key = raw.body.vk.data == k;
    let ok = alg_ok && hash_ok && cert_ok && exts_ok && signed && same_key;
    cx.nontrivial(enc(&raw) != enc(&before));
    cx.label(if ok { "valid" } else { "not valid" });
    let got = catch(|| as_verifier(|p| w.request.validate(&att, p)).map_err(|e| e.to_string())).map_err(|e| format!("panic: {e}"))?;
    check_eq!(got.is_ok(), ok, "attestation: signature algorithm {alg_ok}, hash {hash_ok}, certificate {cert_ok}, extensions {exts_ok}, signed {signed}, key {same_key}: {got:?}");
    Ok(())
}

pub fn c42() -> Check {
    Check {
        id: "C42",
        rule: "every request; attestations that differ from the honest one",
        assumptions: &["signatures cannot be forged"],
        laws: vec![
            law("acceptance", cases(120_000), ask, acceptance),
            law("parts", cases(12_000), || (deal(), any::<[bool; 3]>().prop_map(|b| b), proptest::bool::weighted(0.1)), request_parts),
            law("validation", cases(60_000), || (deal(), proptest::collection::vec(swap(), 0..3)), validation),
        ],
    }
}

// ---------------------------------------------------------------- C43

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sign {
    alg: u8,
    key: KeySpec,
    msg: Bytes,
    change: u8,
    m: Mutation,
    other: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KeySpec {
    Tag(u32),
    Small(u8),
    /// The group order plus something.
    Order(i8),
    Raw(Bytes),
}

fn order(r1: bool) -> BigNum {
    let g = EcGroup::from_curve_name(if r1 { Nid::X9_62_PRIME256V1 } else { Nid::SECP256K1 }).unwrap();
    let mut n = BigNum::new().unwrap();
    g.order(&mut n, &mut BigNumContext::new().unwrap()).unwrap();
    n
}

impl KeySpec {
    fn bytes(&self, r1: bool) -> Vec<u8> {
        match self {
            KeySpec::Tag(t) => scalar(*t).to_vec(),
            KeySpec::Small(b) => {
                let mut v = vec![0; 32];
                v[31] = *b;
                v
            }
            KeySpec::Order(d) => {
                let mut n = order(r1);
                if *d >= 0 {
                    n.add_word(*d as u32).unwrap();
                } else {
                    n.sub_word(-(*d as i32) as u32).unwrap();
                }
                n.to_vec_padded(32).unwrap()
            }
            KeySpec::Raw(b) => b.0.clone(),
        }
    }
}

fn keccak(d: &[u8]) -> [u8; 32] {
    let mut k = tiny_keccak::Keccak::v256();
    k.update(d);
    let mut o = [0; 32];
    k.finalize(&mut o);
    o
}

fn sign_law(c: &Sign, cx: &mut Cx) -> CaseResult {
    let r1 = c.alg % 3 == 1;
    let eth = c.alg % 3 == 2;
    let kb = c.key.bytes(r1);
    if (24..32).contains(&kb.len()) {
        return Ok(());
    }
    let g = EcGroup::from_curve_name(if r1 { Nid::X9_62_PRIME256V1 } else { Nid::SECP256K1 }).unwrap();
    let mut ctx = BigNumContext::new().unwrap();
    let x = BigNum::from_slice(&kb).unwrap();
    let n = order(r1);
    let valid = kb.len() == 32 && x.num_bits() > 0 && x < n;
    let s = signer(c.alg, &kb);
    check_eq!(s.is_ok(), valid, "private key {}", hex::encode(&kb));
    let Ok(s) = s else {
        cx.label("not a key");
        cx.nontrivial(true);
        return Ok(());
    };
    let alg = sig_alg(c.alg);
    check_eq!(s.alg_id(), alg);
    let vk = s.verifying_key();
    check_eq!(vk.alg, if r1 { KeyAlgId::P256 } else { KeyAlgId::K256 });
    // The verifying key is the public key.
    let mut p = EcPoint::new(&g).unwrap();
    p.mul_generator2(&g, &x, &mut ctx).unwrap();
    let form = if vk.data.len() == 33 { PointConversionForm::COMPRESSED } else { PointConversionForm::UNCOMPRESSED };
    check_eq!(vk.data, p.to_bytes(&g, form, &mut ctx).unwrap(), "public key");
    let sig = s.sign(&c.msg).map_err(|e| e.to_string())?;
    check_eq!(sig.alg, alg);
    check_eq!(sig.data.len(), if eth { 65 } else { 64 });
    // It verifies as ECDSA over the right digest.
    let digest = if eth { keccak(&c.msg) } else { openssl::sha::sha256(&c.msg) };
    let r = BigNum::from_slice(&sig.data[..32]).unwrap();
    let sv = BigNum::from_slice(&sig.data[32..64]).unwrap();
    let key = EcKey::from_public_key(&g, &p).unwrap();
    check!(EcdsaSig::from_private_components(r, sv).unwrap().verify(&digest, &key).unwrap_or(false), "signature of {}", hex::encode(&c.msg[..]));
    let v = verifier(c.alg);
    check_eq!(v.alg_id(), alg);
    v.verify(&vk, &c.msg, &sig.data).map_err(|e| format!("own signature refused: {e}"))?;
    if eth {
        // ecrecover gives the signer's key for v and only for v.
        let y = sig.data[64];
        check!(y == 27 || y == 28, "v is {y}");
        let a = recover(&g, &digest, &sig.data, y - 27)?;
        check_eq!(a, p.to_bytes(&g, PointConversionForm::UNCOMPRESSED, &mut ctx).unwrap(), "recovered key for v = {y}");
        cx.label(format!("v {y}"));
    }
    cx.nontrivial(true);
    // Nothing else is accepted.
    let (mut k2, mut m2, mut s2, mut a2) = (vk.clone(), c.msg.0.clone(), sig.data.clone(), c.alg);
    match c.change % 9 {
        0 => {}
        1 => c.m.apply(&mut m2),
        2 => c.m.apply(&mut s2),
        3 => c.m.apply(&mut k2.data),
        4 => k2.alg = if r1 { KeyAlgId::K256 } else { KeyAlgId::P256 },
        5 => k2.alg = KeyAlgId::new(CUSTOM),
        6 => a2 = c.alg % 3 + 1 + c.other as u8 % 2,
        7 => k2 = signer(c.alg, &scalar(c.other))?.verifying_key(),
        _ => {
            s2[..32].fill(0);
            if c.other % 2 == 0 {
                s2[32..64].fill(0);
            }
        }
    }
    let mut ok = k2 == vk && m2 == c.msg.0 && a2 == c.alg && s2 == sig.data;
    if eth && k2 == vk && m2 == c.msg.0 && a2 == c.alg && s2.len() == 65 && s2[..64] == sig.data[..64] {
        ok = true;
    }
    let got = catch(|| verifier(a2).verify(&k2, &m2, &s2).is_ok()).map_err(|e| format!("panic: {e}"))?;
    check_eq!(got, ok, "verdict after change {}", c.change % 9);
    cx.label(if ok { "accepted" } else { "refused" });
    Ok(())
}

/// The public key for which `r || s` signs the digest and whose nonce point
/// has the given parity.
fn recover(g: &EcGroup, digest: &[u8], sig: &[u8], odd: u8) -> Result<Vec<u8>, String> {
    let mut ctx = BigNumContext::new().unwrap();
    let e = |e: openssl::error::ErrorStack| e.to_string();
    let mut n = BigNum::new().unwrap();
    g.order(&mut n, &mut ctx).map_err(e)?;
    let s = BigNum::from_slice(&sig[32..64]).map_err(e)?;
    let r = BigNum::from_slice(&sig[..32]).map_err(e)?;
    let rp = EcPoint::from_bytes(g, &[&[2 + odd][..], &sig[..32]].concat(), &mut ctx).map_err(e)?;
    let z = BigNum::from_slice(digest).map_err(e)?;
    let mut ri = BigNum::new().unwrap();
    ri.mod_inverse(&r, &n, &mut ctx).map_err(e)?;
    let (mut a, mut b, mut zn) = (BigNum::new().unwrap(), BigNum::new().unwrap(), BigNum::new().unwrap());
    a.mod_mul(&s, &ri, &n, &mut ctx).map_err(e)?;
    zn.mod_mul(&z, &ri, &n, &mut ctx).map_err(e)?;
    b.mod_sub(&n, &zn, &n, &mut ctx).map_err(e)?;
    // s/r R - z/r G
    let (mut x, mut y, mut q) = (EcPoint::new(g).unwrap(), EcPoint::new(g).unwrap(), EcPoint::new(g).unwrap());
    x.mul2(g, &rp, &a, &mut ctx).map_err(e)?;
    y.mul_generator2(g, &b, &mut ctx).map_err(e)?;
    q.add(g, &x, &y, &mut ctx).map_err(e)?;
    q.to_bytes(g, PointConversionForm::UNCOMPRESSED, &mut ctx).map_err(e)
}

struct Custom(u8);
impl Signer for Custom {
    fn alg_id(&self) -> SignatureAlgId {
        SignatureAlgId::new(self.0)
    }
    fn sign(&self, msg: &[u8]) -> Result<Signature, SignatureError> {
        Ok(Signature { alg: SignatureAlgId::new(self.0), data: [&[self.0][..], msg].concat() })
    }
    fn verifying_key(&self) -> VerifyingKey {
        VerifyingKey { alg: KeyAlgId::new(self.0), data: vec![self.0; 3] }
    }
}
impl SignatureVerifier for Custom {
    fn alg_id(&self) -> SignatureAlgId {
        SignatureAlgId::new(self.0)
    }
    fn verify(&self, _: &VerifyingKey, msg: &[u8], sig: &[u8]) -> Result<(), SignatureError> {
        if sig == [&[self.0][..], msg].concat() {
            Ok(())
        } else {
            Err(SignatureError::from_str("no"))
        }
    }
}

/// Algorithms of the user's own.
fn custom(v: &(u8, Option<u8>, Deal), cx: &mut Cx) -> CaseResult {
    let (id, known, d) = v;
    let reserved = *id < 128;
    check_eq!(catch(|| SignatureAlgId::new(*id)).is_err(), reserved, "signature algorithm {id}");
    check_eq!(catch(|| KeyAlgId::new(*id)).is_err(), reserved, "key algorithm {id}");
    check_eq!(catch(|| HashAlgId::new(*id)).is_err(), reserved, "hash algorithm {id}");
    if reserved {
        return Ok(());
    }
    cx.nontrivial(true);
    check_eq!(SignatureAlgId::new(*id).as_u8(), *id);
    let h = Holder::new(&d.lens, &d.commits);
    let conn = site(d.site, h.t.length());
    let mut rc = RequestConfig::builder();
    rc.signature_alg(SignatureAlgId::new(*id)).hash_alg(alg(d.hash));
    let rc = rc.build().map_err(|e| e.to_string())?;
    let mut rb = Request::builder(&rc);
    rb.server_name(conn.server_name.clone()).handshake_data(conn.server_cert_data.clone()).transcript(h.t.clone());
    let (request, _) = as_verifier(|p| rb.build(p)).map_err(|e| e.to_string())?;
    let c = AttestationConfig::builder().supported_signature_algs([SignatureAlgId::new(*id)]).build().map_err(|e| e.to_string())?;
    let mut b = Attestation::builder(&c).accept_request(request.clone()).map_err(|e| e.to_string())?;
    b.connection_info(conn.connection_info.clone()).server_ephemeral_key(conn.server_ephemeral_key().clone());
    let mut notary = provider(false);
    notary.signer.set_signer(Box::new(Custom(*id)));
    let att = b.build(&notary).map_err(|e| e.to_string())?;
    // Only a verifier that knows the algorithm accepts.
    let mut p = provider(true);
    if let Some(k) = known {
        p.signature.set_verifier(Box::new(Custom(if k % 2 == 0 { *id } else { 128 | *k })));
    }
    let knows = known.is_some_and(|k| k % 2 == 0 || 128 | k == *id);
    cx.label(if knows { "known" } else { "not known" });
    check_eq!(request.validate(&att, &p).is_ok(), knows, "validation of algorithm {id}");
    let pres = att.presentation_builder(&p).build().map_err(|e| e.to_string())?;
    check_eq!(pres.verifying_key().alg.as_u8(), *id);
    check_eq!(pres.verify(&p).is_ok(), knows, "presentation of algorithm {id}");
    Ok(())
}

pub fn c43() -> Check {
    Check {
        id: "C43",
        rule: "every key and message; custom algorithms outside of the reserved range",
        assumptions: &["p256 and k256 are stand-ins over OpenSSL with the crates' conventions (RFC 6979, low s for k256)"],
        laws: vec![
            law(
                "sign",
                cases(48_000),
                || {
                    let key = prop_oneof![8 => any::<u32>().prop_map(KeySpec::Tag), 1 => (0u8..4).prop_map(KeySpec::Small), 1 => (-3i8..4).prop_map(KeySpec::Order), 1 => spiky_bytes(0..40).prop_map(KeySpec::Raw), 1 => bytes(32..33).prop_map(KeySpec::Raw)];
                    (any::<u8>(), key, spiky_bytes(0..200), any::<u8>(), mutation(), any::<u32>()).prop_map(|(alg, key, msg, change, m, other)| Sign { alg: alg % 3, key, msg, change, m, other })
                },
                sign_law,
            ),
            law("custom", cases(12_000), || (any::<u8>(), proptest::option::of(any::<u8>()), deal()), custom),
        ],
    }
}

// ---------------------------------------------------------------- C44

fn has(hay: &[u8], needle: &[u8]) -> bool {
    needle.len() <= hay.len() && hay.windows(needle.len()).any(|w| w == needle)
}

/// What each message tells.
fn privacy(v: &(Deal, Deal), cx: &mut Cx) -> CaseResult {
    let (d, e) = v;
    let w = World::new(d)?;
    let data = &w.conn.server_cert_data;
    let tlsn_core::connection::CertBinding::V1_2(bind) = &data.binding else { fail!("binding") };
    let name = w.conn.server_name.to_string();
    let mut identity: Vec<&[u8]> = vec![name.as_bytes(), &data.sig.sig, &bind.client_random, &bind.server_random];
    identity.extend(data.certs.iter().map(|c| &c.0[..64.min(c.0.len())]));
    identity.extend(data.certs.iter().map(|c| &c.0[c.0.len() / 2..c.0.len() / 2 + 40]));
    // To the notary: nothing of the server or of the text.
    let req = enc(&w.request);
    for x in &identity {
        check!(!has(&req, x), "the request carries {}", hex::encode(x));
    }
    for t in &w.h.data {
        check!(t.len() < 12 || !has(&req, &t[..12]), "the request carries text");
    }
    // The same request about anything else looks alike, and about the same
    // connection it never repeats.
    let h2 = Holder::new(&e.lens, &e.commits);
    let c2 = site(e.site, h2.t.length());
    let mut e2 = e.clone();
    e2.exts = d.exts.clone();
    e2.sig = d.sig;
    e2.hash = d.hash;
    let (r2, _) = request_for(&e2, &h2, &c2)?;
    let (r3, s3) = request_for(d, &w.h, &w.conn)?;
    check_eq!(enc(&r2).len(), req.len(), "length of a request");
    let fixed = |r: &Request| -> Result<(Vec<u8>, Vec<u8>), String> {
        #[derive(Serialize, Deserialize)]
        struct RawRequest(SignatureAlgId, HashAlgId, TypedHash, Vec<Extension>);
        let r: RawRequest = dec(&enc(r))?;
        Ok((enc(&(r.0, r.1, r.2.alg, r.3)), r.2.value.as_bytes().to_vec()))
    };
    let (f1, c1) = fixed(&w.request)?;
    let (f2, _) = fixed(&r2)?;
    let (f3, c3) = fixed(&r3)?;
    check_eq!(f1, f2, "what a request says besides its commitment");
    check_eq!(f1, f3);
    check!(c1 != c3, "two requests for one connection commit alike");
    // The opening that goes with the commitment is the one that opens it.
    let _ = s3;
    // To a verifier who is not shown the identity: nothing of it.
    let att = enc(&w.att);
    let opening: RawId = dec(&enc(&w.secrets.identity_proof()))?;
    for (with_id, with_t) in [(false, false), (false, true), (true, false)] {
        let Ok(p) = w.present(with_id, with_t) else { continue };
        let p = enc(&p);
        cx.nontrivial(true);
        for x in &identity {
            if !with_id {
                // Text that is shown may name the server.
                check!(!has(&p, x), "a presentation without the identity carries {}", hex::encode(x));
            }
        }
        if !with_id {
            check!(!has(&p, &enc(&opening.blinder)), "a presentation without the identity carries its blinder");
        }
        if !with_t {
            for k in 0..w.commits.len() {
                check!(!has(&p, blinder(k as u64 + 100).as_bytes()), "a presentation without the transcript opens a commitment");
            }
            for t in &w.h.data {
                check!(t.len() < 12 || !has(&p, &t[..12]), "a presentation without the transcript carries text");
            }
        } else {
            for n in 0..2 {
                let hidden: Vec<usize> = (0..w.h.data[n].len().saturating_sub(12)).filter(|i| (*i..*i + 12).all(|j| !w.shown[n][j])).collect();
                for i in hidden.iter().step_by(11) {
                    check!(!has(&p, &w.h.data[n][*i..*i + 12]), "a presentation carries hidden text");
                }
            }
        }
    }
    // Neither does the attestation, which the notary made.
    for x in &identity {
        check!(!has(&att, x), "the attestation carries {}", hex::encode(x));
    }
    check!(!has(&req, &enc(&opening.blinder)) && !has(&att, &enc(&opening.blinder)), "the blinder of the certificate leaves the prover");
    // Debug output does not show secrets.
    let dbg = format!("{:?} {:?}", w.secrets, w.secrets.identity_proof());
    check!(!dbg.contains(&hex::encode(&enc(&opening.blinder))) && !dbg.contains(&format!("{:?}", enc(&opening.blinder))), "debug output shows the blinder");
    Ok(())
}

pub fn c44() -> Check {
    Check {
        id: "C44",
        rule: "deals for which a presentation could be made",
        assumptions: &["hash functions hide what is hashed with a blinder"],
        laws: vec![law("privacy", cases(24_000), || (deal(), deal()), privacy)],
    }
}
