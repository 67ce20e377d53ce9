//! C52: whole sessions through the SDK: an HTTP exchange and what is disclosed of it.

use futures::{AsyncReadExt, AsyncWriteExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::Digest;
use std::{collections::BTreeMap, ops::Range, sync::Arc, time::Duration};
use tlsn_sdk_core::{
    Body, Commit, CommitRange, HashAlgorithm, HttpRequest, HttpResponse, Method, NetworkSetting, ProverConfig, ProverMode, Reveal, RevealOutput, SdkProver, SdkVerifier, Transcript, VerifierConfig, VerifierOutput,
};
use vpt::{cases, check, check_eq, fail, gen::Bytes, law, CaseResult, Check, Cx};

use crate::{certs, msg::*, net::{pipe, Pipe}};

pub const NAME: &str = "a.example.com";

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum ReqBody {
    None,
    Raw(Bytes),
    Text(String),
    Json(J),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pick {
    sent: bool,
    from: u16,
    to: u16,
    alg: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Plan {
    proxy: bool,
    method: u8,
    uri: String,
    headers: Vec<(String, String)>,
    body: ReqBody,
    resp: Msg,
    /// The server sends its answer in portions of these sizes.
    portions: Vec<u16>,
    /// It closes the connection after its answer.
    closes: bool,
    online: bool,
    bandwidth: bool,
    reveal: Vec<Pick>,
    commit: Vec<Pick>,
    /// A commitment asked for again.
    again: Option<u8>,
    identity: bool,
    key: u8,
    /// The client authenticates itself: with a certificate in DER, PEM or a chain of both.
    auth: Option<u8>,
    cap: u16,
    frag: Option<u64>,
}

fn pick() -> impl Strategy<Value = Pick> {
    (any::<bool>(), prop_oneof![Just(0), any::<u16>()], prop_oneof![Just(u16::MAX), any::<u16>()], 0u8..3).prop_map(|(sent, from, to, alg)| Pick { sent, from, to, alg })
}

fn plan() -> impl Strategy<Value = Plan> {
    let req = (
        0u8..4,
        prop_oneof![Just("/".to_string()), "/[a-z0-9/._~-]{0,20}(\\?[a-z=&%2]{0,10})?", Just(format!("https://{NAME}/x"))],
        prop::collection::vec(("[A-Za-z][A-Za-z0-9-]{0,12}", "[!-~]([ -~]{0,20}[!-~])?"), 0..4),
        prop_oneof![
            2 => Just(ReqBody::None),
            1 => vpt::gen::bytes(0..200).prop_map(ReqBody::Raw),
            1 => "[ -~]{0,60}".prop_map(ReqBody::Text),
            1 => json().prop_map(ReqBody::Json),
        ],
    );
    let net = (prop_oneof![Just(16u16), Just(300), Just(u16::MAX)], prop::option::of(any::<u64>()));
    (
        (any::<bool>(), req, msg(), prop::collection::vec(prop_oneof![1u16..60, Just(u16::MAX)], 1..4), any::<bool>(), any::<bool>(), any::<bool>()),
        (prop::collection::vec(pick(), 0..4), prop::collection::vec(pick(), 0..5), prop::option::weighted(0.3, any::<u8>()), any::<bool>(), prop::sample::select(vec![0u8, 12]), prop::option::weighted(0.3, 0u8..3), net),
    )
        .prop_map(|((proxy, (method, uri, headers, body), resp, portions, closes, online, bandwidth), (reveal, commit, again, identity, key, auth, (cap, frag)))| {
            let mut hs: Vec<(String, String)> = vec![];
            let taken = ["content-length", "transfer-encoding", "connection", "te", "upgrade", "trailer", "expect", "host", "date", "keep-alive"];
            for (n, v) in headers {
                let l = n.to_ascii_lowercase();
                if !taken.contains(&&*l) && hs.iter().all(|h| !h.0.eq_ignore_ascii_case(&n)) {
                    hs.push((n, v));
                }
            }
            Plan { proxy, method, uri, headers: hs, body, resp, portions, closes, online, bandwidth, reveal, commit, again, identity, key, auth, cap, frag }
        })
}

fn to_json(j: &J) -> serde_json::Value {
    match j {
        J::Null => serde_json::Value::Null,
        J::Bool(b) => (*b).into(),
        J::Num(n) => serde_json::from_str(n).unwrap_or(0.into()),
        J::Str(s) => s.clone().into(),
        J::Arr(v) => v.iter().map(to_json).collect::<Vec<_>>().into(),
        J::Obj(v) => serde_json::Value::Object(v.iter().map(|(k, j)| (k.clone(), to_json(j))).collect()),
    }
}

const METHODS: [(Method, &str); 4] = [(Method::GET, "GET"), (Method::POST, "POST"), (Method::PUT, "PUT"), (Method::DELETE, "DELETE")];

const CLIENT_KEY: u8 = 1;

impl Plan {
    /// The client's certificates, in DER and as configured.
    fn certs(&self) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
        let Some(a) = self.auth else { return (vec![], vec![]) };
        let ders = certs::chain(CLIENT_KEY, (a == 2) as u8, "client.test");
        let pem = |d: &Vec<u8>| openssl::x509::X509::from_der(d).unwrap().to_pem().unwrap();
        let v = ders.iter().enumerate().map(|(i, d)| if a == 0 || a == 2 && i == 0 { d.clone() } else { pem(d) }).collect();
        (ders, v)
    }
    fn request(&self) -> (HttpRequest, Vec<u8>) {
        let mut r = HttpRequest::new(METHODS[self.method as usize].0, self.uri.clone());
        for (n, v) in &self.headers {
            r = r.header(n.clone(), v.as_bytes());
        }
        match &self.body {
            ReqBody::None => (r, vec![]),
            ReqBody::Raw(b) => (r.body(Body::Raw(b.0.clone())), b.0.clone()),
            ReqBody::Text(t) => (r.body(Body::Json(t.clone().into())), t.clone().into_bytes()),
            ReqBody::Json(J::Str(s)) => (r.json(s).unwrap(), s.clone().into_bytes()),
            ReqBody::Json(j) => {
                let v = to_json(j);
                (r.json(&v).unwrap(), serde_json::to_vec(&v).unwrap())
            }
        }
    }
}

const ALGS: [HashAlgorithm; 3] = [HashAlgorithm::Blake3, HashAlgorithm::Sha256, HashAlgorithm::Keccak256];
pub fn hash(alg: HashAlgorithm, d: &[u8]) -> Vec<u8> {
    match alg {
        HashAlgorithm::Sha256 => sha2::Sha256::digest(d).to_vec(),
        HashAlgorithm::Blake3 => blake3::hash(d).as_bytes().to_vec(),
        HashAlgorithm::Keccak256 => {
            use tiny_keccak::Hasher;
            let mut k = tiny_keccak::Keccak::v256();
            let mut o = vec![0; 32];
            k.update(d);
            k.finalize(&mut o);
            o
        }
    }
}

pub struct Served {
    read: Vec<u8>,
    client_certs: Vec<Vec<u8>>,
    err: Option<String>,
}

fn complete(b: &[u8]) -> bool {
    let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return false };
    let head = String::from_utf8_lossy(&b[..h]).to_ascii_lowercase();
    let n = head.lines().find_map(|l| l.strip_prefix("content-length:")).map_or(0, |v| v.trim().parse::<usize>().unwrap_or(0));
    b.len() >= h + 4 + n
}

#[derive(Debug)]
struct AnyClient(Arc<rustls::crypto::CryptoProvider>);
impl rustls::server::danger::ClientCertVerifier for AnyClient {
    fn root_hint_subjects(&self) -> &[rustls::DistinguishedName] {
        &[]
    }
    fn verify_client_cert(
        &self,
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &[rustls::pki_types::CertificateDer<'_>],
        _: rustls::pki_types::UnixTime,
    ) -> Result<rustls::server::danger::ClientCertVerified, rustls::Error> {
        Ok(rustls::server::danger::ClientCertVerified::assertion())
    }
    fn verify_tls12_signature(
        &self,
        m: &[u8],
        c: &rustls::pki_types::CertificateDer<'_>,
        d: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls12_signature(m, c, d, &self.0.signature_verification_algorithms)
    }
    fn verify_tls13_signature(
        &self,
        m: &[u8],
        c: &rustls::pki_types::CertificateDer<'_>,
        d: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls13_signature(m, c, d, &self.0.signature_verification_algorithms)
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        self.0.signature_verification_algorithms.supported_schemes()
    }
}

/// An HTTPS server for one exchange.
pub async fn server(mut sock: Pipe, key: u8, auth: bool, answer: Vec<u8>, portions: Vec<u16>, closes: bool) -> Served {
    use std::io::{Read, Write};
    let chain = certs::chain(key, 0, NAME).into_iter().map(Into::into).collect();
    let provider = Arc::new(rustls::crypto::ring::default_provider());
    let b = rustls::ServerConfig::builder_with_provider(provider.clone()).with_protocol_versions(&[&rustls::version::TLS12]).unwrap();
    let b = if auth { b.with_client_cert_verifier(Arc::new(AnyClient(provider))) } else { b.with_no_client_auth() };
    let c = b.with_single_cert(chain, rustls::pki_types::PrivateKeyDer::Pkcs8(certs::secret(key).into())).expect("server certificate");
    let mut conn = rustls::ServerConnection::new(Arc::new(c)).expect("server");
    conn.set_buffer_limit(None);
    let mut out = Served { read: vec![], client_certs: vec![], err: None };
    let (mut at, mut i, mut answered, mut closed) = (0, 0, false, false);
    'all: loop {
        if !answered && complete(&out.read) {
            out.client_certs = conn.peer_certificates().unwrap_or(&[]).iter().map(|c| c.to_vec()).collect();
            while at < answer.len() {
                // At most a hundred records.
                let n = (portions[i % portions.len()] as usize).max(answer.len() / 100 + 1).min(answer.len() - at);
                i += 1;
                conn.writer().write_all(&answer[at..at + n]).unwrap();
                at += n;
            }
            if closes {
                conn.send_close_notify();
            }
            answered = true;
        }
        while conn.wants_write() {
            let mut w = vec![];
            conn.write_tls(&mut w).unwrap();
            if let Err(e) = sock.write_all(&w).await {
                if !answered {
                    out.err = Some(format!("write: {e}"));
                }
                break 'all;
            }
        }
        if closed || (answered && closes) {
            break;
        }
        let mut b = vec![0u8; 16384];
        let n = match sock.read(&mut b).await {
            Ok(n) if n > 0 => n,
            _ => break,
        };
        let mut r = &b[..n];
        while !r.is_empty() {
            conn.read_tls(&mut r).unwrap();
            match conn.process_new_packets() {
                Ok(st) => {
                    let at = out.read.len();
                    out.read.resize(at + st.plaintext_bytes_to_read(), 0);
                    conn.reader().read_exact(&mut out.read[at..]).unwrap();
                    if st.peer_has_closed() {
                        conn.send_close_notify();
                        closed = true;
                    }
                }
                Err(e) => {
                    out.err = Some(format!("tls: {e}"));
                    break 'all;
                }
            }
        }
    }
    let _ = sock.close().await;
    out
}

type Done = (HttpResponse, Transcript, Vec<Range<usize>>, Vec<Range<usize>>, Vec<CommitRange>, Vec<CommitRange>, RevealOutput);

fn range(p: &Pick, len: usize) -> Range<usize> {
    let (a, b) = (p.from as usize * len / u16::MAX as usize, p.to as usize * len / u16::MAX as usize);
    if a <= b { a..b } else { b..a }
}

async fn prover(plan: Plan, io: Pipe, srv: Option<Pipe>) -> Result<Done, String> {
    let e = |s: &'static str| move |e: tlsn_sdk_core::SdkError| format!("prover, {s}: {e}");
    let mut b = ProverConfig::builder(NAME).max_sent_data(2048).max_recv_data(4096).max_sent_records(20).root_certs(vec![certs::root()]);
    if plan.online {
        b = b.defer_decryption_from_start(false).max_recv_data_online(4096).max_recv_records_online(200);
    }
    if plan.auth.is_some() {
        b = b.client_auth(plan.certs().1, certs::secret(CLIENT_KEY));
    }
    let b = b.network(if plan.bandwidth { NetworkSetting::Bandwidth } else { NetworkSetting::Latency }).mode(if plan.proxy { ProverMode::Proxy } else { ProverMode::Mpc });
    let mut p = SdkProver::new(b.build().map_err(e("config"))?).map_err(e("new"))?;
    p.setup(io).await.map_err(e("setup"))?;
    let (req, _) = plan.request();
    let resp = match srv {
        Some(s) => p.send_request_mpc(s, req).await,
        None => p.send_request_proxy(req).await,
    }
    .map_err(e("request"))?;
    let t = p.transcript().map_err(e("transcript"))?;
    let mut r = Reveal::new().server_identity(plan.identity);
    let (mut rs, mut rr) = (vec![], vec![]);
    for k in &plan.reveal {
        if k.sent {
            let x = range(k, t.sent.len());
            r = r.sent(x.clone());
            rs.push(x);
        } else {
            let x = range(k, t.recv.len());
            r = r.recv(x.clone());
            rr.push(x);
        }
    }
    let (mut cs, mut cr) = (vec![], vec![]);
    for k in &plan.commit {
        let x = range(k, if k.sent { t.sent.len() } else { t.recv.len() });
        if !x.is_empty() {
            let c = CommitRange { start: x.start, end: x.end, algorithm: ALGS[k.alg as usize] };
            if k.sent { &mut cs } else { &mut cr }.push(c);
        }
    }
    if let Some(a) = plan.again {
        for v in [&mut cs, &mut cr] {
            if !v.is_empty() {
                v.push(v[a as usize % v.len()].clone());
            }
        }
    }
    let c = (!cs.is_empty() || !cr.is_empty()).then(|| Commit { sent: cs.clone(), recv: cr.clone() });
    let o = p.reveal(r, c).await.map_err(e("reveal"))?;
    if !p.is_complete() {
        return Err("prover: not complete".into());
    }
    Ok((resp, t, rs, rr, cs, cr, o))
}

async fn verifier(plan: Plan, io: Pipe, srv: Option<Pipe>) -> Result<VerifierOutput, String> {
    let e = |s: &'static str| move |e: tlsn_sdk_core::SdkError| format!("verifier, {s}: {e}");
    let c = VerifierConfig::builder().max_sent_records(20).max_recv_records_online(200).root_certs(vec![certs::root()]).build().map_err(e("config"))?;
    let mut v = SdkVerifier::new(c);
    v.connect(io).await.map_err(e("connect"))?;
    let name = v.setup().await.map_err(e("setup"))?;
    if name.as_deref() != plan.proxy.then_some(NAME) {
        return Err(format!("verifier, setup: server name {name:?}"));
    }
    if let Some(s) = srv {
        v.set_server_socket(s).map_err(e("socket"))?;
    }
    v.run().await.map_err(e("run"))?;
    let o = v.verify().await.map_err(e("verify"))?;
    if !v.is_complete() {
        return Err("verifier: not complete".into());
    }
    Ok(o)
}

/// Runs a future on a clock that jumps ahead when nothing else is left to do.
pub fn run<T>(f: impl std::future::Future<Output = T>) -> Option<T> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let set = tokio::task::LocalSet::new();
    set.block_on(&rt, async { tokio::time::timeout(Duration::from_secs(3600), f).await.ok() })
}

/// Starts a task of its own, which only runs when it is woken.
pub fn task<T: 'static>(f: impl std::future::Future<Output = T> + 'static) -> impl std::future::Future<Output = T> {
    let h = tokio::task::spawn_local(f);
    async move { h.await.unwrap_or_else(|e| std::panic::resume_unwind(e.into_panic())) }
}

/// Same names and values, in the same order for each name.
fn by_name<'a>(h: impl Iterator<Item = (String, &'a [u8])>) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for (n, v) in h {
        m.entry(n.to_ascii_lowercase()).or_default().push(v.to_vec());
    }
    m
}

fn union(rs: &[Range<usize>]) -> Set {
    let mut s = Set::default();
    rs.iter().filter(|r| !r.is_empty()).for_each(|r| s.union_mut(r.clone()));
    s
}

fn test(plan: &Plan, cx: &mut Cx) -> CaseResult {
    let mut answer = vec![];
    let at = render(&plan.resp, false, true, &mut answer);
    // Data which is decrypted only once the connection was closed cannot tell the client to close
    // it. Without a length or chunks the body ends with the connection.
    let closes = plan.closes || !plan.proxy && !plan.online || at.headers.iter().all(|h| !matches!(&*h.name.to_ascii_lowercase(), "content-length" | "transfer-encoding")) && !matches!(plan.resp.code, 204 | 304);
    cx.label(if plan.proxy { "proxy" } else { "MPC" });
    cx.label_if(closes, "the server closes");
    cx.label_if(plan.online, "decrypted online");
    cx.label_if(plan.auth.is_some(), "client authentication");
    cx.nontrivial(true);
    let cap = plan.cap as usize;
    let (pio, vio) = pipe(cap, plan.frag);
    let (cio, sio) = pipe(cap, plan.frag.map(|f| f ^ 77));
    let (ps, vs) = if plan.proxy { (None, Some(cio)) } else { (Some(cio), None) };
    let all = run(async {
        let p = task(prover(plan.clone(), pio, ps));
        let v = task(verifier(plan.clone(), vio, vs));
        let s = task(server(sio, plan.key, plan.auth.is_some(), answer.clone(), plan.portions.clone(), closes));
        futures::join!(p, v, s)
    });
    let Some((p, v, s)) = all else { fail!("the session gets stuck") };
    if let Some(e) = &s.err {
        fail!("server: {e}; prover {:?}; verifier {:?}", p.as_ref().err(), v.as_ref().err());
    }
    let (resp, t, rs, rr, cs, cr, out) = match (&p, &v) {
        (Ok(p), Ok(_)) => p,
        _ => fail!("prover {:?}; verifier {:?}", p.as_ref().err(), v.as_ref().err()),
    };
    let v = v.as_ref().unwrap();
    cx.label_if(cs.len() > 1 || cr.len() > 1, "several commitments of one direction");
    cx.label_if(plan.again.is_some() && cs.len() + cr.len() > 1, "a commitment asked for twice");

    // The exchange.
    check!(s.client_certs == plan.certs().0, "the client's certificates are not the ones configured");
    check!(t.sent == s.read, "the transcript's sent data is not what the server got");
    check!(t.recv == answer, "the transcript's received data is not what the server sent");
    let head = s.read.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(s.read.len());
    let text = String::from_utf8_lossy(&s.read[..head]).into_owned();
    let mut lines = text.split("\r\n");
    check_eq!(lines.next().unwrap_or(""), format!("{} {} HTTP/1.1", METHODS[plan.method as usize].1, plan.uri), "request line");
    let got = by_name(lines.filter_map(|l| l.split_once(':')).map(|(n, v)| (n.to_string(), v.trim().as_bytes())).filter(|(n, _)| !n.eq_ignore_ascii_case("content-length")));
    let want = by_name(plan.headers.iter().map(|(n, v)| (n.clone(), v.as_bytes())));
    check_eq!(got, want, "request headers");
    check!(s.read.get(head + 4..) == Some(&plan.request().1[..]), "the request body is not the one given");
    check_eq!(resp.status, plan.resp.code, "status");
    let got = by_name(resp.headers.iter().map(|(n, v)| (n.clone(), &v[..])));
    let want = by_name(at.headers.iter().map(|h| (h.name.clone(), &answer[h.value.clone()])));
    check_eq!(got, want, "response headers");
    let content: Vec<u8> = at.pos.iter().map(|p| answer[*p]).collect();
    check!(resp.body.clone().unwrap_or_default() == content, "the response body is not the one sent");
    check!(resp.body.is_none() == content.is_empty(), "an absent body is not told from an empty one");

    // What the verifier learns.
    check_eq!(v.server_name.as_deref(), plan.identity.then_some(NAME), "server name");
    check_eq!((v.connection_info.transcript_length.sent, v.connection_info.transcript_length.recv), (t.sent.len(), t.recv.len()), "lengths");
    check!(matches!(v.connection_info.version, tlsn_sdk_core::TlsVersion::V1_2), "version");
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    check!(now.abs_diff(v.connection_info.time) < 120, "time");
    let (ws, wr) = (union(rs), union(rr));
    match &v.transcript {
        None => check!(ws.is_empty() && wr.is_empty(), "revealed data is missing"),
        Some(x) => {
            check_eq!((union(&x.sent_authed), union(&x.recv_authed)), (ws, wr), "authenticated ranges");
            for (name, got, truth, auth) in [("sent", &x.sent, &t.sent, &x.sent_authed), ("received", &x.recv, &t.recv, &x.recv_authed)] {
                check_eq!(got.len(), truth.len(), "length of the partial transcript");
                let a = union(auth);
                for i in 0..got.len() {
                    let want = if a.contains(&i) { truth[i] } else { 0 };
                    check!(got[i] == want, "byte {i} {name} is {} instead of {want}", got[i]);
                }
            }
        }
    }

    // The openings, one for each commitment asked for, in their order.
    for (name, open, ask, truth) in [("sent", &out.sent, cs, &t.sent), ("received", &out.recv, cr, &t.recv)] {
        check_eq!(open.len(), ask.len(), "number of openings");
        for (i, (o, c)) in open.iter().zip(ask).enumerate() {
            check_eq!(o.blinder.len(), 16, "blinder length");
            let mut d = truth[c.range()].to_vec();
            d.extend(&o.blinder);
            check!(o.hash == hash(c.algorithm, &d), "opening {i} of the data {name} is not one of commitment {i}");
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Limits {
    /// What the prover asks for: bytes sent and received, records sent and received.
    ask: (u16, u16, Option<u8>, Option<u8>),
    may: (u16, u16, Option<u8>, Option<u8>),
}

fn limits() -> impl Strategy<Value = Limits> {
    let n = || prop_oneof![Just(200u16), Just(1000), Just(1001), 100u16..2000];
    let r = || prop::option::weighted(0.6, prop_oneof![Just(8u8), Just(9), 4u8..20]);
    ((n(), n(), r(), r()), (n(), n(), r(), r()), prop::array::uniform4(0u8..3)).prop_map(|(ask, mut may, near)| {
        // Often just at, or one below, what is asked for.
        let f = |k: u8, ask: u16, may: u16| match k { 0 => ask, 1 => ask - 1, _ => may };
        may.0 = f(near[0], ask.0, may.0);
        may.1 = if near[1] == 2 { ask.1.saturating_add(50) } else { f(near[1], ask.1, may.1) };
        if near[2] == 0 { may.2 = ask.2 }
        if near[3] == 0 { may.3 = ask.3 }
        Limits { ask, may }
    })
}

/// The number of application data records there are by default (mpc-tls, default_record_count).
fn limits_test(l: &Limits, cx: &mut Cx) -> CaseResult {
    let over = |a: Option<u8>, b: Option<u8>| matches!((a, b), (Some(a), Some(b)) if a > b);
    let refuse = l.ask.0 > l.may.0 || l.ask.1 > l.may.1 || over(l.ask.2, l.may.2) || over(l.ask.3, l.may.3);
    cx.nontrivial(true);
    cx.label(if refuse { "refused" } else { "accepted" });
    // Left open: a limit on records where the prover leaves their number to the default.
    let open = l.ask.2.is_none() && l.may.2.is_some() || l.ask.3.is_none() && l.may.3.is_some();
    cx.label_if(l.ask.2.is_some() && l.may.2.is_none() || l.ask.3.is_some() && l.may.3.is_none(), "records asked for, no limit");
    let (pio, vio) = pipe(4096, None);
    let r = run(async {
        let ask = l.ask;
        let may = l.may;
        futures::join!(
            async move {
                let mut b = ProverConfig::builder(NAME).max_sent_data(ask.0 as usize).max_recv_data(ask.1 as usize).root_certs(vec![certs::root()]);
                if let Some(n) = ask.2 {
                    b = b.max_sent_records(n as usize);
                }
                if let Some(n) = ask.3 {
                    b = b.max_recv_records_online(n as usize);
                }
                let mut p = SdkProver::new(b.build().unwrap()).unwrap();
                let r = p.setup(pio).await;
                (r.map_err(|e| e.to_string()), p)
            },
            async move {
                let mut b = VerifierConfig::builder().max_sent_data(may.0 as usize).max_recv_data(may.1 as usize).root_certs(vec![certs::root()]);
                if let Some(n) = may.2 {
                    b = b.max_sent_records(n as usize);
                }
                if let Some(n) = may.3 {
                    b = b.max_recv_records_online(n as usize);
                }
                let mut v = SdkVerifier::new(b.build().unwrap());
                v.connect(vio).await.map_err(|e| e.to_string())?;
                let r = v.setup().await.map_err(|e| e.to_string());
                Ok::<_, String>((r, v))
            },
        )
    });
    let Some(((p, _), v)) = r else { fail!("the setup gets stuck") };
    let (v, _) = v?;
    check_eq!(p.is_ok(), v.is_ok(), "both agree that the session may go on");
    if open && !refuse {
        return Ok(());
    }
    check_eq!(v.is_ok(), !refuse, "accepted ({:?}, {:?})", p.err(), v.as_ref().err());
    Ok(())
}

pub fn c52() -> Check {
    Check {
        id: "C52",
        rule: "a session is run",
        assumptions: &[
            "the MPC building blocks are ideal stand-ins (core/shims); TLS 1.2 server is rustls 0.22 over ring, HTTP client hyper, as in the code under test",
            "the case where the verifier limits the number of records and the prover leaves it to the default is not judged",
        ],
        laws: vec![law("exchange", cases(2500), plan, test), law("limits", cases(600), limits, limits_test)],
    }
}
