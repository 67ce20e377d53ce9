//! Whole sessions: prover, verifier, a scripted TLS 1.2 server and the
//! application on top of the prover, in one world.
use crate::{
    certs,
    net::{Idle, pipe, relay, End, Pipe, Sim, Slot, Tap},
};
use futures::{channel::oneshot, AsyncReadExt, AsyncWriteExt};
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, future::IntoFuture, rc::Rc, sync::Arc};
use tlsn::{
    config::{
        prove::ProveConfig,
        prover::ProverConfig,
        tls::TlsClientConfig,
        tls_commit::{
            mpc::{MpcTlsConfig, NetworkSetting},
            proxy::ProxyTlsConfig,
        },
        verifier::VerifierConfig,
    },
    connection::{DnsName, ServerName},
    hash::HashAlgId,
    prover::{ProverControl, ProverOutput, TlsConnection},
    rangeset::set::RangeSet,
    transcript::{Direction, TlsTranscript, Transcript, TranscriptCommitConfig, TranscriptCommitmentKind},
    verifier::{VerifierCommitStart, VerifierOutput},
    webpki::{CertificateDer, PrivateKeyDer, RootCertStore},
    Session,
};
use vpt::gen::filler;

pub const NAME: &str = "a.test";

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Limits {
    pub sent: u32,
    pub sent_records: Option<u8>,
    pub recv: u32,
    pub online: Option<u32>,
    pub recv_records: Option<u8>,
    pub defer: Option<bool>,
    pub bandwidth: bool,
}
impl Limits {
    pub fn config(&self) -> Result<MpcTlsConfig, String> {
        let mut b = MpcTlsConfig::builder().max_sent_data(self.sent as usize).max_recv_data(self.recv as usize);
        if let Some(n) = self.sent_records {
            b = b.max_sent_records(n as usize);
        }
        if let Some(n) = self.online {
            b = b.max_recv_data_online(n as usize);
        }
        if let Some(n) = self.recv_records {
            b = b.max_recv_records_online(n as usize);
        }
        if let Some(d) = self.defer {
            b = b.defer_decryption_from_start(d);
        }
        if self.bandwidth {
            b = b.network(NetworkSetting::Bandwidth);
        }
        b.build().map_err(|e| e.to_string())
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    Mpc(Limits),
    Proxy,
}

/// What the application does with its connection. In the end it reads until
/// the connection is closed.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum App {
    Write(u32),
    Flush,
    /// Waits until this much was read altogether.
    Read(u32),
    Decrypt(bool),
    /// Lets the others go first for a while.
    Nap(u16),
    /// Waits until nothing else goes on.
    Idle,
    /// Drops the connection.
    Drop,
    Close,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Srv {
    /// Waits until this much arrived altogether.
    Expect(u32),
    Send(u32),
    CloseNotify,
    /// Waits until the client closes.
    Wait,
    /// Waits until nothing else goes on.
    Idle,
    /// Raw bytes on the wire.
    Raw(vpt::gen::Bytes),
    Drop,
}

/// What the prover asks the verifier to accept.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub struct Prove {
    pub identity: bool,
    /// As parts of 65536 of the length.
    pub sent: Vec<(u16, u16)>,
    pub recv: Vec<(u16, u16)>,
    pub all_sent: bool,
    pub all_recv: bool,
    /// Received (or sent), ranges, algorithm.
    pub commits: Vec<(bool, Vec<(u16, u16)>, u8)>,
    pub accept: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    /// 0: the tasks take turns.
    pub seed: u64,
    pub frag: Option<u64>,
    pub cap: u32,
    pub mode: Mode,
    pub key: u8,
    pub depth: u8,
    pub max_fragment: Option<u16>,
    pub tickets: bool,
    pub client_auth: Option<u8>,
    pub app: Vec<App>,
    pub srv: Vec<Srv>,
    pub proves: Vec<Prove>,
}

pub fn range(r: (u16, u16), len: usize) -> std::ops::Range<usize> {
    let (a, b) = (r.0.min(r.1) as usize, r.0.max(r.1) as usize);
    (a * (len + 1) / 65536)..(b * (len + 1) / 65536)
}
pub fn ranges(rs: &[(u16, u16)], len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = rs.iter().flat_map(|r| range(*r, len)).collect();
    v.sort();
    v.dedup();
    v
}
pub fn to_set(v: &[usize]) -> RangeSet<usize> {
    let mut out: Vec<std::ops::Range<usize>> = vec![];
    for i in v {
        match out.last_mut() {
            Some(r) if r.end == *i => r.end += 1,
            _ => out.push(*i..*i + 1),
        }
    }
    RangeSet::from(out)
}
pub fn alg(n: u8) -> HashAlgId {
    match n % 3 {
        0 => HashAlgId::SHA256,
        1 => HashAlgId::BLAKE3,
        _ => HashAlgId::KECCAK256,
    }
}

impl Plan {
    /// What the application writes, and what the server writes.
    pub fn data(&self) -> (Vec<u8>, Vec<u8>) {
        let n = self.app.iter().map(|a| if let App::Write(n) = a { *n as usize } else { 0 }).sum();
        let m = self.srv.iter().map(|a| if let Srv::Send(n) = a { *n as usize } else { 0 }).sum();
        (filler(self.seed ^ 0xaaaa, n), filler(self.seed ^ 0xbbbb, m))
    }
    /// What the proof reveals of what was sent and received.
    pub fn reveal(p: &Prove, sent: usize, recv: usize) -> (Vec<usize>, Vec<usize>) {
        let all = |all, rs: &[(u16, u16)], n| if all { (0..n).collect() } else { ranges(rs, n) };
        (all(p.all_sent, &p.sent, sent), all(p.all_recv, &p.recv, recv))
    }
    pub fn prove_config(p: &Prove, t: &Transcript) -> Result<ProveConfig, String> {
        let e = |e: &dyn std::fmt::Display| format!("prove config: {e}");
        let mut b = ProveConfig::builder(t);
        if p.identity {
            b.server_identity();
        }
        if p.all_sent {
            b.reveal_sent_all().map_err(|x| e(&x))?;
        } else if !p.sent.is_empty() {
            b.reveal_sent(&to_set(&ranges(&p.sent, t.sent().len()))).map_err(|x| e(&x))?;
        }
        if p.all_recv {
            b.reveal_recv_all().map_err(|x| e(&x))?;
        } else if !p.recv.is_empty() {
            b.reveal_recv(&to_set(&ranges(&p.recv, t.received().len()))).map_err(|x| e(&x))?;
        }
        if !p.commits.is_empty() {
            let mut c = TranscriptCommitConfig::builder(t);
            for (recv, rs, a) in &p.commits {
                let (dir, n) = if *recv { (Direction::Received, t.received().len()) } else { (Direction::Sent, t.sent().len()) };
                let idx = ranges(rs, n);
                if idx.is_empty() {
                    continue;
                }
                c.commit_with_kind(&to_set(&idx), dir, TranscriptCommitmentKind::Hash { alg: alg(*a) }).map_err(|x| e(&x))?;
            }
            b.transcript_commit(c.build().map_err(|x| e(&x))?);
        }
        b.build().map_err(|x| e(&x))
    }
}

/// The indices, unless there are absurdly many.
fn few(s: &RangeSet<usize>) -> Vec<usize> {
    if s.iter().any(|r| r.end > 1 << 20) {
        return vec![usize::MAX];
    }
    s.iter().flatten().collect()
}

/// An error and the errors that caused it.
pub fn why(e: &(dyn std::error::Error + 'static)) -> String {
    let mut s = e.to_string();
    let mut at = e.source();
    while let Some(e) = at {
        s += &format!(": {e}");
        at = e.source();
    }
    s
}

#[derive(Default)]
pub struct AppOut {
    pub read: Vec<u8>,
    pub wrote: usize,
    pub err: Option<String>,
    /// The connection was closed at its end.
    pub eof: bool,
}
#[derive(Debug, Default)]
struct Secrets(std::sync::Mutex<Vec<(Vec<u8>, Vec<u8>)>>);
impl rustls::KeyLog for Secrets {
    fn log(&self, label: &str, random: &[u8], secret: &[u8]) {
        if label == "CLIENT_RANDOM" {
            self.0.lock().unwrap().push((random.to_vec(), secret.to_vec()));
        }
    }
}
pub struct SrvOut {
    /// The client's random and the master secret.
    pub secrets: Vec<(Vec<u8>, Vec<u8>)>,
    pub read: Vec<u8>,
    pub sent: usize,
    pub err: Option<String>,
    /// close_notify arrived.
    pub closed: bool,
    pub shaken: bool,
    /// How the name the client asked for.
    pub sni: Option<String>,
    pub client_certs: Vec<Vec<u8>>,
}
pub struct ProverOut {
    pub transcript: Transcript,
    pub tls: TlsTranscript,
    pub proofs: Vec<Result<ProverOutput, String>>,
    /// Configurations that could not be built.
    pub unbuilt: Vec<String>,
}
/// What the verifier was asked for.
pub struct Asked {
    pub identity: bool,
    pub reveal: Option<(Vec<usize>, Vec<usize>)>,
    /// Received (or sent), ranges, algorithm.
    pub commits: Vec<(bool, Vec<usize>, HashAlgId)>,
}
pub struct VerifierOut {
    pub tls: TlsTranscript,
    pub asked: Vec<Asked>,
    pub proofs: Vec<Result<VerifierOutput, String>>,
}
/// How far a party came, and its error.
#[derive(Debug, Clone, PartialEq)]
pub struct Failed {
    pub stage: &'static str,
    pub err: String,
}
pub struct Out {
    pub end: End,
    /// See `adapt`.
    pub held: Vec<Vec<u8>>,
    pub panics: Vec<(&'static str, String)>,
    pub prover: Option<Result<ProverOut, Failed>>,
    pub verifier: Option<Result<VerifierOut, Failed>>,
    pub app: Option<AppOut>,
    pub srv: Option<SrvOut>,
    pub drivers: [Option<Result<(), String>>; 2],
}
impl Out {
    /// For messages.
    pub fn brief(&self) -> String {
        let p = match &self.prover {
            None => "unfinished".into(),
            Some(Ok(p)) => format!("ok, proofs {:?}", p.proofs.iter().map(|p| p.as_ref().map(|_| ())).collect::<Vec<_>>()),
            Some(Err(e)) => format!("{e:?}"),
        };
        let v = match &self.verifier {
            None => "unfinished".into(),
            Some(Ok(p)) => format!("ok, proofs {:?}", p.proofs.iter().map(|p| p.as_ref().map(|_| ())).collect::<Vec<_>>()),
            Some(Err(e)) => format!("{e:?}"),
        };
        format!("end {:?}; panics {:?}; prover {p}; verifier {v}; drivers {:?}", self.end, self.panics, self.drivers)
    }
}

async fn nap(mut n: u16) {
    futures::future::poll_fn(|cx| {
        if n == 0 {
            return std::task::Poll::Ready(());
        }
        n -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    })
    .await
}

async fn app(plan: Plan, idle: Idle, rx: oneshot::Receiver<(TlsConnection, ProverControl)>) -> AppOut {
    let mut out = AppOut::default();
    let Ok((mut conn, control)) = rx.await else { return out };
    let (data, _) = plan.data();
    let mut b = vec![0u8; 16384];
    for s in &plan.app {
        let r = match s {
            App::Write(n) => {
                let part = &data[out.wrote..out.wrote + *n as usize];
                let r = conn.write_all(part).await;
                if r.is_ok() {
                    out.wrote += part.len();
                }
                r
            }
            App::Flush => conn.flush().await,
            App::Close => conn.close().await,
            App::Idle => {
                idle.wait().await;
                Ok(())
            }
            App::Drop => return out,
            App::Nap(n) => {
                nap(*n).await;
                Ok(())
            }
            App::Decrypt(d) => {
                control.enable_decryption(*d);
                Ok(())
            }
            App::Read(n) => {
                let mut r = Ok(());
                while out.read.len() < *n as usize {
                    match conn.read(&mut b).await {
                        Ok(0) => {
                            out.eof = true;
                            break;
                        }
                        Ok(n) => out.read.extend_from_slice(&b[..n]),
                        Err(e) => {
                            r = Err(e);
                            break;
                        }
                    }
                }
                r
            }
        };
        if let Err(e) = r {
            out.err.get_or_insert(format!("{s:?}: {e}"));
        }
    }
    loop {
        match conn.read(&mut b).await {
            Ok(0) => {
                out.eof = true;
                break;
            }
            Ok(n) => out.read.extend_from_slice(&b[..n]),
            Err(e) => {
                out.err.get_or_insert(format!("reading on: {e}"));
                break;
            }
        }
    }
    out
}

#[derive(Debug)]
struct AnyClient(Arc<rustls::crypto::CryptoProvider>);
impl rustls::server::danger::ClientCertVerifier for AnyClient {
    fn root_hint_subjects(&self) -> &[rustls::DistinguishedName] {
        &[]
    }
    fn verify_client_cert(
        &self,
        _: &rustls::pki_types::CertificateDer<'_>,
        _: &[rustls::pki_types::CertificateDer<'_>],
        _: rustls::pki_types::UnixTime,
    ) -> Result<rustls::server::danger::ClientCertVerified, rustls::Error> {
        Ok(rustls::server::danger::ClientCertVerified::assertion())
    }
    fn verify_tls12_signature(
        &self,
        m: &[u8],
        c: &rustls::pki_types::CertificateDer<'_>,
        d: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls12_signature(m, c, d, &self.0.signature_verification_algorithms)
    }
    fn verify_tls13_signature(
        &self,
        m: &[u8],
        c: &rustls::pki_types::CertificateDer<'_>,
        d: &rustls::DigitallySignedStruct,
    ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls13_signature(m, c, d, &self.0.signature_verification_algorithms)
    }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
        self.0.signature_verification_algorithms.supported_schemes()
    }
}

pub fn server_config(plan: &Plan) -> rustls::ServerConfig {
    let chain = certs::chain(plan.key, plan.depth, NAME).into_iter().map(Into::into).collect();
    let provider = Arc::new(rustls::crypto::ring::default_provider());
    let b = rustls::ServerConfig::builder_with_provider(provider.clone()).with_protocol_versions(&[&rustls::version::TLS12]).unwrap();
    let b = match plan.client_auth {
        None => b.with_no_client_auth(),
        Some(_) => b.with_client_cert_verifier(Arc::new(AnyClient(provider))),
    };
    let key = rustls::pki_types::PrivateKeyDer::Pkcs8(certs::secret(plan.key).into());
    let mut c = b.with_single_cert(chain, key).expect("server certificate");
    c.max_fragment_size = plan.max_fragment.map(|m| m.max(32) as usize);
    if !plan.tickets {
        c.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
    }
    c
}

async fn server(plan: Plan, idle: Idle, mut sock: Pipe) -> SrvOut {
    let mut out = SrvOut { secrets: vec![], read: vec![], sent: 0, err: None, closed: false, shaken: false, sni: None, client_certs: vec![] };
    let (_, data) = plan.data();
    let secrets = Arc::new(Secrets::default());
    let mut config = server_config(&plan);
    config.key_log = secrets.clone();
    let mut conn = rustls::ServerConnection::new(Arc::new(config)).expect("server");
    conn.set_buffer_limit(None);
    let mut eof = false;
    let mut steps = plan.srv.iter().cloned();
    let mut step = steps.next();
    loop {
        // What can be sent now.
        while conn.wants_write() {
            let mut w = vec![];
            conn.write_tls(&mut w).unwrap();
            if let Err(e) = sock.write_all(&w).await {
                out.err.get_or_insert(format!("write: {e}"));
                eof = true;
                break;
            }
        }
        if eof || out.err.is_some() {
            break;
        }
        if !conn.is_handshaking() {
            out.shaken = true;
            if out.sni.is_none() {
                out.sni = conn.server_name().map(|s| s.to_string());
                out.client_certs = conn.peer_certificates().unwrap_or(&[]).iter().map(|c| c.to_vec()).collect();
            }
            match &step {
                Some(Srv::Expect(n)) if out.read.len() < *n as usize && !out.closed => {}
                Some(Srv::Expect(_)) => {
                    step = steps.next();
                    continue;
                }
                Some(Srv::Send(n)) => {
                    use std::io::Write;
                    conn.writer().write_all(&data[out.sent..out.sent + *n as usize]).unwrap();
                    out.sent += *n as usize;
                    step = steps.next();
                    continue;
                }
                Some(Srv::Raw(b)) => {
                    if let Err(e) = sock.write_all(&b.0).await {
                        out.err.get_or_insert(format!("write: {e}"));
                        break;
                    }
                    step = steps.next();
                    continue;
                }
                Some(Srv::CloseNotify) => {
                    conn.send_close_notify();
                    step = steps.next();
                    continue;
                }
                Some(Srv::Wait) if !out.closed => {}
                Some(Srv::Idle) => {
                    idle.wait().await;
                    step = steps.next();
                    continue;
                }
                Some(Srv::Wait) => {
                    step = steps.next();
                    continue;
                }
                Some(Srv::Drop) | None => break,
            }
        }
        let mut b = vec![0u8; 16384];
        match sock.read(&mut b).await {
            Ok(0) => {
                eof = true;
                out.closed |= matches!(step, Some(Srv::Wait | Srv::Expect(_))) && out.shaken && out.closed;
            }
            Ok(n) => {
                let mut r = &b[..n];
                while !r.is_empty() && out.err.is_none() {
                    if let Err(e) = conn.read_tls(&mut r) {
                        out.err.get_or_insert(format!("read_tls: {e}"));
                        break;
                    }
                    match conn.process_new_packets() {
                        Ok(st) => {
                            use std::io::Read;
                            let at = out.read.len();
                            out.read.resize(at + st.plaintext_bytes_to_read(), 0);
                            conn.reader().read_exact(&mut out.read[at..]).unwrap();
                            out.closed |= st.peer_has_closed();
                        }
                        Err(e) => {
                            out.err.get_or_insert(format!("tls: {e}"));
                            let mut w = vec![];
                            while conn.wants_write() {
                                let _ = conn.write_tls(&mut w);
                            }
                            let _ = sock.write_all(&w).await;
                        }
                    }
                }
            }
            Err(e) => {
                out.err.get_or_insert(format!("read: {e}"));
            }
        }
    }
    out.secrets = std::mem::take(&mut *secrets.0.lock().unwrap());
    let _ = sock.close().await;
    out
}

fn roots() -> RootCertStore {
    RootCertStore { roots: vec![CertificateDer(certs::root())] }
}

macro_rules! st {
    ($e:expr, $s:literal) => {
        ($e).map_err(|e| Failed { stage: $s, err: why(&e) })?
    };
}

type Conn = oneshot::Sender<(TlsConnection, ProverControl)>;

async fn prover(plan: Plan, p: tlsn::prover::Prover, sock: Option<Pipe>, tx: Conn) -> Result<ProverOut, Failed> {
    let mut b = TlsClientConfig::builder().server_name(ServerName::Dns(DnsName::try_from(NAME).unwrap())).root_store(roots());
    if let Some(k) = plan.client_auth {
        let ch = certs::chain(k, 0, "client.test").into_iter().map(CertificateDer).collect();
        b = b.client_auth((ch, PrivateKeyDer(certs::secret(k))));
    }
    let cfg = b.build().map_err(|e| Failed { stage: "config", err: e.to_string() })?;
    let mut p = match &plan.mode {
        Mode::Mpc(l) => {
            let c = l.config().map_err(|e| Failed { stage: "config", err: e })?;
            let p = st!(p.commit(c).await, "commit");
            let (conn, p) = st!(p.connect(cfg, sock.unwrap()), "connect");
            let _ = tx.send((conn, p.control()));
            st!(p.into_future().await, "run")
        }
        Mode::Proxy => {
            let c = ProxyTlsConfig::builder().server_name(DnsName::try_from(NAME).unwrap()).build().unwrap();
            let p = st!(p.commit(c).await, "commit");
            let (conn, p) = st!(p.connect(cfg), "connect");
            let _ = tx.send((conn, p.control()));
            st!(p.into_future().await, "run")
        }
    };
    let mut out = ProverOut { transcript: p.transcript().clone(), tls: p.tls_transcript().clone(), proofs: vec![], unbuilt: vec![] };
    for pr in &plan.proves {
        match Plan::prove_config(pr, &out.transcript) {
            Err(e) => out.unbuilt.push(e),
            Ok(c) => out.proofs.push(p.prove(&c).await.map_err(|e| why(&e))),
        }
    }
    st!(p.close().await, "close");
    Ok(out)
}

async fn verifier(plan: Plan, v: tlsn::verifier::Verifier, sock: Option<Pipe>) -> Result<VerifierOut, Failed> {
    let mut v = match st!(v.commit().await, "commit") {
        VerifierCommitStart::Mpc(v) => {
            // What a verifier can afford is for it to say.
            let c = v.config();
            let sizes = [c.max_sent_data(), c.max_recv_data(), c.max_recv_data_online()];
            let records = [c.max_sent_records(), c.max_recv_records_online()];
            if sizes.iter().any(|n| *n > 1 << 16) || records.iter().flatten().any(|n| *n > 300) {
                let _ = v.reject(Some("too much")).await;
                return Err(Failed { stage: "policy", err: "too much".into() });
            }
            let v = st!(v.accept().await, "accept");
            st!(v.run().await, "run")
        }
        VerifierCommitStart::Proxy(v) => {
            let v = st!(v.accept().await, "accept");
            let Some(sock) = sock else { return Err(Failed { stage: "accept", err: "no socket".into() }) };
            st!(v.run(sock).await, "run")
        }
    };
    let mut out = VerifierOut { tls: v.tls_transcript().clone(), asked: vec![], proofs: vec![] };
    for pr in &plan.proves {
        let w = match v.verify().await {
            Ok(w) => w,
            Err(e) => {
                out.proofs.push(Err(why(&e)));
                return Ok(out);
            }
        };
        let r = w.request();
        out.asked.push(Asked {
            identity: r.server_identity(),
            reveal: r.reveal().map(|(s, r)| (few(s), few(r))),
            commits: r.transcript_commit().iter().flat_map(|c| c.iter_hash()).map(|(d, i, a)| (*d == Direction::Received, few(i), *a)).collect(),
        });
        if pr.accept {
            match w.accept().await {
                Ok((o, w)) => {
                    out.proofs.push(Ok(o));
                    v = w;
                }
                Err(e) => {
                    out.proofs.push(Err(why(&e)));
                    return Ok(out);
                }
            }
        } else {
            v = st!(w.reject(Some("not today")).await, "reject");
            out.proofs.push(Err("rejected".into()));
        }
    }
    st!(v.close().await, "close");
    Ok(out)
}

/// Messages between prover and verifier go through here.
pub type Taps = Option<Rc<RefCell<Box<Tap>>>>;
/// Bytes between the server and its client: 0 the client's, 1 the server's.
pub type Wire = dyn FnMut(usize, &mut Vec<u8>) -> bool;

async fn wire(side: usize, mut from: impl futures::AsyncRead + Unpin, mut to: impl futures::AsyncWrite + Unpin, f: Rc<RefCell<Box<Wire>>>) {
    let mut b = vec![0u8; 16384];
    loop {
        let n = match from.read(&mut b).await {
            Ok(0) | Err(_) => break,
            Ok(n) => n,
        };
        let mut v = b[..n].to_vec();
        let go = (f.borrow_mut())(side, &mut v);
        if to.write_all(&v).await.is_err() || !go {
            break;
        }
    }
    let _ = to.close().await;
}

pub const POLLS: usize = 400_000;

pub fn run(plan: &Plan, tap: Taps, wires: Option<Rc<RefCell<Box<Wire>>>>) -> Out {
    mpzsim::ideal_vm::adapt(false);
    let mut sim = Sim::new(plan.seed);
    let cap = plan.cap.max(1) as usize;
    let frag = |k: u64| plan.frag.map(|f| f ^ k);
    // Prover <-> verifier.
    let (pa, va) = pipe(cap, frag(1));
    let (pio, vio) = match tap {
        None => (pa, va),
        Some(t) => {
            let (x, vb) = pipe(cap, frag(2));
            let (a, b) = va.split();
            let (c, d) = x.split();
            sim.spawn("relay", false, relay(0, a, d, t.clone()));
            sim.spawn("relay", false, relay(1, c, b, t));
            (pa, vb)
        }
    };
    // Client <-> server.
    let (c, s) = pipe(cap, frag(3));
    let (cio, sio) = match wires {
        None => (c, s),
        Some(f) => {
            let (x, sb) = pipe(cap, frag(4));
            let (a, b) = s.split();
            let (e, d) = x.split();
            sim.spawn("wire", false, wire(0, a, d, f.clone()));
            sim.spawn("wire", false, wire(1, e, b, f));
            (c, sb)
        }
    };
    let mut sp = Session::new(pio);
    let mut sv = Session::new(vio);
    let p = sp.new_prover(ProverConfig::builder().build().unwrap()).expect("prover");
    let v = sv.new_verifier(VerifierConfig::builder().root_store(roots()).build().unwrap()).expect("verifier");
    let (pd, ph) = sp.split();
    let (vd, vh) = sv.split();
    let pd = sim.spawn("prover's driver", true, async move { pd.await.map(|_| ()).map_err(|e| why(&e)) });
    let vd = sim.spawn("verifier's driver", true, async move { vd.await.map(|_| ()).map_err(|e| why(&e)) });
    let (tx, rx) = oneshot::channel();
    let (psock, vsock) = match plan.mode {
        Mode::Mpc(_) => (Some(cio), None),
        Mode::Proxy => (None, Some(cio)),
    };
    let srv = sim.spawn("server", true, server(plan.clone(), sim.idle.clone(), sio));
    let app = sim.spawn("app", true, app(plan.clone(), sim.idle.clone(), rx));
    let q = plan.clone();
    let po: Slot<_> = sim.spawn("prover", true, async move {
        let r = prover(q, p, psock, tx).await;
        ph.close();
        r
    });
    let q = plan.clone();
    let vo: Slot<_> = sim.spawn("verifier", true, async move {
        let r = verifier(q, v, vsock).await;
        vh.close();
        r
    });
    let end = sim.run(POLLS);
    let held = mpzsim::ideal_vm::held();
    mpzsim::ideal_vm::adapt(false);
    Out {
        end,
        held,
        panics: std::mem::take(&mut sim.panics),
        prover: po.take(),
        verifier: vo.take(),
        app: app.take(),
        srv: srv.take(),
        drivers: [pd.take(), vd.take()],
    }
}
