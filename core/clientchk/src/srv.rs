//! A TLS 1.2 server that follows a script, and the driver that runs the client
//! under test against it.

use crate::{wire::*, x509gen::*};
use mpcclient::{
    client::{self, ClientConfig, ClientConnection, RootCertStore, ServerName},
    crypt::{self, Keys},
    leader::{Event, Shared},
    MpcTlsLeader,
};
use serde::{Deserialize, Serialize};
use std::{
    io::Write,
    sync::{Arc, Mutex},
};
use tls_core::key::{Certificate, PrivateKey};
use vpt::gen::Bytes;

thread_local! {
    static DERS: std::cell::RefCell<std::collections::HashMap<String, Vec<u8>>> = Default::default();
}
/// The same certificate has the same bytes.
pub fn der(c: &Cert) -> Vec<u8> {
    let k = format!("{c:?}");
    DERS.with(|d| {
        let mut d = d.borrow_mut();
        if d.len() > 2000 {
            d.clear();
        }
        d.entry(k).or_insert_with(|| c.der()).clone()
    })
}

pub const NB: i64 = 1_600_000_000;
pub const NA: i64 = 2_500_000_000;

pub fn ca(subject: u8, issuer: u8, key: u8, signer: u8) -> Cert {
    Cert { subject, issuer, key, signer, sig: natural(keys()[signer as usize].kind)[0], nb: NB, na: NA, bc: Some((true, None)), eku: None, sans: vec![], nc: None, unknown: None, tamper: None }
}
pub fn leaf(key: u8, issuer: u8, signer: u8, names: &[&str]) -> Cert {
    let mut l = ca(10, issuer, key, signer);
    l.bc = None;
    l.sans = names.iter().map(|n| San::Dns(n.to_string())).collect();
    l
}
pub const ROOT: u8 = 2;
pub fn root() -> Cert {
    ca(30, 30, ROOT, ROOT)
}
/// Leaf first.
pub fn chain(key: u8, depth: u8, names: &[&str]) -> Vec<Cert> {
    let mut v = vec![];
    let (mut issuer, mut signer) = (30u8, ROOT);
    for i in 0..depth {
        v.insert(0, ca(20 + i, issuer, 4 + i, signer));
        (issuer, signer) = (20 + i, 4 + i);
    }
    v.insert(0, leaf(key, issuer, signer, names));
    v
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Auth {
    pub key: u8,
    pub depth: u8,
}

/// How the client is configured.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Cli {
    pub seed: u64,
    pub name: String,
    pub sni: bool,
    pub alpn: Vec<Bytes>,
    pub frag: Option<u32>,
    pub auth: Option<Auth>,
}

impl Default for Cli {
    fn default() -> Self {
        Cli { seed: 1, name: "a.test".into(), sni: true, alpn: vec![], frag: None, auth: None }
    }
}

pub struct Made {
    pub conn: ClientConnection,
    pub shared: Arc<Mutex<Shared>>,
}

pub fn config(c: &Cli, trusted: &[Vec<u8>]) -> Result<ClientConfig, String> {
    let mut store = RootCertStore::empty();
    for t in trusted {
        let d = rustls_pki_types::CertificateDer::from(t.clone());
        store.roots.push(webpki::anchor_from_trusted_cert(&d).map_err(|e| format!("harness: root: {e}"))?.to_owned());
    }
    let mut cfg = match &c.auth {
        None => ClientConfig::new(store),
        Some(a) => {
            let ch = chain(a.key, a.depth, &["client.test"]).iter().map(|x| Certificate(der(x))).collect();
            let sk = keys()[a.key as usize].pkey.private_key_to_pkcs8().unwrap();
            ClientConfig::new_with_client_auth(store, ch, PrivateKey(sk)).map_err(|e| format!("client key refused: {e}"))?
        }
    };
    cfg.alpn_protocols = c.alpn.iter().map(|a| a.0.clone()).collect();
    cfg.max_fragment_size = c.frag.map(|f| f as usize);
    cfg.enable_sni = c.sni;
    Ok(cfg)
}

pub fn make(c: &Cli, trusted: &[Vec<u8>]) -> Result<Made, String> {
    let cfg = config(c, trusted)?;
    let (leader, shared) = MpcTlsLeader::standin(c.seed);
    let name = ServerName::try_from(c.name.as_str()).map_err(|_| "harness: name")?;
    let conn = ClientConnection::new(Arc::new(cfg), leader, name).map_err(|e| format!("new: {e}"))?;
    Ok(Made { conn, shared })
}

/// What the signature in ServerKeyExchange is computed over and with.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum SigFault {
    None,
    ClientRandom(u16),
    ServerRandom(u16),
    Params(u16),
    /// Another key of the same kind.
    Key,
    /// Signed with a scheme other than the one named.
    Named(u16),
    Bit(u16),
    Empty,
    Truncate,
    /// Only the parameters are signed, without the randoms.
    NoRandoms,
    /// The randoms in the other order.
    Swapped,
    /// One of the randoms is left out.
    NoClient,
    NoServer,
    /// Signed with another key of P-256, which may be one of the chain's
    /// authorities or of a certificate added to the chain.
    Signer(u8, bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    ServerHello,
    Certificate,
    Status,
    Kx,
    CertReq,
    Done,
    HelloReq,
    Ticket,
    Ccs,
    Finished,
    Alert(u8, u8),
    App(Bytes),
    /// A handshake message of any type.
    Hs(u8, Bytes),
    /// A record of any type.
    Record(u8, Bytes),
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum FinFault {
    None,
    Bit(u8),
    ClientLabel,
    Echo,
    /// Transcript with this byte changed.
    Transcript(u32),
    /// Transcript without its last or first message.
    DropLast,
    DropFirst,
    Length(u8),
    Zero,
    OtherMaster,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Req {
    pub types: Bytes,
    pub schemes: Vec<u16>,
    pub names: Vec<Bytes>,
}

/// Everything the server sends in the handshake.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Srv {
    pub seed: u64,
    pub version: u16,
    pub rec_version: u16,
    pub random_tail: Option<Bytes>,
    pub session: Bytes,
    pub suite: u16,
    pub comp: u8,
    pub exts: Option<Vec<(u16, Bytes)>>,
    pub chain: Vec<Cert>,
    pub junk_cert: Option<(u8, Bytes)>,
    pub key: u8,
    pub scheme: (u16, Sig),
    pub sig_fault: SigFault,
    pub curve_type: u8,
    pub group: u16,
    /// In place of the server's public key.
    pub point: Option<Bytes>,
    pub status: Bytes,
    pub req: Req,
    pub fin: FinFault,
    pub flight1: Vec<Step>,
    pub flight2: Vec<Step>,
    /// Sizes at which handshake data is cut into records; 0 means one record
    /// for each message.
    pub cuts: Vec<u16>,
    /// Sizes of network reads.
    pub chunks: Vec<u16>,
}

pub fn suite_of(key: u8) -> u16 {
    if key < 12 {
        0xc02b
    } else {
        0xc02f
    }
}

impl Srv {
    pub fn honest(seed: u64, key: u8, scheme: u8, depth: u8) -> Self {
        let k = crate::sess::pick_scheme(key, scheme, false);
        Srv {
            seed,
            version: 0x0303,
            rec_version: 0x0303,
            random_tail: None,
            session: Bytes(vec![]),
            suite: suite_of(key),
            comp: 0,
            exts: Some(vec![(0xff01, Bytes(vec![0])), (11, Bytes(vec![1, 0]))]),
            chain: chain(key, depth, &["a.test", "*.a.test"]),
            junk_cert: None,
            key,
            scheme: (k.scheme, k.sig),
            sig_fault: SigFault::None,
            curve_type: 3,
            group: 23,
            point: None,
            status: Bytes(vec![9; 20]),
            req: Req { types: Bytes(vec![64, 1]), schemes: vec![0x0403, 0x0804], names: vec![] },
            fin: FinFault::None,
            flight1: vec![Step::ServerHello, Step::Certificate, Step::Kx, Step::Done],
            flight2: vec![Step::Ccs, Step::Finished],
            cuts: vec![0],
            chunks: vec![20000],
        }
    }
}

/// What the client was seen to do.
#[derive(Default)]
pub struct Seen {
    pub hello: Option<Hello>,
    pub hello_msg: Vec<u8>,
    /// Plaintext records of the client, in order.
    pub plain: Vec<Rec>,
    /// Handshake messages of the client after ClientHello.
    pub hs: Vec<(u8, Vec<u8>)>,
    pub ccs: bool,
    /// Decrypted records after the change of cipher.
    pub enc: Vec<Rec>,
    pub bad: Option<String>,
    /// Alerts in the clear.
    pub alerts: Vec<(u8, u8)>,
}

pub struct Session {
    pub c: ClientConnection,
    pub shared: Arc<Mutex<Shared>>,
    pub srv: Srv,
    pub seen: Seen,
    pub err: Option<client::Error>,
    pub keys: Option<Keys>,
    ecdh: crypt::Ecdh,
    pub random: Vec<u8>,
    pub transcript: Vec<Vec<u8>>,
    inbuf: Vec<u8>,
    hsbuf: Vec<u8>,
    rseq: u64,
    wseq: u64,
    encrypting: bool,
    pub got: Vec<u8>,
    chunk_at: usize,
    pub client_vd: Option<Vec<u8>>,
    /// Everything the server put on the wire.
    pub wire: Vec<u8>,
    /// When set, the bytes are not delivered.
    pub hold: bool,
    /// Steps delivered without an error of the client.
    pub passed: usize,
    pub max_write: usize,
    written: usize,
}

pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    futures::executor::block_on(f)
}

struct Part<'a>(&'a mut Vec<u8>, usize);
impl Write for Part<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        let mut n = 0;
        for b in bufs {
            let k = b.len().min(self.1 - n);
            self.0.extend(&b[..k]);
            n += k;
            if n == self.1 {
                break;
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Session {
    pub fn new(m: Made, srv: Srv) -> Self {
        let mut random = crypt::sha256(&[&b"server random"[..], &srv.seed.to_be_bytes()].concat()).to_vec();
        if let Some(t) = &srv.random_tail {
            let n = t.len().min(32);
            random[32 - n..].copy_from_slice(&t[..n]);
        }
        Session {
            c: m.conn,
            shared: m.shared,
            ecdh: crypt::Ecdh::new(&[&b"server key"[..], &srv.seed.to_be_bytes()].concat()),
            srv,
            seen: Seen::default(),
            err: None,
            keys: None,
            random,
            transcript: vec![],
            inbuf: vec![],
            hsbuf: vec![],
            rseq: 0,
            wseq: 0,
            encrypting: false,
            got: vec![],
            chunk_at: 0,
            client_vd: None,
            wire: vec![],
            hold: false,
            passed: 0,
            max_write: usize::MAX,
            written: 0,
        }
    }

    pub fn start(&mut self) -> Result<(), String> {
        block(self.c.start()).map_err(|e| format!("start: {e}"))?;
        self.collect();
        match self.seen.hello {
            Some(_) => Ok(()),
            None => Err("no ClientHello".into()),
        }
    }

    /// Takes what the client wants to send.
    pub fn collect(&mut self) {
        while self.c.wants_write() {
            let mut p = Part(&mut self.inbuf, self.max_write);
            let n = self.c.write_tls(&mut p).unwrap();
            self.written += n;
            if n == 0 {
                self.seen.bad.get_or_insert("wants_write but nothing written".into());
                break;
            }
        }
        for r in records(&mut self.inbuf) {
            if self.seen.ccs {
                let Some(k) = &self.keys else {
                    self.seen.bad.get_or_insert("record after ChangeCipherSpec, no keys".into());
                    continue;
                };
                let Some(p) = crypt::open(k, 0, self.rseq, r.0, r.1, &r.2) else {
                    self.seen.bad.get_or_insert("client's record does not decrypt".into());
                    continue;
                };
                self.rseq += 1;
                self.seen.enc.push(Rec(r.0, r.1, p.clone()));
                if r.0 == 22 && self.client_vd.is_none() {
                    let want = crypt::prf(&k.master, b"client finished", &crypt::sha256(&self.transcript.concat()), 12);
                    if p != hs(20, &want) {
                        self.seen.bad.get_or_insert("client's Finished is wrong".into());
                    }
                    self.client_vd = Some(want);
                    self.transcript.push(p);
                }
                continue;
            }
            self.seen.plain.push(r.clone());
            match r.0 {
                22 => {
                    self.hsbuf.extend(&r.2);
                    self.take_hs();
                }
                20 => {
                    if r.2 != [1] || !self.hsbuf.is_empty() {
                        self.seen.bad.get_or_insert("bad ChangeCipherSpec".into());
                    }
                    self.seen.ccs = true;
                }
                21 => {
                    if r.2.len() == 2 {
                        self.seen.alerts.push((r.2[0], r.2[1]));
                    } else {
                        self.seen.bad.get_or_insert("bad alert".into());
                    }
                }
                _ => {
                    self.seen.bad.get_or_insert(format!("record type {} in the clear", r.0));
                }
            }
        }
    }

    fn take_hs(&mut self) {
        while self.hsbuf.len() >= 4 {
            let n = u32::from_be_bytes([0, self.hsbuf[1], self.hsbuf[2], self.hsbuf[3]]) as usize;
            if self.hsbuf.len() < 4 + n {
                return;
            }
            let m: Vec<u8> = self.hsbuf.drain(..4 + n).collect();
            let (typ, body) = (m[0], m[4..].to_vec());
            self.transcript.push(m.clone());
            if self.seen.hello.is_none() {
                match (typ, Hello::parse(&body)) {
                    (1, Some(h)) => {
                        self.seen.hello = Some(h);
                        self.seen.hello_msg = m;
                    }
                    _ => {
                        self.seen.bad.get_or_insert("ClientHello does not parse".into());
                    }
                }
                continue;
            }
            if typ == 16 {
                let mut r = Rd(&body);
                match r.vec(1).and_then(|p| self.ecdh.shared(p)).filter(|_| r.0.is_empty()) {
                    Some(pms) => self.keys = Some(crypt::derive_keys(&pms, &self.seen.hello.as_ref().unwrap().random, &self.random)),
                    None => {
                        self.seen.bad.get_or_insert("bad ClientKeyExchange".into());
                    }
                }
            }
            self.seen.hs.push((typ, body));
        }
    }

    pub fn kx_params(&self) -> Vec<u8> {
        let p = self.srv.point.as_ref().map(|p| p.0.clone()).unwrap_or_else(|| self.ecdh.public.clone());
        w().u8(self.srv.curve_type).u16(self.srv.group).vec(1, &p).0
    }

    fn kx(&self) -> Vec<u8> {
        let params = self.kx_params();
        let mut cr = self.seen.hello.as_ref().unwrap().random.clone();
        let mut sr = self.random.clone();
        let mut over = params.clone();
        let flip = |v: &mut Vec<u8>, b: u16| {
            let b = b as usize % (v.len() * 8);
            v[b / 8] ^= 1 << (b % 8);
        };
        let mut key = self.srv.key as usize;
        let mut named = self.srv.scheme.0;
        match &self.srv.sig_fault {
            SigFault::ClientRandom(b) => flip(&mut cr, *b),
            SigFault::ServerRandom(b) => flip(&mut sr, *b),
            SigFault::Params(b) => flip(&mut over, *b),
            SigFault::Key => {
                let kind = keys()[key].kind;
                key = (0..keys().len()).find(|k| *k != key && keys()[*k].kind == kind).unwrap();
            }
            SigFault::Named(n) => named = *n,
            SigFault::Signer(k, _) => key = *k as usize,
            _ => {}
        }
        let mut alg = self.srv.scheme.1;
        if let SigFault::Signer(..) = self.srv.sig_fault {
            (named, alg) = (0x0403, Sig::Ecdsa(Hsh::Sha256));
        }
        let msg = match self.srv.sig_fault {
            SigFault::NoRandoms => over,
            SigFault::Swapped => [sr, cr, over].concat(),
            SigFault::NoClient => [sr, over].concat(),
            SigFault::NoServer => [cr, over].concat(),
            _ => [cr, sr, over].concat(),
        };
        let mut sig = sign(key, alg, &msg).expect("fits");
        match self.srv.sig_fault {
            SigFault::Bit(b) => flip(&mut sig, b),
            SigFault::Empty => sig.clear(),
            SigFault::Truncate => {
                sig.pop();
            }
            _ => {}
        }
        w().raw(&params).u16(named).vec(2, &sig).0
    }

    /// The message of a step; type, payload and whether it is a handshake message.
    pub fn message(&mut self, s: &Step) -> (u8, Vec<u8>) {
        let v = &self.srv;
        let m = match s {
            Step::ServerHello => {
                let mut x = w().u16(v.version).raw(&self.random).vec(1, &v.session).u16(v.suite).u8(v.comp);
                if let Some(e) = &v.exts {
                    let b = e.iter().fold(w(), |a, (t, b)| a.u16(*t).vec(2, b)).0;
                    x = x.vec(2, &b);
                }
                hs(2, &x.0)
            }
            Step::Certificate => {
                let mut certs: Vec<Vec<u8>> = v.chain.iter().map(der).collect();
                if let Some((at, j)) = &v.junk_cert {
                    let at = (*at as usize).min(certs.len());
                    certs.insert(at, j.0.clone());
                }
                let b = certs.iter().fold(w(), |a, c| a.vec(3, c)).0;
                hs(11, &w().vec(3, &b).0)
            }
            Step::Status => hs(22, &w().u8(1).vec(3, &v.status).0),
            Step::Kx => hs(12, &self.kx()),
            Step::CertReq => {
                let s = v.req.schemes.iter().fold(w(), |a, s| a.u16(*s)).0;
                let n = v.req.names.iter().fold(w(), |a, s| a.vec(2, s)).0;
                hs(13, &w().vec(1, &v.req.types).vec(2, &s).vec(2, &n).0)
            }
            Step::Done => hs(14, &[]),
            Step::HelloReq => hs(0, &[]),
            Step::Ticket => hs(4, &w().raw(&[0, 0, 1, 0]).vec(2, b"ticket").0),
            Step::Finished => hs(20, &self.finished()),
            Step::Ccs => return (20, vec![1]),
            Step::Alert(l, d) => return (21, vec![*l, *d]),
            Step::App(b) => return (23, b.0.clone()),
            Step::Hs(t, b) => hs(*t, b),
            Step::Record(t, b) => return (*t, b.0.clone()),
        };
        (22, m)
    }

    fn finished(&self) -> Vec<u8> {
        let Some(k) = &self.keys else { return vec![0; 12] };
        let mut t = self.transcript.clone();
        let mut master = k.master.clone();
        let mut label: &[u8] = b"server finished";
        match &self.srv.fin {
            FinFault::ClientLabel => label = b"client finished",
            FinFault::Echo => return self.client_vd.clone().unwrap_or(vec![0; 12]),
            FinFault::Transcript(b) => {
                let mut all = t.concat();
                let i = *b as usize % (all.len() * 8);
                all[i / 8] ^= 1 << (i % 8);
                t = vec![all];
            }
            FinFault::DropLast => {
                t.pop();
            }
            FinFault::DropFirst => {
                t.remove(0);
            }
            FinFault::Zero => return vec![0; 12],
            FinFault::OtherMaster => master[47] ^= 1,
            _ => {}
        }
        let h = crypt::sha256(&t.concat());
        let mut v = crypt::prf(&master, label, &h, 12);
        match self.srv.fin {
            FinFault::Bit(b) => v[b as usize / 8 % 12] ^= 1 << (b % 8),
            FinFault::Length(n) => v = crypt::prf(&master, label, &h, n as usize),
            _ => {}
        }
        v
    }

    /// Puts payload of a type on the wire, in the current epoch.
    pub fn emit(&mut self, typ: u8, payload: &[u8]) -> Vec<u8> {
        let body = match (&self.keys, self.encrypting) {
            (Some(k), true) => {
                let seq = self.wseq;
                self.wseq += 1;
                let ex = crypt::sha256(&[&seq.to_be_bytes()[..], &self.srv.seed.to_be_bytes()].concat())[..8].try_into().unwrap();
                crypt::seal(k, 1, seq, ex, typ, 0x0303, payload)
            }
            _ => payload.to_vec(),
        };
        let v = if self.encrypting { 0x0303 } else { self.srv.rec_version };
        Rec(typ, v, body).bytes()
    }

    /// Bytes of a sequence of steps; handshake messages are cut as scripted.
    pub fn encode(&mut self, steps: &[Step]) -> Vec<u8> {
        let mut out = vec![];
        let mut run: Vec<Vec<u8>> = vec![];
        let mut cut = 0;
        for s in steps {
            let (typ, m) = self.message(s);
            if typ == 22 && !matches!(s, Step::Record(..)) {
                // HelloRequest is not part of the handshake hash.
                if !matches!(s, Step::HelloReq) {
                    self.transcript.push(m.clone());
                }
                run.push(m);
                continue;
            }
            self.flush_run(&mut run, &mut out, &mut cut);
            let e = self.emit(typ, &m);
            out.extend(e);
            if typ == 20 && m == [1] {
                self.encrypting = true;
            }
        }
        self.flush_run(&mut run, &mut out, &mut cut);
        out
    }

    fn flush_run(&mut self, run: &mut Vec<Vec<u8>>, out: &mut Vec<u8>, cut: &mut usize) {
        let mut pend: Vec<u8> = vec![];
        for m in run.drain(..).collect::<Vec<_>>() {
            if self.srv.cuts.iter().all(|c| *c == 0) {
                for part in if m.is_empty() { vec![&m[..]] } else { m.chunks(16000).collect() } {
                    let e = self.emit(22, part);
                    out.extend(e);
                }
            } else {
                pend.extend(m);
            }
        }
        while !pend.is_empty() {
            let c = self.srv.cuts[*cut % self.srv.cuts.len()] as usize;
            *cut += 1;
            let n = if c == 0 { continue } else { c.min(pend.len()).min(16000) };
            let part: Vec<u8> = pend.drain(..n).collect();
            let e = self.emit(22, &part);
            out.extend(e);
        }
    }

    /// Gives bytes to the client, in chunks; stops at the first error.
    pub fn deliver(&mut self, bytes: &[u8]) -> bool {
        self.wire.extend(bytes);
        if self.hold {
            return true;
        }
        let mut at = 0;
        while at < bytes.len() {
            let n = (self.srv.chunks[self.chunk_at % self.srv.chunks.len()] as usize).max(1).min(bytes.len() - at);
            self.chunk_at += 1;
            let mut rd = &bytes[at..at + n];
            at += n;
            while !rd.is_empty() {
                match self.c.read_tls(&mut rd) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(e) => {
                        self.err = Some(client::Error::General(format!("read_tls: {e}")));
                        return false;
                    }
                }
                if !self.process() {
                    return false;
                }
            }
        }
        true
    }

    pub fn process(&mut self) -> bool {
        let r = block(self.c.process_new_packets());
        let (queued, w) = (self.c.wants_write(), self.written);
        self.collect();
        if let Ok(io) = &r {
            let (n, m) = (io.tls_bytes_to_write(), self.written - w);
            if n != m || queued != (n > 0) {
                self.seen.bad.get_or_insert(format!("{n} bytes to write reported, {m} written"));
            }
        }
        let before = self.got.len();
        let mut buf = [0; 4096];
        loop {
            let n = self.c.read_plaintext(&mut buf).unwrap();
            if n == 0 {
                break;
            }
            self.got.extend(&buf[..n]);
        }
        match r {
            Ok(io) => {
                let (n, m) = (io.plaintext_bytes_to_read(), self.got.len() - before);
                if n != m || !self.c.plaintext_is_empty() {
                    self.seen.bad.get_or_insert(format!("{n} bytes to read reported, {m} read"));
                }
                true
            }
            Err(e) => {
                self.err = Some(e);
                false
            }
        }
    }

    pub fn send(&mut self, steps: &[Step]) -> bool {
        let b = self.encode(steps);
        self.deliver(&b)
    }

    /// Sends steps one by one, each delivered before the next is made.
    pub fn send_each(&mut self, steps: &[Step]) -> bool {
        for s in steps {
            if !self.send(std::slice::from_ref(s)) {
                return false;
            }
            self.passed += 1;
        }
        true
    }

    /// Both flights.
    pub fn handshake(&mut self) -> bool {
        let (f1, f2) = (self.srv.flight1.clone(), self.srv.flight2.clone());
        self.send(&f1) && self.send(&f2)
    }

    pub fn complete(&self) -> bool {
        !self.c.is_handshaking()
    }
    pub fn log(&self) -> Vec<Event> {
        self.shared.lock().unwrap().log.clone()
    }
    pub fn prepared(&self) -> bool {
        self.log().iter().any(|e| matches!(e, Event::Prepare { .. }))
    }
    /// Whether the client sent anything that depends on the key exchange.
    pub fn exchanged(&self) -> bool {
        self.prepared() || self.seen.ccs || self.seen.hs.iter().any(|m| m.0 == 16)
    }
}
