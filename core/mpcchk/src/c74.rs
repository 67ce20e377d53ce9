//! The two-party TLS engine on its own: key exchange, PRF and record layer
//! driven by any order of records and flushes.
use crate::{certs, net::*, tls12::*, x509gen};
use mpc_tls::{Config, MpcTlsFollower, MpcTlsLeader, SessionKeys, Vm};
use mpzsim::{
    common::{Context, Fate, Hub, Tap},
    core::Block,
    ideal_vm::IdealVm,
    ot::ideal::rcot::ideal_rcot,
    vm::prelude::*,
};
use openssl::{
    hash::MessageDigest,
    sign::Signer,
    symm::{decrypt_aead, encrypt_aead, Cipher, Crypter, Mode},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, rc::Rc, sync::Arc};
use tls_core::{
    key::{Certificate, PublicKey},
    msgs::{
        base::Payload,
        enums::{ContentType, NamedGroup, ProtocolVersion, SignatureScheme},
        handshake::DigitallySignedStruct,
        message::{OpaqueMessage, PlainMessage},
    },
};
use tlsn_core::{
    connection::CertBinding,
    transcript::{ContentType as Typ, Record, TlsTranscript},
};
use vpt::{cases, check, check_eq, fail, gen::filler, law, CaseResult, Check, Cx};

// ---- TLS 1.2 ----

#[derive(Debug, Clone)]
pub struct Keys {
    pub ms: Vec<u8>,
    /// Client, server.
    pub key: [Vec<u8>; 2],
    pub iv: [Vec<u8>; 2],
}
impl Keys {
    pub fn new(pms: &[u8], cr: &[u8; 32], sr: &[u8; 32]) -> Self {
        let ms = prf(pms, "master secret", &[&cr[..], &sr[..]].concat(), 48);
        let k = prf(&ms, "key expansion", &[&sr[..], &cr[..]].concat(), 40);
        Keys { ms, key: [k[..16].to_vec(), k[16..32].to_vec()], iv: [k[32..36].to_vec(), k[36..].to_vec()] }
    }
    pub fn finished(&self, server: bool, hash: &[u8]) -> Vec<u8> {
        let vd = prf(&self.ms, if server { "server finished" } else { "client finished" }, hash, 12);
        [&[20, 0, 0, 12], &vd[..]].concat()
    }
    fn aad(seq: u64, typ: u8, len: usize) -> Vec<u8> {
        [&seq.to_be_bytes()[..], &[typ, 3, 3], &(len as u16).to_be_bytes()].concat()
    }
    pub fn seal(&self, side: usize, seq: u64, nonce: [u8; 8], typ: u8, data: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let mut tag = vec![0; 16];
        let iv = [&self.iv[side][..], &nonce].concat();
        let c = encrypt_aead(Cipher::aes_128_gcm(), &self.key[side], Some(&iv), &Self::aad(seq, typ, data.len()), data, &mut tag).unwrap();
        (c, tag)
    }
    pub fn open(&self, side: usize, seq: u64, nonce: &[u8], typ: u8, ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
        let iv = [&self.iv[side][..], nonce].concat();
        decrypt_aead(Cipher::aes_128_gcm(), &self.key[side], Some(&iv), &Self::aad(seq, typ, ct.len()), ct, tag).ok()
    }
    /// Without a look at the tag.
    pub fn stream(&self, side: usize, nonce: &[u8], ct: &[u8]) -> Vec<u8> {
        let iv = [&self.iv[side][..], nonce, &[0, 0, 0, 2]].concat();
        let mut c = Crypter::new(Cipher::aes_128_ctr(), Mode::Encrypt, &self.key[side], Some(&iv)).unwrap();
        let mut out = vec![0; ct.len() + 16];
        let n = c.update(ct, &mut out).unwrap();
        out.truncate(n);
        out
    }
}
// ---- cases ----

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    App,
    CloseNotify,
    Warning,
    Hello,
}
impl Kind {
    fn typ(self) -> u8 {
        match self {
            Kind::App => 23,
            Kind::CloseNotify | Kind::Warning => 21,
            Kind::Hello => 22,
        }
    }
    fn data(self, len: u16, salt: u8) -> Vec<u8> {
        match self {
            Kind::App => filler(salt as u64, len as usize),
            Kind::CloseNotify => vec![1 + (len % 2) as u8, 0],
            Kind::Warning => vec![1, 1 + salt % 120],
            Kind::Hello => vec![0; 4],
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Bad {
    Tag(u8, u8),
    Text(u16, u8),
    Nonce(u8, u8),
    /// Made for another place in the order.
    Seq(u8),
    /// Made as a record of another type.
    Typ(u8),
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Out(Kind, u16),
    In(Kind, u16, Option<Bad>),
    Flush,
    Online(bool),
    Traffic,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Engine {
    /// Of the order in which the parties run.
    pub seed: u64,
    pub key: u8,
    pub random: u8,
    pub hash: u8,
    pub cert: u8,
    pub defer: bool,
    pub bandwidth: bool,
    pub max_sent: u16,
    pub max_recv: u16,
    pub online: u16,
    pub sent_records: Option<u8>,
    pub recv_records: Option<u8>,
    /// Which of the first steps come together.
    pub start: u8,
    /// Changes of the Finished messages.
    pub wrong: Option<(bool, u8, u8)>,
    pub ops: Vec<Op>,
}
fn op(max: u16, bad: bool) -> impl Strategy<Value = Op> + Clone {
    let len = prop_oneof![6 => 0u16..50, 3 => prop::sample::select(vec![15u16, 16, 17, 32, 48, 64, 255, 256]), 1 => 0..max];
    let kind = prop_oneof![9 => Just(Kind::App), 1 => Just(Kind::CloseNotify), 1 => Just(Kind::Warning), 1 => Just(Kind::Hello)];
    let bads = prop_oneof![
        (0u8..16, 1u8..).prop_map(|(a, b)| Bad::Tag(a, b)),
        (any::<u16>(), 1u8..).prop_map(|(a, b)| Bad::Text(a, b)),
        (0u8..8, 1u8..).prop_map(|(a, b)| Bad::Nonce(a, b)),
        (1u8..4).prop_map(Bad::Seq),
        prop::sample::select(vec![20u8, 21, 22, 23]).prop_map(Bad::Typ),
    ];
    let bads = if bad { prop_oneof![5 => Just(None), 1 => bads.prop_map(Some)].boxed() } else { Just(None).boxed() };
    prop_oneof![
        4 => (kind.clone(), len.clone()).prop_map(|(k, l)| Op::Out(k, l)),
        5 => (kind, len, bads).prop_map(|(k, l, b)| Op::In(k, l, b)),
        4 => Just(Op::Flush),
        1 => any::<bool>().prop_map(Op::Online),
        1 => Just(Op::Traffic),
    ]
}
/// With `tight` limits close to what is needed, otherwise more than enough.
pub fn engine(max: u16, bad: bool, tight: bool) -> impl Strategy<Value = Engine> + Clone {
    let limit = |n: i32| if tight { n - 20..n + 20 } else { n + 20..n + 400 };
    (
        (any::<u64>(), any::<u8>(), any::<u8>(), any::<u8>(), 0u8..6, any::<bool>(), any::<bool>(), 0u8..4),
        prop::collection::vec(op(max, bad), 0..12),
        (limit(0), limit(0), limit(0), limit(0), limit(0), 0u8..4),
        if bad { prop::option::weighted(0.1, (any::<bool>(), 4u8..16, 1u8..)).boxed() } else { Just(None).boxed() },
    )
        .prop_map(move |((seed, key, random, hash, cert, defer, bandwidth, start), mut ops, (a, b, c, d, e, which), wrong)| {
            if !bad && !tight {
                ops.insert(0, Op::Traffic);
                // The last record decides how the connection ended.
                ops.push(Op::Out(if seed % 2 == 0 { Kind::App } else { Kind::CloseNotify }, 9));
                ops.push(Op::In(if seed % 3 == 0 { Kind::CloseNotify } else { Kind::App }, 9, None));
            }
            let at = |f: fn(&Op) -> Option<usize>| -> i32 { ops.iter().filter_map(f).sum::<usize>() as i32 };
            let sent = at(|o| matches!(o, Op::Out(..)).then(|| size(o)));
            let recv = at(|o| matches!(o, Op::In(..)).then(|| size(o)));
            let outs = ops.iter().filter(|o| matches!(o, Op::Out(..))).count() as i32;
            let ins = ops.iter().filter(|o| matches!(o, Op::In(..))).count() as i32;
            let lim = |n: i32, d: i32| (n + d).max(0) as u16;
            // One limit is close at a time.
            let far = |k: u8, d: i32| if tight && which != k { d.abs() + 40 } else { d };
            let max_recv = lim(recv, far(1, b));
            Engine {
                seed: seed >> 8,
                key,
                random,
                hash,
                cert,
                defer,
                bandwidth,
                max_sent: lim(sent, far(0, a)),
                max_recv,
                online: lim(recv, far(2, c)).min(max_recv),
                sent_records: Some(if tight && which == 3 { (outs + d / 6).clamp(0, 60) as u8 } else { outs as u8 }),
                recv_records: Some(if tight && which == 3 { (ins + e / 6).clamp(0, 60) as u8 } else { ins as u8 }),
                start,
                wrong,
                ops,
            }
        })
}
fn size(o: &Op) -> usize {
    match o {
        Op::Out(k, l) | Op::In(k, l, _) => k.data(*l, 0).len(),
        _ => 0,
    }
}
const CERT_KEYS: [u8; 6] = [0, 1, 3, 6, 12, 13];

// ---- what happens ----

/// What the leader did and saw.
#[derive(Debug, Default)]
pub struct Seen {
    pub cr: [u8; 32],
    pub client: Vec<u8>,
    /// Records to the server, in order.
    pub out: Vec<OpaqueMessage>,
    /// Plaintexts for the client, in order.
    pub inc: Vec<PlainMessage>,
    /// The step that failed, by number, and how.
    pub fail: Option<(usize, String)>,
    pub vds: [Vec<u8>; 2],
}
pub struct Done {
    pub transcript: TlsTranscript,
    pub keys: Vec<Vec<u8>>,
}
pub struct Ran {
    pub end: End,
    pub panics: Vec<(&'static str, String)>,
    pub seen: Rc<RefCell<Seen>>,
    pub leader: Option<Result<Done, String>>,
    pub follower: Option<Result<Done, String>>,
}
impl Engine {
    fn config(&self) -> Config {
        let mut b = Config::builder();
        b.defer_decryption(self.defer).max_sent(self.max_sent as usize).max_recv(self.max_recv as usize).max_recv_online(self.online as usize);
        if let Some(n) = self.sent_records {
            b.max_sent_records(n as usize);
        }
        if let Some(n) = self.recv_records {
            b.max_recv_records_online(n as usize);
        }
        if self.bandwidth {
            b.low_bandwidth();
        }
        b.build().unwrap()
    }
    pub fn sr(&self) -> [u8; 32] {
        hmac(&[self.random], &[b"random"]).try_into().unwrap()
    }
    pub fn hash(&self, server: bool) -> Vec<u8> {
        hmac(&[self.hash, server as u8], &[b"hash"])
    }
    pub fn keys(&self, s: &Seen) -> Keys {
        Keys::new(&shared(&ephemeral(self.key).0, &s.client), &s.cr, &self.sr())
    }
    /// The Finished messages, as they are sent.
    pub fn finished(&self, keys: &Keys) -> [Vec<u8>; 2] {
        let mut f = [keys.finished(false, &self.hash(false)), keys.finished(true, &self.hash(true))];
        if let Some((server, at, x)) = self.wrong {
            f[server as usize][at as usize % 16] ^= x;
        }
        f
    }
}
async fn reveal(ctx: &mut Context, vm: &Vm, k: &SessionKeys) -> Result<Vec<Vec<u8>>, String> {
    let mut vm = vm.try_lock().map_err(|e| e.to_string())?;
    let e = |e: mpzsim::vm::VmError| format!("keys: {e}");
    let mut a = vec![];
    let mut b = vec![];
    for k in [k.client_write_key, k.server_write_key, k.server_write_mac_key] {
        a.push(vm.decode(k).map_err(e)?);
    }
    for k in [k.client_write_iv, k.server_write_iv] {
        b.push(vm.decode(k).map_err(e)?);
    }
    vm.execute_all(ctx).await.map_err(e)?;
    let mut out = vec![];
    for k in a {
        out.push(k.await.map_err(|e| format!("{e:?}"))?.to_vec());
    }
    for k in b {
        out.push(k.await.map_err(|e| format!("{e:?}"))?.to_vec());
    }
    Ok(out)
}
/// The steps of the leader before its ops.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Prepare,
    ClientVd,
    ServerVd,
    FinOut,
    FinIn,
    Op(Op),
    Close,
}
impl Engine {
    pub fn steps(&self) -> Vec<Step> {
        use Step::*;
        let f = Op(self::Op::Flush);
        let mut v = match self.start {
            0 => vec![Prepare, ClientVd, FinOut, f, ServerVd, FinIn, f],
            1 => vec![Prepare, ClientVd, FinOut, ServerVd, FinIn, f],
            2 => vec![Prepare, ServerVd, FinIn, f, ClientVd, FinOut, f],
            _ => vec![Prepare, ClientVd, ServerVd, FinIn, FinOut],
        };
        v.extend(self.ops.iter().map(|o| Op(*o)));
        v.extend([f, Close]);
        v
    }
}
fn message(typ: u8, data: Vec<u8>) -> PlainMessage {
    PlainMessage { typ: ContentType::from(typ), version: ProtocolVersion::TLSv1_2, payload: Payload::new(data) }
}
fn record(typ: u8, nonce: &[u8], ct: &[u8], tag: &[u8]) -> OpaqueMessage {
    OpaqueMessage { typ: ContentType::from(typ), version: ProtocolVersion::TLSv1_2, payload: Payload::new([nonce, ct, tag].concat()) }
}
pub fn typ_of(t: ContentType) -> u8 {
    match t {
        ContentType::ChangeCipherSpec => 20,
        ContentType::Alert => 21,
        ContentType::Handshake => 22,
        ContentType::ApplicationData => 23,
        ContentType::Heartbeat => 24,
        ContentType::Unknown(x) => x,
    }
}
/// The record the server sends at this place.
fn incoming(keys: &Keys, seq: u64, typ: u8, data: &[u8], bad: Option<Bad>) -> OpaqueMessage {
    // A server may choose any nonces; this one's are not its numbers.
    let mut nonce = (seq.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x55).to_be_bytes();
    let (s, t) = match bad {
        Some(Bad::Seq(d)) => (seq + d as u64, typ),
        Some(Bad::Typ(t)) => (seq, if t == typ { t ^ 7 } else { t }),
        _ => (seq, typ),
    };
    let (mut ct, mut tag) = keys.seal(1, s, nonce, t, data);
    match bad {
        Some(Bad::Tag(i, x)) => tag[i as usize] ^= x,
        Some(Bad::Nonce(i, x)) => nonce[i as usize] ^= x,
        Some(Bad::Text(i, x)) if !ct.is_empty() => {
            let n = ct.len();
            ct[i as usize % n] ^= x;
        }
        Some(Bad::Text(..)) => tag[0] ^= 1,
        _ => {}
    }
    record(typ, &nonce, &ct, &tag)
}

async fn leader(v: Rc<Engine>, steps: Vec<Step>, forge: bool, ctx: Context, seen: Rc<RefCell<Seen>>) -> Result<Done, String> {
    let vm: Vm = Arc::new(tokio::sync::Mutex::new(IdealVm::new()));
    let (s, _) = ideal_rcot(Block::default(), Block::default());
    let (_, r) = ideal_rcot(Block::default(), Block::default());
    let e = |e: mpc_tls::MpcTlsError| e.to_string();
    let mut l = MpcTlsLeader::new(v.config(), ctx, vm.clone(), (s.clone(), s.clone(), s), r);
    let keyrefs = l.alloc().map_err(e)?;
    l.preprocess().await.map_err(e)?;
    let (cr, client) = (l.verif_client_random().map_err(e)?, l.verif_client_key_share().map_err(e)?);
    seen.borrow_mut().cr = cr;
    seen.borrow_mut().client = client.key;
    let keys = v.keys(&seen.borrow());
    let fin = v.finished(&keys);
    let (_, point) = ephemeral(v.key);
    let params = [&[3, 0, 23, point.len() as u8], &point[..]].concat();
    let k = CERT_KEYS[v.cert as usize % CERT_KEYS.len()];
    let rsa = k >= 12;
    let scheme = match k {
        0..=5 => SignatureScheme::ECDSA_NISTP256_SHA256,
        6..=8 => SignatureScheme::ECDSA_NISTP384_SHA384,
        _ => SignatureScheme::RSA_PKCS1_SHA256,
    };
    let digest = if k < 6 || rsa { MessageDigest::sha256() } else { MessageDigest::sha384() };
    let mut signer = Signer::new(digest, &x509gen::keys()[k as usize].pkey).unwrap();
    signer.update(&[&cr[..], &v.sr(), &params].concat()).unwrap();
    let sig = DigitallySignedStruct::new(scheme, signer.sign_to_vec().unwrap());
    let certs: Vec<_> = certs::chain(k, 0, "a.test").into_iter().map(Certificate).collect();
    let mut seq = 0;
    for (i, step) in steps.iter().enumerate() {
        let salt = i as u8;
        let r = match step {
            Step::Prepare => {
                l.verif_prepare_encryption(v.sr(), PublicKey::new(NamedGroup::secp256r1, &point), certs.clone(), params.clone(), sig.clone()).await
            }
            Step::ClientVd => l.verif_client_finished_vd(v.hash(false)).await.map(|d| seen.borrow_mut().vds[0] = d),
            Step::ServerVd => l.verif_server_finished_vd(v.hash(true)).await.map(|d| seen.borrow_mut().vds[1] = d),
            Step::FinOut => l.verif_push_outgoing(message(22, fin[0].clone())).await,
            Step::FinIn => {
                seq += 1;
                l.verif_push_incoming(incoming(&keys, seq - 1, 22, &fin[1], None)).await
            }
            Step::Op(Op::Out(k, n)) => l.verif_push_outgoing(message(k.typ(), k.data(*n, salt))).await,
            Step::Op(Op::In(k, n, bad)) => {
                seq += 1;
                l.verif_push_incoming(incoming(&keys, seq - 1, k.typ(), &k.data(*n, salt), *bad)).await
            }
            Step::Op(Op::Flush) => l.verif_flush().await,
            Step::Op(Op::Online(b)) => {
                l.verif_enable_decryption(*b);
                Ok(())
            }
            Step::Op(Op::Traffic) => l.verif_start_traffic().await,
            Step::Close => l.verif_close_connection().await,
        };
        // What is ready is taken, as a client does.
        let mut take = || -> Result<(), mpc_tls::MpcTlsError> {
            while let Some(m) = l.verif_next_outgoing()? {
                seen.borrow_mut().out.push(m);
            }
            while let Some(m) = l.verif_next_incoming()? {
                seen.borrow_mut().inc.push(m);
            }
            Ok(())
        };
        let t = take();
        if let Err(e) = r {
            seen.borrow_mut().fail.get_or_insert((i, e.to_string()));
            if !forge {
                return Err(e.to_string());
            }
        } else if let (Err(e), false) = (t, *step == Step::Close || forge) {
            return Err(format!("after step {i}: {e}"));
        }
    }
    let (mut ctx, transcript) = l.verif_finish().ok_or("not closed")?;
    let keys = if forge { vec![] } else { reveal(&mut ctx, &vm, &keyrefs).await? };
    Ok(Done { transcript, keys })
}
async fn follower(v: Rc<Engine>, forge: bool, ctx: Context) -> Result<Done, String> {
    let vm: Vm = Arc::new(tokio::sync::Mutex::new(IdealVm::new()));
    let (s, r) = ideal_rcot(Block::default(), Block::default());
    let e = |e: mpc_tls::MpcTlsError| e.to_string();
    let mut f = MpcTlsFollower::new(v.config(), ctx, vm.clone(), s, (r.clone(), r.clone(), r));
    let keyrefs = f.alloc().map_err(e)?;
    f.preprocess().await.map_err(e)?;
    let (mut ctx, transcript) = f.run().await.map_err(e)?;
    let keys = if forge { vec![] } else { reveal(&mut ctx, &vm, &keyrefs).await? };
    Ok(Done { transcript, keys })
}
pub fn run(v: &Engine, steps: Vec<Step>, forge: bool, tap: Option<Box<Tap>>) -> Ran {
    let v = Rc::new(v.clone());
    let hub = Hub::new(tap);
    let (a, b) = (hub.context(0), hub.context(1));
    let mut sim = Sim::new(v.seed);
    let seen: Rc<RefCell<Seen>> = Default::default();
    let (h, s, w) = (hub.clone(), seen.clone(), v.clone());
    let l = sim.spawn("leader", true, async move {
        let r = leader(w, steps, forge, a, s).await;
        h.close(0);
        r
    });
    let h = hub.clone();
    let w = v.clone();
    let f = sim.spawn("follower", true, async move {
        let r = follower(w, forge, b).await;
        h.close(1);
        r
    });
    let end = sim.run(200_000);
    Ran { end, panics: std::mem::take(&mut sim.panics), seen, leader: l.take(), follower: f.take() }
}

// ---- the model ----

pub struct Model {
    /// The step at which it ends with an error.
    pub fails: Option<usize>,
    pub either: bool,
    /// Numbers of the records handed out before that.
    pub plain: Vec<(u8, Vec<u8>)>,
}
impl Engine {
    /// Which step must be refused.
    fn model(&self, fin: &[Vec<u8>; 2]) -> Model {
        let cap = |n: u16, r: Option<u8>| 16 * ((n as usize + 32).div_ceil(16) + 2 + r.unwrap() as usize);
        let pad = |n: usize| n.div_ceil(16) * 16;
        let (mut sent, mut recv, mut online) = (0, 0, 0);
        let (mut room_out, mut room_in) = (cap(self.max_sent, self.sent_records) as i64, cap(self.online, self.recv_records) as i64);
        let (mut rec_out, mut rec_in) = (2 + self.sent_records.unwrap() as i64, 2 + self.recv_records.unwrap() as i64);
        let mut on = !self.defer;
        let (mut outs, mut ins): (Vec<(u8, usize)>, Vec<(u8, Vec<u8>, Option<Bad>)>) = Default::default();
        let mut last: [Option<(u8, Vec<u8>)>; 2] = Default::default();
        let mut plain = vec![];
        let mut either = false;
        for (i, s) in self.steps().iter().enumerate() {
            let salt = i as u8;
            let mut ok = true;
            match s {
                Step::FinOut | Step::Op(Op::Out(..)) => {
                    let (t, d) = match s {
                        Step::Op(Op::Out(k, n)) => (k.typ(), k.data(*n, salt)),
                        _ => (22, fin[0].clone()),
                    };
                    ok = sent + d.len() <= self.max_sent as usize + 32;
                    sent += d.len();
                    outs.push((t, d.len()));
                    last[0] = Some((t, d));
                }
                Step::FinIn | Step::Op(Op::In(..)) => {
                    let (t, d, b) = match s {
                        Step::Op(Op::In(k, n, b)) => (k.typ(), k.data(*n, salt), *b),
                        _ => (22, fin[1].clone(), None),
                    };
                    ok = recv + d.len() <= self.max_recv as usize + 32;
                    recv += d.len();
                    ins.push((t, d.clone(), b));
                    last[1] = Some((t, d));
                }
                Step::Op(Op::Online(b)) => on = *b,
                Step::Op(Op::Flush) => {
                    let n = if on { ins.len() } else { ins.iter().position(|r| r.0 == 23).unwrap_or(ins.len()) };
                    let now: Vec<_> = ins.drain(..n).collect();
                    for (_, n) in outs.drain(..) {
                        room_out -= pad(n) as i64;
                        rec_out -= 1;
                    }
                    if on {
                        online += now.iter().map(|r| r.1.len()).sum::<usize>();
                    }
                    for r in &now {
                        room_in -= pad(r.1.len()) as i64;
                        rec_in -= 1;
                        ok &= r.2.is_none();
                        plain.push((r.0, r.1.clone()));
                    }
                    ok &= room_in >= 0 && room_out >= 0 && rec_out >= 0 && rec_in >= 0;
                    ok &= !on || now.is_empty() || online <= self.online as usize + 32;
                }
                Step::Close => {
                    for r in &ins {
                        if r.0 != 23 {
                            room_in -= pad(r.1.len()) as i64;
                            // Not authenticated yet.
                            either |= r.2.is_some();
                        } else {
                            ok &= r.2.is_none();
                        }
                        plain.push((r.0, r.1.clone()));
                    }
                    ok &= room_in >= 0;
                    // A changed alert may read as any other.
                    let changed = ins.last().is_some_and(|r| r.0 == 21 && r.2.is_some());
                    for (side, l) in last.iter().enumerate() {
                        let (t, d) = l.as_ref().unwrap();
                        ok &= *t == 23 || (*t == 21 && (d[1] == 0 || side == 1 && changed));
                    }
                    ok &= self.wrong.is_none();
                }
                _ => {}
            }
            if !ok {
                return Model { fails: Some(i), either, plain };
            }
        }
        Model { fails: None, either, plain }
    }
}
fn same_record(a: &Record, b: &Record) -> bool {
    a.seq == b.seq && a.typ == b.typ && a.explicit_nonce == b.explicit_nonce && a.ciphertext == b.ciphertext
}
fn typ_num(t: &Typ) -> u8 {
    match t {
        Typ::ChangeCipherSpec => 20,
        Typ::Alert => 21,
        Typ::Handshake => 22,
        Typ::ApplicationData => 23,
        Typ::Heartbeat => 24,
        Typ::Unknown(x) => *x,
    }
}
fn honest(v: &Engine, cx: &mut Cx) -> CaseResult {
    let steps = v.steps();
    let r = run(v, steps.clone(), false, None);
    for (t, m) in &r.panics {
        fail!("{t} panics: {m}");
    }
    check_eq!(r.end, End::Done, "the engine ends");
    let seen = r.seen.borrow();
    let keys = v.keys(&seen);
    let fin = v.finished(&keys);
    let m = v.model(&fin);
    let (l, f) = (r.leader.as_ref().unwrap(), r.follower.as_ref().unwrap());
    // Finished values, as far as they were computed.
    for s in 0..2 {
        if !seen.vds[s].is_empty() {
            check_eq!(seen.vds[s], keys.finished(s == 1, &v.hash(s == 1))[4..].to_vec(), "verify data");
        }
    }
    // Records to the server are what TLS says.
    let sent: Vec<(u8, Vec<u8>)> = steps
        .iter()
        .enumerate()
        .filter_map(|(i, s)| match s {
            Step::FinOut => Some((22, fin[0].clone())),
            Step::Op(Op::Out(k, n)) => Some((k.typ(), k.data(*n, i as u8))),
            _ => None,
        })
        .collect();
    check!(seen.out.len() <= sent.len(), "more records than were pushed");
    for (q, (o, (t, d))) in seen.out.iter().zip(&sent).enumerate() {
        let nonce = (q as u64).to_be_bytes();
        let (ct, tag) = keys.seal(0, q as u64, nonce, *t, d);
        let w = record(*t, &nonce, &ct, &tag);
        check!(o.typ == w.typ && o.version == w.version && o.payload == w.payload, "record {q} of {} bytes (type {t}) is not what TLS makes of it", d.len());
    }
    // Nothing comes out that was not sent like this.
    check!(seen.inc.len() <= m.plain.len() || m.either, "more than was received");
    for (q, (p, (t, d))) in seen.inc.iter().zip(&m.plain).enumerate() {
        if !m.either {
            check!(typ_of(p.typ) == *t && p.payload.0 == *d, "received record {q} has other contents");
        }
    }
    match m.fails {
        Some(at) => {
            cx.label(format!("refused: {:?}", steps[at]).split(['(', ' ']).take(2).collect::<Vec<_>>().join(" "));
            check!(l.is_err() && f.is_err(), "step {at}, {:?}, was accepted; leader {}, follower {}", steps[at], show(l), show(f));
            if let Some((i, e)) = &seen.fail {
                check!(*i <= at && (*i == at || m.either), "step {i}, {:?}, was refused: {e}", steps[*i]);
            }
            return Ok(());
        }
        None if m.either => {
            cx.label("unauthenticated alert");
            return Ok(());
        }
        None => {}
    }
    let (Ok(l), Ok(f)) = (l, f) else {
        fail!("refused: leader {}, follower {}; step {:?}", show(l), show(f), seen.fail.as_ref().map(|f| (f.0, steps[f.0], &f.1)));
    };
    cx.label("completed");
    cx.nontrivial(v.ops.len() > 2);
    check_eq!(seen.inc.len(), if steps.contains(&Step::Op(Op::Traffic)) { m.plain.len() } else { seen.inc.len() }, "all that was received comes out");
    // Both hold the keys of TLS.
    let h = encrypt_aead(Cipher::aes_128_gcm(), &keys.key[1], Some(&[0; 12]), &[], &[], &mut [0; 16]).map(|_| ecb(&keys.key[1])).unwrap();
    let want = vec![keys.key[0].clone(), keys.key[1].clone(), h, keys.iv[0].clone(), keys.iv[1].clone()];
    check_eq!(l.keys, want, "leader's session keys");
    check_eq!(f.keys, want, "follower's session keys");
    // And the transcript of what was sent and received.
    let (lt, ft) = (&l.transcript, &f.transcript);
    check_eq!(lt.sent().len(), sent.len(), "sent records");
    check_eq!(lt.recv().len(), m.plain.len(), "received records");
    for (t, who) in [(lt, "leader"), (ft, "follower")] {
        let CertBinding::V1_2(b) = t.certificate_binding() else { fail!("binding") };
        check!(b.client_random == seen.cr && b.server_random == v.sr() && b.server_ephemeral_key.key == ephemeral(v.key).1, "{who}'s binding");
    }
    check_eq!(lt.time(), ft.time(), "time");
    
    for (side, (a, b)) in [(lt.sent(), ft.sent()), (lt.recv(), ft.recv())].into_iter().enumerate() {
        check_eq!(a.len(), b.len(), "as many records on both sides");
        for (i, (a, b)) in a.iter().zip(b).enumerate() {
            let what = if side == 0 { &sent[i] } else { &m.plain[i] };
            check!(same_record(a, b), "record {i} differs between the parties");
            check!(a.seq == i as u64 && typ_num(&a.typ) == what.0, "record {i} has another number or type");
            check_eq!(a.plaintext.as_ref(), Some(&what.1), "leader's plaintext");
            check_eq!(b.plaintext.as_ref(), (what.0 != 23).then_some(&what.1), "follower's plaintext");
            let (ct, tag) = keys.seal(side, i as u64, a.explicit_nonce.clone().try_into().unwrap(), what.0, &what.1);
            check_eq!(a.ciphertext, ct, "ciphertext");
            check_eq!(a.tag.as_ref(), Some(&tag), "tag");
            check!(b.tag.as_ref().is_none_or(|t| *t == tag), "follower's tag");
            check!(side == 0 || b.tag.is_some(), "follower has no tag of a received record");
        }
    }
    Ok(())
}
fn ecb(key: &[u8]) -> Vec<u8> {
    openssl::symm::encrypt(Cipher::aes_128_ecb(), key, None, &[0; 16]).unwrap()[..16].to_vec()
}
fn show(r: &Result<Done, String>) -> String {
    match r {
        Ok(_) => "completed".into(),
        Err(e) => e.clone(),
    }
}

// ---- a leader that does as it likes ----

/// The messages of the protocol, as they are on the wire.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Msg {
    Random([u8; 32]),
    Hello { time: u64, random: [u8; 32], key: PublicKey },
    ClientVd([u8; 32]),
    ServerVd([u8; 32]),
    Encrypt { typ: ContentType, version: ProtocolVersion, len: u64, plaintext: Option<Vec<u8>> },
    Decrypt { typ: ContentType, version: ProtocolVersion, nonce: Vec<u8>, ciphertext: Vec<u8>, tag: Vec<u8> },
    Traffic,
    Flush { decrypt: bool },
    Close,
}
impl Msg {
    fn read(b: &[u8]) -> Option<Msg> {
        let m: Msg = bincode::deserialize(b).ok()?;
        (bincode::serialize(&m).ok()? == b).then_some(m)
    }
    fn write(&self) -> Vec<u8> {
        bincode::serialize(self).unwrap()
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Edit {
    Typ(u8),
    Version(u8),
    Byte(u16, u8),
    Len(i8),
    Number(u64),
    Drop,
    Twice,
    /// After the next one.
    Later,
    /// Another one comes before it.
    Before(Extra),
    /// Or instead.
    Instead(Extra),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Extra {
    /// One that was there, by number from the last.
    Again(u8),
    Random(u8),
    Vd(bool, u8),
    Encrypt(u8, u64, Option<u8>),
    Decrypt(u8, u8, u8, u8),
    /// A copy of an earlier record, as the next one.
    Record(u8, u8),
    Traffic,
    Flush(bool),
    Close,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Rogue {
    e: Engine,
    /// Changes of what the leader does: place, kind, other place or new step.
    plan: Vec<(u8, u8, Step)>,
    edits: Vec<(u16, Edit)>,
    /// How far the leader's clock is off.
    #[serde(default)]
    clock: i64,
}
fn extra() -> impl Strategy<Value = Extra> + Clone {
    let typ = prop::sample::select(vec![20u8, 21, 22, 23, 24, 200]);
    prop_oneof![
        any::<u8>().prop_map(Extra::Again),
        any::<u8>().prop_map(Extra::Random),
        (any::<bool>(), any::<u8>()).prop_map(|(a, b)| Extra::Vd(a, b)),
        (typ.clone(), prop_oneof![0u64..40, Just(u64::MAX), any::<u64>()], prop::option::of(0u8..40)).prop_map(|(t, l, p)| Extra::Encrypt(t, l, p)),
        (typ.clone(), 0u8..20, 0u8..40, 0u8..32).prop_map(|(t, a, b, c)| Extra::Decrypt(t, a, b, c)),
        (any::<u8>(), typ).prop_map(|(i, t)| Extra::Record(i, t)),
        Just(Extra::Traffic),
        any::<bool>().prop_map(Extra::Flush),
        Just(Extra::Close),
    ]
}
fn edit() -> impl Strategy<Value = Edit> + Clone {
    prop_oneof![
        2 => prop::sample::select(vec![20u8, 21, 22, 23, 24, 99]).prop_map(Edit::Typ),
        1 => any::<u8>().prop_map(Edit::Version),
        4 => (any::<u16>(), 1u8..).prop_map(|(a, b)| Edit::Byte(a, b)),
        2 => (-20i8..20).prop_map(Edit::Len),
        2 => prop_oneof![0u64..40, Just(u64::MAX), any::<u64>()].prop_map(Edit::Number),
        1 => Just(Edit::Drop),
        1 => Just(Edit::Twice),
        1 => Just(Edit::Later),
        2 => extra().prop_map(Edit::Before),
        1 => extra().prop_map(Edit::Instead),
    ]
}
fn rogue() -> impl Strategy<Value = Rogue> + Clone {
    use Step::*;
    let step = prop_oneof![
        Just(Prepare), Just(ClientVd), Just(ServerVd), Just(FinOut), Just(FinIn), Just(Close),
        op(100, true).prop_map(Op), op(100, true).prop_map(Op), op(100, true).prop_map(Op),
    ];
    let late = prop_oneof![Just(false), Just(true)];
    let clock = prop_oneof![
        8 => Just(0i64),
        1 => -12i64..12,
        1 => prop_oneof![Just(i64::MIN), Just(i64::MAX), -100_000i64..100_000, any::<i64>()],
    ];
    (
        engine(100, true, false),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), 0u8..4, step), 1..4)],
        prop::collection::vec((late, any::<u16>(), edit()).prop_map(|(l, a, e)| (if l { 60_000 + a % 5536 } else { a }, e)), 0..3),
        clock,
    )
        .prop_map(|(mut e, plan, edits, clock)| {
            if let Some(w) = &mut e.wrong {
                w.1 %= 16;
            }
            // Room for what is added.
            e.max_sent += 100;
            e.max_recv += 100;
            e.online += 100;
            e.sent_records = e.sent_records.map(|n| n + 3);
            e.recv_records = e.recv_records.map(|n| n + 3);
            Rogue { e, plan, edits, clock }
        })
}
impl Rogue {
    fn steps(&self) -> Vec<Step> {
        let mut s = self.e.steps();
        for (at, kind, new) in &self.plan {
            let i = *at as usize * s.len() / 256;
            match kind {
                0 => {
                    s.remove(i);
                }
                1 => s.insert(i, s[i]),
                2 if i + 1 < s.len() => s.swap(i, i + 1),
                _ => s.insert(i, *new),
            }
            if s.is_empty() {
                break;
            }
        }
        s
    }
}
impl Extra {
    fn make(&self, past: &[Msg]) -> Option<Msg> {
        let records: Vec<&Msg> = past.iter().filter(|m| matches!(m, Msg::Decrypt { .. })).collect();
        Some(match self {
            Extra::Again(i) => past.get(past.len().checked_sub(1 + *i as usize % past.len().max(1))?)?.clone(),
            Extra::Random(b) => Msg::Random([*b; 32]),
            Extra::Vd(false, b) => Msg::ClientVd([*b; 32]),
            Extra::Vd(true, b) => Msg::ServerVd([*b; 32]),
            Extra::Encrypt(t, len, p) => Msg::Encrypt {
                typ: ContentType::from(*t),
                version: ProtocolVersion::TLSv1_2,
                len: *len,
                plaintext: p.map(|n| filler(*len, n as usize)),
            },
            Extra::Decrypt(t, a, b, c) => Msg::Decrypt {
                typ: ContentType::from(*t),
                version: ProtocolVersion::TLSv1_2,
                nonce: vec![1; *a as usize],
                ciphertext: vec![2; *b as usize],
                tag: vec![3; *c as usize],
            },
            Extra::Record(i, t) => {
                let mut m = (*records.get(*i as usize % records.len().max(1))?).clone();
                if let Msg::Decrypt { typ, .. } = &mut m {
                    *typ = ContentType::from(*t);
                }
                m
            }
            Extra::Traffic => Msg::Traffic,
            Extra::Flush(decrypt) => Msg::Flush { decrypt: *decrypt },
            Extra::Close => Msg::Close,
        })
    }
}
fn change(m: &mut Msg, e: &Edit) {
    let flip = |b: &mut [u8], at: u16, x: u8| {
        if !b.is_empty() {
            let i = at as usize % b.len();
            b[i] ^= x;
        }
    };
    let resize = |b: &mut Vec<u8>, d: i8| {
        let n = (b.len() as i64 + d as i64).max(0) as usize;
        b.resize(n, 0x5a);
    };
    match (e, m) {
        (Edit::Typ(t), Msg::Encrypt { typ, .. } | Msg::Decrypt { typ, .. }) => *typ = ContentType::from(*t),
        (Edit::Version(v), Msg::Encrypt { version, .. } | Msg::Decrypt { version, .. }) => *version = ProtocolVersion::from(0x300 + *v as u16 % 6),
        (Edit::Byte(a, x), Msg::Random(r) | Msg::ClientVd(r) | Msg::ServerVd(r)) => flip(r, *a, *x),
        (Edit::Byte(a, x), Msg::Hello { time, random, key }) => match a % 3 {
            0 => *time = time.wrapping_add(*x as i8 as i64 as u64 % 9),
            1 => flip(random, *a / 3, *x),
            _ => flip(&mut key.key, *a / 3, *x),
        },
        (Edit::Byte(a, x), Msg::Encrypt { plaintext: Some(p), .. }) => flip(p, *a, *x),
        (Edit::Byte(a, x), Msg::Decrypt { nonce, ciphertext, tag, .. }) => match a % 3 {
            0 => flip(nonce, *a / 3, *x),
            1 => flip(ciphertext, *a / 3, *x),
            _ => flip(tag, *a / 3, *x),
        },
        (Edit::Byte(_, x), Msg::Flush { decrypt }) => *decrypt ^= x % 2 == 1,
        (Edit::Len(d), Msg::Hello { key, .. }) => resize(&mut key.key, *d),
        (Edit::Len(d), Msg::Encrypt { plaintext: Some(p), len, .. }) => {
            resize(p, *d);
            *len = p.len() as u64;
        }
        (Edit::Len(d), Msg::Encrypt { len, .. }) => *len = len.wrapping_add_signed(*d as i64),
        (Edit::Len(d), Msg::Decrypt { nonce, ciphertext, tag, .. }) => match d.rem_euclid(3) {
            0 => resize(nonce, *d),
            1 => resize(ciphertext, *d),
            _ => resize(tag, *d),
        },
        (Edit::Number(n), Msg::Hello { time, .. }) => *time = if n % 2 == 0 { *n } else { time.wrapping_add(n % 41).wrapping_sub(20) },
        (Edit::Number(n), Msg::Encrypt { len, plaintext, .. }) => {
            *len = *n;
            if n % 3 == 0 {
                *plaintext = plaintext.is_none().then(|| vec![7; (*n % 50) as usize]);
            }
        }
        _ => {}
    }
}
/// What the follower got, and the time it had.
#[derive(Debug, Default)]
pub struct Got {
    msgs: Vec<Msg>,
    edited: usize,
}
fn rogue_tap(v: &Rogue, total: usize, got: Arc<std::sync::Mutex<Got>>) -> Box<Tap> {
    let edits: Vec<(usize, Edit)> = v.edits.iter().map(|(at, e)| (*at as usize * total / 65536, e.clone())).collect();
    let (mut k, mut later) = (0, None::<Msg>);
    let clock = v.clock;
    Box::new(move |side, _, _, frame| {
        if side != 0 {
            return Fate::Pass;
        }
        let Some(mut m) = Msg::read(frame) else { return Fate::Pass };
        if let Msg::Hello { time, .. } = &mut m {
            *time = time.wrapping_add_signed(clock);
        }
        let mut got = got.lock().unwrap();
        let mut out = vec![m];
        let mut hold = false;
        for (_, e) in edits.iter().filter(|e| e.0 == k) {
            got.edited += 1;
            match e {
                Edit::Drop => {
                    out.pop();
                }
                Edit::Twice => out.extend(out.last().cloned()),
                Edit::Later => hold = true,
                Edit::Before(x) => {
                    if let Some(x) = x.make(&got.msgs) {
                        out.insert(0, x);
                    }
                }
                Edit::Instead(x) => {
                    if let Some(x) = x.make(&got.msgs) {
                        out = vec![x];
                    }
                }
                e => out.iter_mut().for_each(|m| change(m, e)),
            }
        }
        k += 1;
        if hold && later.is_none() {
            later = out.pop();
        } else {
            out.extend(later.take());
        }
        got.msgs.extend(out.iter().cloned());
        Fate::Many(out.iter().map(Msg::write).collect())
    })
}
fn run_rogue(v: &Rogue, cx: &mut Cx) -> CaseResult {
    let got: Arc<std::sync::Mutex<Got>> = Default::default();
    let steps = v.steps();
    // As many messages as there are without edits, more or less.
    let total = 4 + steps.len();
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let before = now();
    let r = run(&v.e, steps.clone(), true, Some(rogue_tap(v, total, got.clone())));
    let after = now();
    for (t, m) in &r.panics {
        check!(*t == "leader", "{t} panics: {m}");
    }
    check!(!matches!(&r.end, End::Spinning(l) if l.contains(&"follower")), "the follower spins");
    let got = got.lock().unwrap();
    if let Some(l) = got.msgs.last() {
        cx.label_if(got.edited > 0, &format!("edited, last {}", format!("{l:?}").split([' ', '(', '{']).next().unwrap()));
    }
    let Some(Ok(f)) = &r.follower else {
        cx.label("refused");
        return Ok(());
    };
    let seen = r.seen.borrow();
    cx.label(if got.edited > 0 { "accepted, edited" } else if v.plan.is_empty() { "accepted" } else { "accepted, other steps" });
    cx.label_if(v.clock != 0, "accepted, other clock");
    cx.nontrivial(got.edited > 0 || v.clock != 0 || !v.plan.is_empty() || v.e.wrong.is_some());
    // What the follower was told.
    let (mut cr, mut hello, mut vd) = (vec![], vec![], [vec![], vec![]]);
    let (mut outs, mut ins) = (vec![], vec![]);
    let (mut waiting, mut online) = (vec![], 0usize);
    for m in &got.msgs {
        match m {
            Msg::Random(r) => cr.push(*r),
            Msg::Hello { time, random, key } => hello.push((*time, *random, key.clone())),
            Msg::ClientVd(h) => vd[0].push(*h),
            Msg::ServerVd(h) => vd[1].push(*h),
            Msg::Encrypt { typ, version, len, plaintext } => outs.push((typ_of(*typ), *version, *len as usize, plaintext.clone())),
            Msg::Decrypt { typ, nonce, ciphertext, tag, .. } => {
                waiting.push(ins.len());
                ins.push((typ_of(*typ), nonce.clone(), ciphertext.clone(), tag.clone(), false));
            }
            Msg::Flush { decrypt } => {
                let n = if *decrypt { waiting.len() } else { waiting.iter().position(|i| ins[*i].0 == 23).unwrap_or(waiting.len()) };
                for i in waiting.drain(..n) {
                    ins[i].4 = true;
                    online += if *decrypt { ins[i].2.len() } else { 0 };
                }
            }
            Msg::Traffic => {}
            Msg::Close => break,
        }
    }
    check!(cr.len() == 1 && hello.len() == 1 && vd[0].len() == 1 && vd[1].len() == 1, "accepted with {} client randoms, {} hellos, {} and {} finished hashes", cr.len(), hello.len(), vd[0].len(), vd[1].len());
    let (time, sr, key) = &hello[0];
    check!(time.saturating_add(5) >= before && *time <= after + 5, "a time that is {} s off", *time as i128 - before as i128);
    check!(f.transcript.time() == *time, "another time than it was told");
    let CertBinding::V1_2(b) = f.transcript.certificate_binding() else { fail!("binding") };
    check!(b.client_random == cr[0] && b.server_random == *sr && b.server_ephemeral_key.key == key.key, "another binding than it was told");
    check_eq!(key.key, ephemeral(v.e.key).1, "computed with another key than the server's");
    let keys = Keys::new(&shared(&ephemeral(v.e.key).0, &seen.client), &cr[0], sr);
    let t = &f.transcript;
    check_eq!(t.sent().len(), outs.len(), "sent records");
    check_eq!(t.recv().len(), ins.len(), "received records");
    let (mut sent, mut recv) = (0, 0);
    for (i, (r, (typ, version, len, plain))) in t.sent().iter().zip(&outs).enumerate() {
        check!(r.seq == i as u64 && typ_num(&r.typ) == *typ && r.ciphertext.len() == *len, "sent record {i} is another one");
        check!(r.explicit_nonce == (i as u64).to_be_bytes(), "sent record {i} has another nonce than its number");
        sent += len;
        if *typ != 23 {
            check_eq!(r.plaintext.as_ref(), plain.as_ref(), "public plaintext");
            check!(plain.is_some(), "sent record {i} has no plaintext");
            check_eq!(keys.stream(0, &r.explicit_nonce, &r.ciphertext), plain.clone().unwrap(), "sent record {i} does not decrypt to the plaintext");
        } else {
            check!(r.plaintext.is_none() || r.plaintext == *plain, "the plaintext of private data");
        }
        if let (Some(tag), ProtocolVersion::TLSv1_2) = (&r.tag, version) {
            check!(keys.open(0, i as u64, &r.explicit_nonce, *typ, &r.ciphertext, tag).is_some(), "the tag of sent record {i} is wrong");
        }
    }
    for (i, (r, (typ, nonce, ct, tag, online))) in t.recv().iter().zip(&ins).enumerate() {
        check!(r.seq == i as u64 && typ_num(&r.typ) == *typ && r.ciphertext == *ct && r.explicit_nonce == *nonce && r.tag.as_ref() == Some(tag), "received record {i} is another one");
        recv += ct.len();
        // Its tag is for the verifier to look at, afterwards.
        if *typ != 23 {
            check!(nonce.len() == 8, "a nonce of {} bytes", nonce.len());
            let plain = keys.stream(1, nonce, ct);
            check_eq!(r.plaintext.as_ref(), Some(&plain), "received record {i} does not decrypt to its plaintext");
        } else {
            check!(r.plaintext.is_none(), "the follower has a plaintext");
        }
        if *online {
            cx.label("with records decrypted online");
// Its tag is for the verifier to look at, afterwards.
        }
    }
    check!(sent <= v.e.max_sent as usize + 32 && recv <= v.e.max_recv as usize + 32 && online <= v.e.online as usize + 32, "more than the limits: {sent} sent, {recv} received, {online} online");
    for (side, rs) in [t.sent(), t.recv()].into_iter().enumerate() {
        let p = rs[0].plaintext.clone().unwrap_or_default();
        check!(typ_num(&rs[0].typ) == 22 && p.len() >= 16 && p[0] == 20, "the first record is no Finished message");
        check_eq!(p[4..].to_vec(), keys.finished(side == 1, &vd[side][0])[4..].to_vec(), "wrong verify data of side {side} was accepted");
        let last = rs.last().unwrap();
        let end = match typ_num(&last.typ) {
            23 => true,
            21 => last.plaintext.as_ref().is_some_and(|p| p.len() >= 2 && p[1] == 0),
            _ => false,
        };
        check!(end, "the connection ended with a record of type {} in direction {side}: {:?}", typ_num(&last.typ), last.plaintext);
    }
    Ok(())
}
pub fn c75() -> Check {
    Check {
        id: "C75",
        rule: "a connection the follower accepted although the leader did not keep to the protocol",
        assumptions: &["the two-party computation is ideal"],
        laws: vec![law("leader that does as it likes", cases(3000), rogue, run_rogue)],
    }
}
pub fn c74() -> Check {
    Check {
        id: "C74",
        rule: "the connection was closed properly after at least three operations",
        assumptions: &["the two-party computation is ideal"],
        laws: vec![
            law("any order", cases(1500), || engine(1500, false, false), honest),
            law("limits", cases(1500), || engine(400, false, true), honest),
            law("records that are not authentic", cases(1000), || engine(200, true, false), honest),
        ],
    }
}
