//! Honest sessions.
use crate::{net::End, sess::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sha2::Digest;
use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
use tlsn::{
    connection::ServerName,
    hash::HashAlgId,
    transcript::{ContentType, Direction, TlsTranscript, TranscriptCommitment, TranscriptSecret},
};
use vpt::{cases, check, check_eq, fail, law, CaseResult, Check, Cx};

/// One exchange: what the application writes, and what the server answers.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Round {
    pub writes: Vec<u16>,
    pub sends: Vec<u16>,
    /// The application waits for the answer before it goes on.
    pub wait: bool,
    pub flush: bool,
}
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Fin {
    /// The application closes after its last write.
    Early,
    /// The application closes once it has read everything.
    Late,
    /// The server sends close_notify and closes.
    Server,
    /// The server closes without close_notify.
    Abrupt,
    /// The server sends close_notify and waits for the client's.
    Both,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Talk {
    pub rounds: Vec<Round>,
    pub fin: Fin,
    /// Decrypts from the start (MPC mode).
    pub decrypt: bool,
    /// Turned on (or off) in this round, after a while.
    pub toggle: Option<(u8, u16)>,
}
impl Talk {
    pub fn sent(&self) -> usize {
        self.rounds.iter().flat_map(|r| &r.writes).map(|w| *w as usize).sum()
    }
    pub fn recv(&self) -> usize {
        self.rounds.iter().flat_map(|r| &r.sends).map(|w| *w as usize).sum()
    }
    /// How many records the server makes of it.
    pub fn recv_records(&self, frag: Option<u16>) -> usize {
        // rustls counts the header and the encryption's overhead in.
        let frag = frag.map_or(16384, |f| f.max(32) as usize - 5);
        self.rounds.iter().flat_map(|r| &r.sends).map(|w| (*w as usize).div_ceil(frag)).sum()
    }
    /// In MPC mode, whether data is decrypted while the connection is open.
    pub fn online(&self) -> bool {
        self.decrypt || self.toggle.is_some()
    }
    pub fn scripts(&self, proxy: bool) -> (Vec<App>, Vec<Srv>) {
        let (mut app, mut srv) = (vec![], vec![]);
        let (mut sent, mut recv) = (0u32, 0u32);
        let mut on = proxy || self.decrypt;
        for (i, r) in self.rounds.iter().enumerate() {
            for w in &r.writes {
                app.push(App::Write(*w as u32));
                sent += *w as u32;
            }
            if r.flush {
                app.push(App::Flush);
            }
            if let Some((_, nap)) = self.toggle.filter(|t| !proxy && t.0 == i as u8) {
                on = !on;
                app.extend([App::Nap(nap), App::Decrypt(on)]);
            }
            srv.push(Srv::Expect(sent));
            for s in &r.sends {
                srv.push(Srv::Send(*s as u32));
                recv += *s as u32;
            }
            // What came while decryption was off arrives once it is on, or at
            // the end.
            if r.wait && on {
                app.push(App::Read(recv));
            }
        }
        match self.fin {
            Fin::Early => {
                app.push(App::Close);
                srv.push(Srv::CloseNotify);
            }
            Fin::Late => {
                if on {
                    app.push(App::Read(recv));
                }
                app.extend([App::Idle, App::Close]);
                srv.extend([Srv::Wait, Srv::CloseNotify]);
            }
            Fin::Server => srv.push(Srv::CloseNotify),
            Fin::Abrupt => srv.push(Srv::Drop),
            Fin::Both => {
                if on {
                    app.push(App::Read(recv));
                }
                app.extend([App::Idle, App::Close]);
                srv.extend([Srv::CloseNotify, Srv::Wait]);
            }
        }
        (app, srv)
    }
}

pub fn size(max: u16) -> impl Strategy<Value = u16> + Clone {
    prop_oneof![6 => 1u16..48, 4 => 1u16..260, 2 => prop::sample::select(vec![15u16, 16, 17, 31, 32, 33, 255, 256, 257]), 1 => 1..max]
}
pub fn talk(max: u16) -> impl Strategy<Value = Talk> + Clone {
    let round = (prop::collection::vec(size(max), 1..3), prop::collection::vec(size(max), 0..3), any::<bool>(), any::<bool>())
        .prop_map(|(writes, sends, wait, flush)| Round { writes, sends, wait, flush });
    let fin = prop::sample::select(vec![Fin::Early, Fin::Late, Fin::Server, Fin::Abrupt, Fin::Both]);
    (prop::collection::vec(round, 1..4), fin, prop::bool::weighted(0.4), prop::option::weighted(0.25, (0u8..3, prop_oneof![0u16..20, 0u16..2000]))).prop_map(|(rounds, fin, decrypt, toggle)| {
        let mut t = Talk { rounds, fin, decrypt, toggle };
        // Something is received.
        if t.recv() == 0 {
            t.rounds[0].sends = vec![20];
        }
        // The close must wait for the answers only where it can.
        if t.toggle.is_some_and(|k| k.0 as usize >= t.rounds.len()) {
            t.toggle = None;
        }
        t
    })
}
pub fn part() -> impl Strategy<Value = (u16, u16)> + Clone {
    prop_oneof![5 => any::<(u16, u16)>(), 1 => Just((0, 65535)), 1 => any::<u16>().prop_map(|a| (0, a)), 1 => any::<u16>().prop_map(|a| (a, 65535)), 2 => any::<u16>().prop_map(|a| (a, a.saturating_add(600)))]
}
pub fn parts() -> impl Strategy<Value = Vec<(u16, u16)>> + Clone {
    prop::collection::vec(part(), 0..4)
}
pub fn prove() -> impl Strategy<Value = Prove> + Clone {
    let commit = (any::<bool>(), prop::collection::vec(part(), 1..4), 0u8..3);
    (
        prop::bool::weighted(0.7),
        parts(),
        parts(),
        prop::bool::weighted(0.15),
        prop::bool::weighted(0.15),
        prop::collection::vec(commit, 0..4),
        prop::bool::weighted(0.9),
    )
        .prop_map(|(identity, sent, recv, all_sent, all_recv, commits, accept)| Prove { identity, sent, recv, all_sent, all_recv, commits, accept })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Honest {
    pub talk: Talk,
    pub plan: Plan,
}
pub fn honest(proxy: bool, max: u16) -> impl Strategy<Value = Honest> + Clone {
    let limits = (0u32..40, 0u32..40, any::<bool>(), any::<bool>(), any::<bool>());
    let world = (
        prop_oneof![1 => Just(0u64), 6 => 1u64..1 << 40],
        prop::option::weighted(0.6, any::<u64>()),
        prop_oneof![3 => Just(1u32 << 20), 1 => 40u32..2000],
        prop_oneof![12 => 0u8..6, 1 => 6u8..9, 2 => 9u8..12, 2 => 12u8..15],
        0u8..3,
        prop::option::weighted(0.3, 32u16..600),
        any::<bool>(),
        prop::option::weighted(0.1, prop_oneof![0u8..6, 12u8..14]),
    );
    (talk(max), limits, world, prop::collection::vec(prove(), 0..3)).prop_map(move |(talk, l, w, proves)| {
        let (app, srv) = talk.scripts(proxy);
        let frag = w.5.map(|f| f.max((talk.recv() / 12 + 33).min(16384) as u16));
        let mode = if proxy {
            Mode::Proxy
        } else {
            let records = talk.rounds.iter().map(|r| r.writes.len()).sum::<usize>();
            let recv = talk.recv() as u32 + l.1;
            Mode::Mpc(Limits {
                sent: talk.sent() as u32 + l.0,
                sent_records: (l.2 || records > 10).then_some(records as u8),
                recv,
                online: talk.online().then_some(recv).or((recv < 32).then_some(recv)),
                recv_records: talk.online().then_some(talk.recv_records(frag) as u8),
                defer: if talk.decrypt { Some(false) } else { l.3.then_some(true) },
                bandwidth: l.4,
            })
        };
        let plan = Plan {
            seed: w.0,
            frag: w.1,
            cap: w.2,
            mode,
            key: w.3,
            depth: w.4,
            max_fragment: frag,
            tickets: w.6,
            client_auth: w.7,
            app,
            srv,
            proves,
        };
        Honest { talk, plan }
    })
}

/// The encrypted records on the wire: type, explicit nonce, ciphertext, tag.
#[derive(Default)]
pub struct Taken(pub [Vec<u8>; 2]);
pub type Rec = (u8, Vec<u8>, Vec<u8>, Vec<u8>);
impl Taken {
    pub fn records(&self, side: usize) -> Vec<Rec> {
        let mut out = vec![];
        let mut b = &self.0[side][..];
        let mut on = false;
        while b.len() >= 5 {
            let n = u16::from_be_bytes([b[3], b[4]]) as usize;
            if b.len() < 5 + n {
                break;
            }
            let body = &b[5..5 + n];
            if on && n >= 24 {
                out.push((b[0], body[..8].to_vec(), body[8..n - 16].to_vec(), body[n - 16..].to_vec()));
            }
            on |= b[0] == 20;
            b = &b[5 + n..];
        }
        out
    }
    pub fn tap(this: &Rc<RefCell<Taken>>) -> Rc<RefCell<Box<Wire>>> {
        let t = this.clone();
        Rc::new(RefCell::new(Box::new(move |side: usize, b: &mut Vec<u8>| {
            t.borrow_mut().0[side].extend_from_slice(b);
            true
        })))
    }
}

pub fn digest(alg: HashAlgId, data: &[u8]) -> Option<Vec<u8>> {
    if alg == HashAlgId::SHA256 {
        Some(sha2::Sha256::digest(data).to_vec())
    } else if alg == HashAlgId::BLAKE3 {
        Some(blake3::hash(data).as_bytes().to_vec())
    } else if alg == HashAlgId::KECCAK256 {
        use tiny_keccak::Hasher;
        let mut k = tiny_keccak::Keccak::v256();
        let mut o = vec![0; 32];
        k.update(data);
        k.finalize(&mut o);
        Some(o)
    } else {
        None
    }
}

pub fn idx(s: &tlsn::rangeset::set::RangeSet<usize>) -> Vec<usize> {
    s.iter().flatten().collect()
}

/// Whether the verifier's records are what was on the wire.
pub fn same_records(t: &TlsTranscript, taken: &Taken) -> CaseResult {
    for (side, recs) in [(0, t.sent()), (1, t.recv())] {
        let wire: Vec<(u64, Rec)> = taken.records(side).into_iter().enumerate().map(|(i, r)| (i as u64, r)).filter(|r| r.1 .0 == 23).collect();
        let mine: Vec<_> = recs.iter().filter(|r| r.typ == ContentType::ApplicationData).collect();
        check_eq!(mine.len(), wire.len(), "records of side {side}");
        for (m, (seq, w)) in mine.iter().zip(&wire) {
            check!(
                m.seq == *seq && m.explicit_nonce == w.1 && m.ciphertext == w.2 && m.tag.as_ref().is_none_or(|t| *t == w.3),
                "record {seq} of side {side} is not the one on the wire"
            );
        }
    }
    Ok(())
}

/// One verified statement against the truth.
pub fn judge(pr: &Prove, pi: usize, o: &Out, truth: (&[u8], &[u8]), cx: &mut Cx) -> CaseResult {
    let (Some(Ok(p)), Some(Ok(v))) = (&o.prover, &o.verifier) else { fail!("no outcome") };
    let (sent, recv) = Plan::reveal(pr, truth.0.len(), truth.1.len());
    let (po, vo) = match (&p.proofs[pi], &v.proofs[pi]) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) if !pr.accept => {
            check!(e.contains("not today"), "the reason of the rejection is lost: {e}");
            return Ok(());
        }
        (a, b) => fail!("proof {pi}: prover {:?}, verifier {:?}", a.as_ref().map(|_| ()), b.as_ref().map(|_| ())),
    };
    check!(pr.accept, "the prover holds a rejected request for accepted");
    let name = vo.server_name.as_ref().map(|ServerName::Dns(d)| d.as_str().to_string());
    check_eq!(name, pr.identity.then(|| NAME.to_string()), "server name");
    let asked = &v.asked[pi];
    check_eq!(asked.identity, pr.identity, "request: server identity");
    match &vo.transcript {
        None => check!(sent.is_empty() && recv.is_empty(), "nothing is shown"),
        Some(t) => {
            check_eq!((t.len_sent(), t.len_received()), (truth.0.len(), truth.1.len()), "lengths of the transcript");
            check_eq!(idx(t.sent_authed()), sent, "revealed ranges, sent");
            check_eq!(idx(t.received_authed()), recv, "revealed ranges, received");
            check_eq!(asked.reveal.as_ref(), Some(&(sent.clone(), recv.clone())), "request: revealed ranges");
            for (set, got, want, what) in [(&sent, t.sent_unsafe(), truth.0, "sent"), (&recv, t.received_unsafe(), truth.1, "received")] {
                let mut k = set.iter().peekable();
                for i in 0..want.len() {
                    let shown = k.next_if(|x| **x == i).is_some();
                    check_eq!(got[i], if shown { want[i] } else { 0 }, "byte {i} of what was {what}");
                }
            }
            cx.label_if(!sent.is_empty() || !recv.is_empty(), "reveals");
            cx.label_if(t.is_complete() && !truth.1.is_empty(), "reveals all");
        }
    }
    // Commitments.
    let mut want = BTreeSet::new();
    for (r, rs, a) in &pr.commits {
        let n = if *r { truth.1.len() } else { truth.0.len() };
        let i = ranges(rs, n);
        if !i.is_empty() {
            want.insert((*r, i, a % 3));
        }
    }
    check_eq!(vo.transcript_commitments.len(), want.len(), "number of commitments");
    let mut seen = BTreeSet::new();
    for c in &vo.transcript_commitments {
        let TranscriptCommitment::Hash(h) = c else { fail!("what kind of commitment is this") };
        let r = h.direction == Direction::Received;
        let k = (0..3).find(|k| alg(*k) == h.hash.alg).ok_or("algorithm")?;
        let i = idx(&h.idx);
        check!(want.contains(&(r, i.clone(), k)), "a commitment nobody asked for");
        check!(seen.insert((r, i.clone(), k)), "one commitment comes twice");
        let data = if r { truth.1 } else { truth.0 };
        let opened = po.transcript_secrets.iter().filter(|s| {
            let TranscriptSecret::Hash(s) = s else { return false };
            s.direction == h.direction && idx(&s.idx) == i && s.alg == h.hash.alg && {
                let mut b: Vec<u8> = i.iter().map(|i| data[*i]).collect();
                b.extend_from_slice(s.blinder.as_bytes());
                digest(s.alg, &b).as_deref() == Some(h.hash.value.as_bytes())
            }
        });
        check_eq!(opened.count(), 1, "secrets that open a commitment");
        cx.label(format!("commitment {}", ["sha256", "blake3", "keccak256"][k as usize]));
    }
    check_eq!(po.transcript_commitments.len(), vo.transcript_commitments.len(), "the prover's commitments");
    for (a, b) in po.transcript_commitments.iter().zip(&vo.transcript_commitments) {
        let (TranscriptCommitment::Hash(a), TranscriptCommitment::Hash(b)) = (a, b) else { fail!("what kind of commitment is this") };
        check!(a == b, "the prover's commitments are not the verifier's");
    }
    Ok(())
}

fn run_honest(v: &Honest, cx: &mut Cx) -> CaseResult {
    let taken = Rc::new(RefCell::new(Taken::default()));
    let o = run(&v.plan, None, Some(Taken::tap(&taken)));
    let (out, answer) = v.plan.data();
    check!(o.panics.is_empty(), "panic: {}", o.brief());
    check!(o.end == End::Done, "{}", o.brief());
    let (Some(Ok(p)), Some(Ok(vr))) = (&o.prover, &o.verifier) else { fail!("{}", o.brief()) };
    check!(o.drivers.iter().all(|d| matches!(d, Some(Ok(())))), "{}", o.brief());
    let (app, srv) = (o.app.as_ref().unwrap(), o.srv.as_ref().unwrap());
    check!(srv.shaken && srv.err.is_none(), "server: {:?}", srv.err);
    check!(app.err.is_none(), "application: {:?}", app.err);
    check!(app.eof, "the application's connection did not end");
    check_eq!(srv.sni.as_deref(), Some(NAME), "server name asked for");
    if let Some(k) = v.plan.client_auth {
        check_eq!(srv.client_certs, crate::certs::chain(k, 0, "client.test"), "the client's certificates");
    }
    check!(srv.read == out, "the server received {} bytes, not the {} that were written", srv.read.len(), out.len());
    check!(app.read == answer, "the application read {} bytes, not the {} that the server sent", app.read.len(), answer.len());
    check!(p.transcript.sent() == out, "the prover's transcript: sent");
    check!(p.transcript.received() == answer, "the prover's transcript: received");
    if matches!(v.talk.fin, Fin::Late | Fin::Early) {
        check!(srv.closed || v.talk.fin == Fin::Early, "the server was not told of the end");
    }
    same_records(&p.tls, &taken.borrow())?;
    same_records(&vr.tls, &taken.borrow())?;
    check!(vr.tls.time().abs_diff(p.tls.time()) < 60, "time {} of the verifier, {} of the prover", vr.tls.time(), p.tls.time());
    check!(vr.tls.version() == p.tls.version(), "version");
    check!(bincode::serialize(vr.tls.certificate_binding()).ok() == bincode::serialize(p.tls.certificate_binding()).ok(), "certificate binding");
    check!(p.unbuilt.is_empty(), "{:?}", p.unbuilt);
    check_eq!(p.proofs.len(), v.plan.proves.len(), "proofs");
    check_eq!(vr.proofs.len(), v.plan.proves.len(), "verifications");
    for (i, pr) in v.plan.proves.iter().enumerate() {
        judge(pr, i, &o, (&out, &answer), cx)?;
    }
    cx.label(format!("{:?}", v.talk.fin));
    cx.label(format!("{} proofs", v.plan.proves.len()));
    cx.label_if(v.plan.frag.is_some(), "cut");
    cx.label_if(v.plan.client_auth.is_some(), "client auth");
    cx.label_if(v.talk.online(), "decrypts online");
    cx.nontrivial(v.plan.proves.iter().any(|p| p.accept));
    Ok(())
}

pub fn c70() -> Check {
    Check {
        id: "C70",
        rule: "a session in which at least one statement was accepted",
        assumptions: &["the two-party computation is ideal: values are evaluated as its circuits say, and both parties see the outputs"],
        laws: vec![law("honest MPC sessions", cases(1200), || honest(false, 700), run_honest)],
    }
}
pub fn c71() -> Check {
    Check {
        id: "C71",
        rule: "a session in which at least one statement was accepted",
        assumptions: &["the zero-knowledge proof system is ideal"],
        laws: vec![law("honest proxy sessions", cases(4000), || honest(true, 20000), run_honest)],
    }
}
