//! A prover that asks the verifier to accept something else than what happened,
//! and that has changed its own program to fit.
use crate::{c70::*, c72::calm, c76::sound_of, net::*, sess::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, collections::HashMap, rc::Rc};
use tlsn::{
    connection::{CertBinding, DnsName, HandshakeData, ServerName},
    hash::HashAlgId,
    rangeset::set::RangeSet,
    transcript::Direction,
};
use vpt::{cases, check, law, CaseResult, Cx, Law};

type Set = RangeSet<usize>;
// What the prover's request is on the wire.
#[derive(Clone, Serialize, Deserialize)]
struct Msg {
    request: Req,
    handshake: Option<(ServerName, HandshakeData)>,
    transcript: Option<Part>,
}
#[derive(Clone, Serialize, Deserialize)]
struct Req {
    identity: bool,
    reveal: Option<(Set, Set)>,
    commit: Option<Vec<(Direction, Set, HashAlgId)>>,
}
#[derive(Clone, Serialize, Deserialize)]
struct Part {
    data: [Vec<u8>; 2],
    idx: [Set; 2],
    total: [usize; 2],
}
fn parse(m: &[u8]) -> Option<Msg> {
    let p: Msg = bincode::deserialize(m).ok()?;
    (bincode::serialize(&p).ok()? == m).then_some(p)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Edit {
    /// Says that the transcript of a side is so much longer.
    Total(bool, i8),
    /// One byte of what is shown.
    Byte(bool, u16, u8),
    /// Shows other ranges, with what was there.
    Show(bool, Vec<(u16, u16)>),
    /// Shows bytes after the end.
    Past(bool, u8),
    /// The ranges of the request only, or of the transcript only.
    Asked(bool, Vec<(u16, u16)>),
    Shown(bool, Vec<(u16, u16)>),
    NoReveal,
    NoTranscript,
    NoHandshake,
    Identity(bool),
    Name(u8),
    /// The handshake of another connection, to a server with another or the same key.
    Other(bool),
    /// One byte of a part of the handshake: the signature, the key, the randoms, the certificate.
    Handshake(u8, u16, u8),
    /// The signature and the randoms are another connection's, the key is not.
    Resign(bool),
    /// The certificates of another server.
    Certs,
    NoCerts,
    /// A commitment to other ranges, with another algorithm or direction.
    Commit(u8, bool, Vec<(u16, u16)>, u8),
    CommitPast(bool, u8),
    NoCommit(u8),
    Again(u8),
    Swap,
}
fn edit() -> impl Strategy<Value = Edit> + Clone {
    let b = any::<bool>;
    prop_oneof![
        3 => (b(), prop_oneof![Just(1i8), Just(-1), any::<i8>()]).prop_map(|(a, b)| Edit::Total(a, b)),
        6 => (b(), any::<u16>(), 1u8..).prop_map(|(a, b, c)| Edit::Byte(a, b, c)),
        3 => (b(), parts()).prop_map(|(a, b)| Edit::Show(a, b)),
        2 => (b(), any::<u8>()).prop_map(|(a, b)| Edit::Past(a, b)),
        2 => (b(), parts()).prop_map(|(a, b)| Edit::Asked(a, b)),
        2 => (b(), parts()).prop_map(|(a, b)| Edit::Shown(a, b)),
        1 => Just(Edit::NoReveal),
        1 => Just(Edit::NoTranscript),
        1 => Just(Edit::NoHandshake),
        1 => b().prop_map(Edit::Identity),
        1 => any::<u8>().prop_map(Edit::Name),
        2 => b().prop_map(Edit::Other),
        4 => (any::<u8>(), any::<u16>(), 1u8..).prop_map(|(a, b, c)| Edit::Handshake(a, b, c)),
        2 => b().prop_map(Edit::Resign),
        1 => Just(Edit::Certs),
        1 => Just(Edit::NoCerts),
        3 => (any::<u8>(), b(), parts(), any::<u8>()).prop_map(|(a, b, c, d)| Edit::Commit(a, b, c, d)),
        2 => (b(), any::<u8>()).prop_map(|(a, b)| Edit::CommitPast(a, b)),
        1 => any::<u8>().prop_map(Edit::NoCommit),
        1 => any::<u8>().prop_map(Edit::Again),
        1 => Just(Edit::Swap),
    ]
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Claim {
    pub h: Honest,
    /// Which of the requests is changed.
    pub which: u8,
    pub edits: Vec<Edit>,
    /// Private inputs that the prover changes from then on: bit, in parts of 65536.
    pub inputs: Vec<u16>,
}

fn other_name(k: u8) -> ServerName {
    let n = ["b.test", "test", "x.a.test", "a.test.test", "aa.test", "example.com"][k as usize % 6];
    ServerName::Dns(DnsName::try_from(n).unwrap())
}
thread_local! {
    static OTHER: RefCell<HashMap<u8, Option<(ServerName, HandshakeData)>>> = Default::default();
}
/// The handshake of some other connection to a server with this key.
fn other(key: u8) -> Option<(ServerName, HandshakeData)> {
    if let Some(o) = OTHER.with(|o| o.borrow().get(&key).cloned()) {
        return o;
    }
    let plan = Plan {
        seed: 0,
        frag: None,
        cap: 1 << 20,
        mode: Mode::Proxy,
        key,
        depth: 0,
        max_fragment: None,
        tickets: false,
        client_auth: None,
        app: vec![App::Write(10), App::Read(10), App::Close],
        srv: vec![Srv::Expect(10), Srv::Send(10), Srv::CloseNotify, Srv::Wait],
        proves: vec![Prove { identity: true, accept: true, ..Default::default() }],
    };
    let got = Rc::new(RefCell::new(None));
    let g = got.clone();
    let t: Box<Tap> = Box::new(move |side, _, _, m| {
        if side == 0 {
            if let Some(p) = parse(&m) {
                *g.borrow_mut() = p.handshake;
            }
        }
        Act::Pass(m)
    });
    let was = mpzsim::ideal_vm::adapting();
    run(&plan, Some(Rc::new(RefCell::new(t))), None);
    mpzsim::ideal_vm::adapt(was);
    let r = got.borrow().clone();
    OTHER.with(|o| o.borrow_mut().insert(key, r.clone()));
    r
}

fn read(data: &[u8], s: &Set) -> Vec<u8> {
    s.iter().flatten().map(|i| data.get(i).copied().unwrap_or(0)).collect()
}
/// Makes the change; whether the name must then not be accepted.
fn apply(e: &Edit, m: &mut Msg, key: u8, data: &[Vec<u8>; 2]) -> bool {
    let k = |recv: &bool| *recv as usize;
    match e {
        Edit::Total(d, n) => {
            if let Some(t) = &mut m.transcript {
                t.total[k(d)] = (t.total[k(d)] as i64 + *n as i64).max(0) as usize;
            }
        }
        Edit::Byte(d, p, x) => {
            if let Some(t) = &mut m.transcript {
                let v = if t.data[k(d)].is_empty() { &mut t.data[1 - k(d)] } else { &mut t.data[k(d)] };
                if !v.is_empty() {
                    let i = *p as usize * v.len() / 65536;
                    v[i] ^= x;
                }
            }
        }
        Edit::Show(d, rs) | Edit::Asked(d, rs) | Edit::Shown(d, rs) => {
            let s = to_set(&ranges(rs, data[k(d)].len()));
            if !matches!(e, Edit::Shown(..)) {
                let r = m.request.reveal.get_or_insert_with(Default::default);
                *(if *d { &mut r.1 } else { &mut r.0 }) = s.clone();
            }
            if !matches!(e, Edit::Asked(..)) {
                let t = m.transcript.get_or_insert_with(|| Part { data: Default::default(), idx: Default::default(), total: [data[0].len(), data[1].len()] });
                t.data[k(d)] = read(&data[k(d)], &s);
                t.idx[k(d)] = s;
            }
        }
        Edit::Past(d, n) => {
            let n = *n as usize % 20 + 1;
            let (Some(r), Some(t)) = (&mut m.request.reveal, &mut m.transcript) else { return false };
            let s = if *d { &mut r.1 } else { &mut r.0 };
            let len = t.total[k(d)];
            s.union_mut(len..len + n);
            t.idx[k(d)] = s.clone();
            t.data[k(d)].extend(vec![7; n]);
            t.total[k(d)] += n;
        }
        Edit::NoReveal => m.request.reveal = None,
        Edit::NoTranscript => m.transcript = None,
        Edit::NoHandshake => m.handshake = None,
        Edit::Identity(b) => m.request.identity = *b,
        Edit::Name(n) => {
            if let Some(h) = &mut m.handshake {
                h.0 = other_name(*n);
                return true;
            }
        }
        Edit::Other(same) => {
            if let Some(o) = other(if *same { key } else { (key + 1) % 3 }) {
                m.handshake = Some(o);
                return true;
            }
        }
        Edit::Resign(same) => {
            if let (Some(o), Some(h)) = (other(if *same { key } else { (key + 1) % 3 }), &mut m.handshake) {
                let CertBinding::V1_2(a) = &mut h.1.binding else { return false };
                let CertBinding::V1_2(b) = o.1.binding else { return false };
                (a.client_random, a.server_random) = (b.client_random, b.server_random);
                h.1.sig = o.1.sig;
                return true;
            }
        }
        Edit::Certs => {
            if let (Some(o), Some(h)) = (other((key + 1) % 3), &mut m.handshake) {
                h.1.certs = o.1.certs;
                return true;
            }
        }
        Edit::NoCerts => {
            if let Some(h) = &mut m.handshake {
                h.1.certs.clear();
                return true;
            }
        }
        Edit::Handshake(part, p, x) => {
            let Some(h) = &mut m.handshake else { return false };
            let CertBinding::V1_2(b) = &mut h.1.binding else { return false };
            let v: &mut [u8] = match part % 5 {
                0 => &mut h.1.sig.sig,
                1 => &mut b.server_ephemeral_key.key,
                2 => &mut b.client_random,
                3 => &mut b.server_random,
                _ => match h.1.certs.first_mut() {
                    Some(c) => &mut c.0,
                    None => return false,
                },
            };
            if !v.is_empty() {
                let i = *p as usize * v.len() / 65536;
                v[i] ^= x;
                return true;
            }
        }
        Edit::Commit(n, d, rs, a) => {
            let s = to_set(&ranges(rs, data[k(d)].len()));
            let dir = if *d { Direction::Received } else { Direction::Sent };
            let c = m.request.commit.get_or_insert_with(Vec::new);
            let new = (dir, s, alg(*a));
            match c.len() {
                0 => c.push(new),
                l => c[*n as usize % l] = new,
            }
        }
        Edit::CommitPast(d, n) => {
            let len = data[k(d)].len();
            let s: Set = (len.saturating_sub(3)..len + 1 + *n as usize % 20).into();
            let dir = if *d { Direction::Received } else { Direction::Sent };
            m.request.commit.get_or_insert_with(Vec::new).push((dir, s, alg(*n)));
        }
        Edit::NoCommit(n) => {
            if let Some(c) = m.request.commit.as_mut().filter(|c| !c.is_empty()) {
                c.remove(*n as usize % c.len());
            }
        }
        Edit::Again(n) => {
            if let Some(c) = m.request.commit.as_mut().filter(|c| !c.is_empty()) {
                c.push(c[*n as usize % c.len()].clone());
            }
        }
        Edit::Swap => {
            if let Some(t) = &mut m.transcript {
                t.data.swap(0, 1);
                t.idx.swap(0, 1);
                t.total.swap(0, 1);
            }
            if let Some((a, b)) = &mut m.request.reveal {
                std::mem::swap(a, b);
            }
        }
    }
    false
}

fn run_claim(v: &Claim, cx: &mut Cx) -> CaseResult {
    let (out, answer) = v.h.plan.data();
    let data = [out, answer];
    let state = Rc::new(RefCell::new((0usize, None::<bool>)));
    // What it put in before.
    let own = Rc::new(RefCell::new(vec![]));
    let tap: Box<Tap> = {
        let (st, own, v) = (state.clone(), own.clone(), v.clone());
        let which = v.which as usize % v.h.plan.proves.len();
        Box::new(move |side, _, _, m| {
            if side == 1 {
                return Act::Pass(m);
            }
            let mut s = st.borrow_mut();
            if let Some(mut p) = parse(&m) {
                s.0 += 1;
                if s.0 - 1 == which {
                    let mut refuse = false;
                    for e in &v.edits {
                        refuse |= apply(e, &mut p, v.h.plan.key, &data);
                    }
                    let new = bincode::serialize(&p).unwrap();
                    if new != m {
                        s.1 = Some(refuse);
                        mpzsim::ideal_vm::adapt(true);
                    }
                    return Act::Pass(new);
                }
                return Act::Pass(m);
            }
            let mut n = 0usize;
            let Some(total) = mpzsim::ideal_vm::with_inputs(&m, |b| n += b.len()).map(|_| n) else { return Act::Pass(m) };
            let mut m = m;
            if s.1.is_none() {
                mpzsim::ideal_vm::with_inputs(&m, |bits| own.borrow_mut().push(bits.clone()));
            }
            if s.1.is_some() {
                for p in &v.inputs {
                    let at = *p as usize * total / 65536;
                    let mut n = 0;
                    m = mpzsim::ideal_vm::with_inputs(&m, |bits| {
                        if at >= n && at < n + bits.len() {
                            bits[at - n] ^= 1;
                        }
                        n += bits.len();
                    })
                    .unwrap();
                }
            }
            Act::Pass(m)
        })
    };
    let taken = Rc::new(RefCell::new(Taken::default()));
    let o = run(&v.h.plan, Some(Rc::new(RefCell::new(tap))), Some(Taken::tap(&taken)));
    calm(&o, "verifier")?;
    let edited = state.borrow().1;
    cx.nontrivial(edited.is_some());
    let Some(Ok(vr)) = &o.verifier else {
        cx.label(match &o.verifier {
            None => "the verifier waits".into(),
            Some(Err(e)) => format!("refused in {}", e.stage),
            _ => String::new(),
        });
        return Ok(());
    };
    let inputs: Vec<Vec<u8>> = o
        .held
        .iter()
        .chain(own.borrow().iter())
        .flat_map(|bits| bits.chunks_exact(8).map(|c| (0..8).fold(0, |a, k| a | c[k] << k)).collect::<Vec<u8>>().windows(16).map(|w| w.to_vec()).collect::<Vec<_>>())
        .collect();
    sound_of(&v.h.plan, &o, vr, &taken.borrow(), edited.is_some().then_some(&inputs[..]), cx)?;
    let which = v.which as usize % v.h.plan.proves.len();
    if let (Some(refuse), Some(Ok(p))) = (edited, vr.proofs.get(which)) {
        check!(!refuse || p.server_name.is_none(), "accepted the name with another handshake");
        cx.label(format!("accepted {:?}", v.edits.iter().map(|e| format!("{e:?}").split('(').next().unwrap().to_string()).collect::<Vec<_>>()));
    } else {
        let why = vr.proofs.iter().find_map(|p| p.as_ref().err()).cloned().unwrap_or_default();
        cx.label(format!("refused: {}", why.chars().filter(|c| !c.is_ascii_digit()).take(150).collect::<String>()));
    }
    Ok(())
}

fn claim(proxy: bool, max: u16) -> impl Strategy<Value = Claim> + Clone {
    (honest(proxy, max), any::<u8>(), prop::collection::vec(edit(), 1..3), prop::collection::vec(any::<u16>(), 0..2)).prop_map(|(mut h, which, edits, inputs)| {
        h.plan.key %= 3;
        if h.plan.proves.is_empty() {
            h.plan.proves.push(Prove { identity: true, sent: vec![(0, 40000)], recv: vec![(20000, 65535)], commits: vec![(true, vec![(0, 30000)], 0)], ..Default::default() });
        }
        for p in &mut h.plan.proves {
            p.accept = true;
        }
        Claim { h, which, edits, inputs }
    })
}
pub fn laws() -> Vec<Box<dyn Law>> {
    vec![
        law("made-up claims, MPC", cases(800), || claim(false, 200), run_claim),
        law("made-up claims, proxy", cases(4000), || claim(true, 600), run_claim),
    ]
}
