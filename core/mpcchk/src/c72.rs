//! Sessions in which one side sends something else than it should.
use crate::{c70::*, c76::*, net::*, sess::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, collections::HashMap, rc::Rc};
use vpt::{cases, check, gen::Bytes, law, CaseResult, Check, Cx};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum How {
    Flip(u16, u8),
    Cut(u16),
    Grow(Bytes),
    Drop,
    Dup,
    /// After the next one on the same stream.
    Swap,
    /// An earlier one of the stream instead.
    Replay(u16),
    Fill(Bytes),
    /// Something that looks like a number gets another value.
    Number(u16, u8),
    /// Something that looks like a length, and what it is the length of.
    Resize(u16, i8),
    /// All copies of one byte of plaintext and ciphertext.
    Lie(bool, u16, u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Tamper {
    /// In parts of 65536 of all messages of this side, or so many before the last.
    pub at: u16,
    pub late: bool,
    pub how: How,
}
pub fn how() -> impl Strategy<Value = How> + Clone {
    prop_oneof![
        4 => (any::<u16>(), 1u8..).prop_map(|(a, b)| How::Flip(a, b)),
        2 => any::<u16>().prop_map(How::Cut),
        1 => vpt::gen::bytes(1..40).prop_map(How::Grow),
        1 => Just(How::Drop),
        2 => Just(How::Dup),
        2 => Just(How::Swap),
        2 => any::<u16>().prop_map(How::Replay),
        1 => vpt::gen::bytes(0..60).prop_map(How::Fill),
        8 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| How::Number(a, b)),
        6 => (any::<u16>(), prop_oneof![Just(-1i8), Just(1i8), Just(-128), -40i8..40]).prop_map(|(a, b)| How::Resize(a, b)),
        2 => (any::<bool>(), any::<u16>(), 1u8..).prop_map(|(a, b, c)| How::Lie(a, b, c)),
    ]
}
pub fn tamper() -> impl Strategy<Value = Tamper> + Clone {
    (any::<bool>(), any::<u16>(), how()).prop_map(|(late, at, how)| Tamper { at: if late { at % 12 } else { at }, late, how })
}
fn place(at: u16, n: usize) -> usize {
    at as usize * n / 65536
}
/// Places of 8 bytes that may be a number.
fn numbers(m: &[u8], max: u64) -> Vec<(usize, u64)> {
    (0..m.len().saturating_sub(7)).map(|p| (p, u64::from_le_bytes(m[p..p + 8].try_into().unwrap()))).filter(|(_, v)| *v <= max).collect()
}
/// The message that comes instead.
pub fn change(how: &How, m: &mut Vec<u8>) {
    match how {
        How::Flip(p, x) if !m.is_empty() => {
            let i = place(*p, m.len());
            m[i] ^= x;
        }
        How::Cut(p) => m.truncate(place(*p, m.len())),
        How::Grow(b) => m.extend_from_slice(&b.0),
        How::Fill(b) => *m = b.0.clone(),
        How::Number(p, v) => {
            let c = numbers(m, 1 << 20);
            if !c.is_empty() {
                let (at, old) = c[place(*p, c.len())];
                let new = match v % 12 {
                    0 => old.wrapping_sub(1),
                    1 => old + 1,
                    2 => 0,
                    3 => u64::MAX,
                    4 => 1 << 63,
                    5 => (1 << 32) | old,
                    6 => old ^ 1,
                    7 => old * 2,
                    8 => old + (*v as u64),
                    9 => *v as u64,
                    10 => u64::MAX - old,
                    _ => old / 2,
                };
                m[at..at + 8].copy_from_slice(&new.to_le_bytes());
            }
        }
        How::Resize(p, d) => {
            let c: Vec<_> = numbers(m, m.len() as u64).into_iter().filter(|(p, v)| *v > 0 && p + 8 + *v as usize <= m.len()).collect();
            if !c.is_empty() {
                let (at, old) = c[place(*p, c.len())];
                let new = if *d == -128 { 0 } else { (old as i64 + *d as i64).max(0) as usize };
                let end = at + 8 + old as usize;
                if new <= old as usize {
                    m.drain(at + 8 + new..end);
                } else {
                    let more = vec![0xa5; new - old as usize];
                    m.splice(end..end, more);
                }
                m[at..at + 8].copy_from_slice(&(new as u64).to_le_bytes());
            }
        }
        _ => {}
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mal {
    pub h: Honest,
    pub tampers: Vec<Tamper>,
}
/// Bytes to be exchanged in every message: where they are seen, and what for.
type Lies = Rc<RefCell<Vec<(Vec<u8>, usize, u8)>>>;

fn count_bits(m: &[u8]) -> usize {
    let mut n = 0;
    mpzsim::ideal_vm::with_inputs(m, |b| n += b.len());
    n
}

/// A tap in which `bad` sends the wrong messages.
pub fn tap(bad: usize, total: usize, tampers: &[Tamper], lies: Lies, hits: Rc<RefCell<usize>>, inputs: Rc<RefCell<Vec<Vec<u8>>>>) -> Box<Tap> {
    let at: Vec<(usize, How)> = tampers
        .iter()
        .filter(|t| !matches!(t.how, How::Lie(..)))
        .map(|t| (if t.late { total.saturating_sub(1 + t.at as usize) } else { place(t.at, total) }, t.how.clone()))
        .collect();
    let mut n = 0;
    let mut past: HashMap<Vec<u8>, Vec<Vec<u8>>> = HashMap::new();
    let mut held: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    Box::new(move |side, id, _, mut m| {
        if side != bad {
            return Act::Pass(m);
        }
        let k = n;
        n += 1;
        for (w, i, x) in lies.borrow().iter() {
            let mut p = 0;
            while let Some(q) = m[p..].windows(w.len()).position(|y| y == w) {
                m[p + q + i] ^= x;
                p += q + w.len();
                *hits.borrow_mut() += 1;
                if p >= m.len() {
                    break;
                }
            }
        }
        if let Some(t) = mpzsim::ideal_vm::with_inputs(&m, |bits| {
            for (w, i, x) in lies.borrow().iter() {
                let w: Vec<u8> = w.iter().flat_map(|b| (0..8).map(move |k| b >> k & 1)).collect();
                for q in (0..bits.len().saturating_sub(w.len() - 1)).step_by(8) {
                    if bits[q..].starts_with(&w) {
                        (0..8).for_each(|k| bits[q + i * 8 + k] ^= x >> k & 1);
                        *hits.borrow_mut() += 1;
                    }
                }
            }
        }) {
            // The ideal machine: a party can have other inputs, or give up.
            m = t;
            for (_, how) in at.iter().filter(|a| a.0 == k) {
                *hits.borrow_mut() += 1;
                let total: usize = count_bits(&m);
                let (p, x) = match how {
                    How::Flip(p, x) => (*p, *x),
                    How::Number(p, x) => (*p, *x | 1),
                    How::Resize(p, x) => (*p, *x as u8 | 1),
                    How::Replay(p) => (*p, 0x80),
                    How::Cut(_) | How::Fill(_) => return Act::Pass(vec![0]),
                    _ => (0, 1),
                };
                if total > 0 {
                    let at = place(p, total);
                    let mut n = 0;
                    m = mpzsim::ideal_vm::with_inputs(&m, |bits| {
                        for b in bits.iter_mut() {
                            if n >= at && n < at + 8 {
                                *b ^= x >> (n - at) & 1;
                            }
                            n += 1;
                        }
                    })
                    .unwrap();
                }
            }
            let mut all = inputs.borrow_mut();
            mpzsim::ideal_vm::with_inputs(&m, |bits| {
                let b: Vec<u8> = bits.chunks_exact(8).map(|c| (0..8).fold(0, |a, k| a | c[k] << k)).collect();
                all.extend(b.windows(16).take(4096).map(|w| w.to_vec()));
            });
            return Act::Pass(m);
        }
        if m.starts_with(&mpzsim::share::MAGIC.to_le_bytes()) {
            for (_, how) in at.iter().filter(|a| a.0 == k) {
                *hits.borrow_mut() += 1;
                match how {
                    How::Flip(p, x) | How::Number(p, x) => change(&How::Flip(*p, *x), &mut m),
                    How::Cut(_) | How::Fill(_) => m = vec![0],
                    _ => {}
                }
            }
            return Act::Pass(m);
        }
        let mut out = vec![];
        let mut dup = false;
        let mut hold = false;
        let mut drop = false;
        for (_, how) in at.iter().filter(|a| a.0 == k) {
            *hits.borrow_mut() += 1;
            match how {
                How::Drop => drop = true,
                How::Dup => dup = true,
                How::Swap => hold = true,
                How::Replay(p) => {
                    if let Some(v) = past.get(id).filter(|v| !v.is_empty()) {
                        m = v[place(*p, v.len())].clone();
                    }
                }
                h => change(h, &mut m),
            }
        }
        past.entry(id.to_vec()).or_default().push(m.clone());
        if hold && !held.contains_key(id) {
            held.insert(id.to_vec(), m);
            return Act::Many(vec![]);
        }
        if !drop {
            if dup {
                out.push(m.clone());
            }
            out.push(m);
        }
        out.extend(held.remove(id));
        Act::Many(out)
    })
}

/// The windows of 9 bytes around byte `i`.
fn windows(b: &[u8], i: usize, x: u8, out: &mut Vec<(Vec<u8>, usize, u8)>) {
    let (a, e) = (i.saturating_sub(4), (i + 5).min(b.len()));
    if e - a >= 6 {
        out.push((b[a..e].to_vec(), i - a, x));
    }
}

pub struct Ran {
    pub o: Out,
    pub taken: Rc<RefCell<Taken>>,
    pub hits: usize,
    /// All 16 bytes in a row of the private inputs of the one that lies.
    pub inputs: Vec<Vec<u8>>,
}
/// An honest run to see what there is, then the other one.
pub fn run_bad(bad: usize, v: &Mal) -> Ran {
    let n = Rc::new(RefCell::new(0usize));
    let k = n.clone();
    let count: Box<Tap> = Box::new(move |side, _, _, m| {
        if side == bad {
            *k.borrow_mut() += 1;
        }
        Act::Pass(m)
    });
    run(&v.h.plan, Some(Rc::new(RefCell::new(count))), None);
    let total = *n.borrow();
    let lies: Lies = Default::default();
    let hits = Rc::new(RefCell::new(0));
    let taken = Rc::new(RefCell::new(Taken::default()));
    let (out, answer) = v.h.plan.data();
    let mut pos = [vec![], vec![]];
    for t in &v.tampers {
        if let How::Lie(recv, p, x) = t.how {
            let d = if recv { &answer } else { &out };
            if !d.is_empty() {
                let i = place(p, d.len());
                windows(d, i, x, &mut lies.borrow_mut());
                pos[recv as usize].push((i, x));
            }
        }
    }
    // The ciphertext is known once it was on the wire.
    let w: Box<Wire> = {
        let (taken, lies) = (taken.clone(), lies.clone());
        Box::new(move |side, b| {
            let mut t = taken.borrow_mut();
            t.0[side].extend_from_slice(b);
            if !pos[side].is_empty() {
                let mut at = 0;
                for r in t.records(side).iter().filter(|r| r.0 == 23) {
                    for (i, x) in pos[side].iter().filter(|p| p.0 >= at && p.0 < at + r.2.len()) {
                        let mut l = vec![];
                        windows(&r.2, i - at, *x, &mut l);
                        for l in l {
                            if !lies.borrow().contains(&l) {
                                lies.borrow_mut().push(l);
                            }
                        }
                    }
                    at += r.2.len();
                }
            }
            true
        })
    };
    let inputs = Rc::new(RefCell::new(vec![]));
    let t = tap(bad, total, &v.tampers, lies, hits.clone(), inputs.clone());
    let o = run(&v.h.plan, Some(Rc::new(RefCell::new(t))), Some(Rc::new(RefCell::new(w))));
    let hits = *hits.borrow();
    Ran { o, taken, hits, inputs: inputs.take() }
}
/// The honest side did not panic and does not spin. (The prover asks again and
/// again whether the TLS client takes bytes it has: it spins while it waits.)
pub fn calm(o: &Out, who: &str) -> CaseResult {
    for (t, m) in &o.panics {
        check!(!t.starts_with(who), "{t} panics: {m}");
    }
    if let End::Spinning(l) = &o.end {
        check!(who == "prover" || !l.iter().any(|t| t.starts_with(who)), "spins: {}", o.brief());
    }
    Ok(())
}
fn run_prover(v: &Mal, cx: &mut Cx) -> CaseResult {
    let r = run_bad(0, v);
    calm(&r.o, "verifier")?;
    if let Some(Ok(p)) = &r.o.verifier {
        sound_of(&v.h.plan, &r.o, p, &r.taken.borrow(), Some(&r.inputs), cx)?;
    }
    cx.nontrivial(r.hits > 0);
    cx.label(match &r.o.verifier {
        None => "the verifier waits".into(),
        Some(Err(e)) => format!("refused in {}", e.stage),
        Some(Ok(v)) if v.proofs.iter().any(|p| p.is_err()) => "proof refused".into(),
        Some(Ok(_)) => "accepted".into(),
    });
    Ok(())
}
fn run_verifier(v: &Mal, cx: &mut Cx) -> CaseResult {
    let r = run_bad(1, v);
    calm(&r.o, "prover")?;
    check!(!r.o.panics.iter().any(|p| p.0 == "app" || p.0 == "server"), "panic: {:?}", r.o.panics);
    let taken = r.taken.borrow();
    let (out, answer) = v.h.plan.data();
    if let Some(a) = &r.o.app {
        check!(answer.starts_with(&a.read), "the application read what the server did not send");
    }
    if let Some(s) = &r.o.srv {
        check!(out.starts_with(&s.read), "the server got what was not written");
    }
    if let Some(Ok(p)) = &r.o.prover {
        from_wire(&p.tls, &taken)?;
        check!(answer.starts_with(p.transcript.received()), "the prover holds what the server did not send");
        check!(out.starts_with(p.transcript.sent()), "the prover holds what was not written");
    }
    cx.nontrivial(r.hits > 0);
    cx.label(match &r.o.prover {
        None => "the prover waits".into(),
        Some(Err(e)) => format!("refused in {}", e.stage),
        Some(Ok(v)) if v.proofs.iter().any(|p| p.is_err()) => "proof fails".into(),
        Some(Ok(_)) => "completed".into(),
    });
    Ok(())
}

pub fn mal(proxy: bool, max: u16) -> impl Strategy<Value = Mal> + Clone {
    (honest(proxy, max), prop::collection::vec(tamper(), 1..3)).prop_map(|(mut h, tampers)| {
        if h.plan.proves.is_empty() {
            h.plan.proves.push(Prove { identity: true, sent: vec![(0, 40000)], recv: vec![(20000, 65535)], accept: true, commits: vec![(true, vec![(0, 30000)], 0)], ..Default::default() });
        }
        Mal { h, tampers }
    })
}
pub fn c72() -> Check {
    Check {
        id: "C72",
        rule: "a message was changed",
        assumptions: &["the two-party computation is ideal: its own messages carry inputs and requests to decode only"],
        laws: [
            vec![
            law("lying prover, MPC", cases(1200), || mal(false, 300), run_prover),
            law("lying prover, proxy", cases(6000), || mal(true, 2000), run_prover),
            ],
            crate::claims::laws(),
        ]
        .into_iter()
        .flatten()
        .collect(),
    }
}
pub fn c73() -> Check {
    Check {
        id: "C73",
        rule: "a message was changed",
        assumptions: &["the two-party computation is ideal: its own messages carry inputs and requests to decode only"],
        laws: vec![
            law("lying verifier, MPC", cases(1200), || mal(false, 300), run_verifier),
            law("lying verifier, proxy", cases(6000), || mal(true, 2000), run_verifier),
        ],
    }
}
