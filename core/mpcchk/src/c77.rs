//! What the verifier gets to see.
use crate::{c70::*, c72::*, net::*, sess::*};
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::{BTreeSet, HashMap},
    rc::Rc,
};
use tlsn::transcript::TranscriptSecret;
use vpt::{cases, check, law, CaseResult, Check, Cx};

const RUN: usize = 12;

/// All that the prover sent, without the private inputs of the ideal parts.
type View = Rc<RefCell<Vec<Vec<u8>>>>;
fn bytes(bits: &[u8], from: usize) -> Vec<u8> {
    bits[from.min(bits.len())..].chunks_exact(8).map(|c| (0..8).fold(0, |a, k| a | c[k] << k)).collect()
}
fn see(view: &View, m: &[u8]) {
    if let Some(p) = mpzsim::ideal_vm::public_part(m) {
        view.borrow_mut().extend(p.iter().map(|b| bytes(b, 0)));
    } else if !m.starts_with(&mpzsim::share::MAGIC.to_le_bytes()) {
        view.borrow_mut().push(m.to_vec());
    }
}

fn prf(secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    use openssl::{hash::MessageDigest, pkey::PKey, sign::Signer};
    let k = PKey::hmac(secret).unwrap();
    let mac = |b: &[u8]| {
        let mut s = Signer::new(MessageDigest::sha256(), &k).unwrap();
        s.update(b).unwrap();
        s.sign_to_vec().unwrap()
    };
    let seed = [label, seed].concat();
    let (mut a, mut out) = (mac(&seed), vec![]);
    while out.len() < n {
        out.extend(mac(&[&a[..], &seed].concat()));
        a = mac(&a);
    }
    out.truncate(n);
    out
}

/// The secrets, by name.
struct Hidden(HashMap<Vec<u8>, String>, usize, Vec<Vec<u8>>);
impl Hidden {
    fn add(&mut self, b: &[u8], what: &str) {
        for (i, w) in b.windows(RUN).enumerate() {
            self.0.entry(w.to_vec()).or_insert_with(|| format!("{what}, from byte {i}"));
        }
    }
    fn find(&self, m: &[u8]) -> Option<&String> {
        m.windows(RUN).find_map(|w| self.0.get(w))
    }
}

/// What nobody but the prover may know.
fn hidden(plan: &Plan, o: &Out, taken: &Taken, cx: &mut Cx) -> Hidden {
    let mut h = Hidden(HashMap::new(), 0, vec![]);
    let (out, answer) = plan.data();
    // All that the prover was asked to show; of a transcript that may be shorter.
    let mut lens = BTreeSet::from([(out.len(), answer.len())]);
    if let Some(Ok(p)) = &o.prover {
        lens = BTreeSet::from([(p.transcript.sent().len(), p.transcript.received().len())]);
    }
    let mut shown = [BTreeSet::new(), BTreeSet::new()];
    let mut whole = [false; 2];
    for p in &plan.proves {
        for (s, r) in &lens {
            let (a, b) = Plan::reveal(p, *s, *r);
            whole[0] |= a.len() == *s;
            whole[1] |= b.len() == *r;
            shown[0].extend(a);
            shown[1].extend(b);
        }
    }
    let srv = o.srv.as_ref();
    let keys = srv.and_then(|s| s.secrets.first()).filter(|_| taken.0[1].len() > 43).map(|(random, master)| {
        h.add(master, "the master secret");
        prf(master, b"key expansion", &[&taken.0[1][11..43], random].concat(), 40)
    });
    for side in 0..2 {
        // With all of a side the keys are shown.
        if whole[side] {
            continue;
        }
        if let Some(k) = &keys {
            h.2.push(k[16 * side..16 * side + 16].to_vec());
            h.add(&k[16 * side..16 * side + 16], ["the client's key", "the server's key"][side]);
        }
        let data = if side == 0 { &out } else { &answer };
        let mut stream: Vec<Option<u8>> = vec![];
        for r in taken.records(side).iter().filter(|r| r.0 == 23) {
            let at = stream.len();
            if data.len() >= at + r.2.len() {
                h.2.push(r.2.iter().zip(&data[at..]).map(|(a, b)| a ^ b).collect());
            }
            stream.extend(r.2.iter().map(|b| Some(*b)));
        }
        let (mut run, mut key) = (vec![], vec![]);
        let mut runs = 0;
        for i in 0..=data.len() {
            if i < data.len() && !shown[side].contains(&i) {
                run.push(data[i]);
                if let Some(Some(c)) = stream.get(i) {
                    key.push(data[i] ^ c);
                }
            } else {
                h.add(&run, &format!("what was {}, before byte {i}", ["sent", "received"][side]));
                h.add(&key, &format!("the key stream of what was {}, before byte {i}", ["sent", "received"][side]));
                runs += (run.len() >= RUN) as usize;
                run.clear();
                key.clear();
            }
        }
        h.1 += runs;
        cx.label_if(runs > 0, ["hides something sent", "hides something received"][side]);
    }
    for p in o.prover.iter().flatten().flat_map(|p| p.proofs.iter().flatten()) {
        for s in &p.transcript_secrets {
            if let TranscriptSecret::Hash(s) = s {
                h.add(s.blinder.as_bytes(), "a blinder");
                cx.label("hides a blinder");
            }
        }
    }
    h
}
/// No two commitments have the same blinder, or one that can be guessed.
fn fresh(o: &Out) -> CaseResult {
    let mut seen = BTreeSet::from([vec![0u8; 16], vec![0xff; 16]]);
    for p in o.prover.iter().flatten().flat_map(|p| p.proofs.iter().flatten()) {
        for s in &p.transcript_secrets {
            if let TranscriptSecret::Hash(s) = s {
                check!(seen.insert(s.blinder.as_bytes().to_vec()), "the blinder {:?} comes again", s.blinder.as_bytes());
            }
        }
    }
    Ok(())
}
fn judge_view(plan: &Plan, o: &Out, taken: &Taken, view: &View, counts: bool, cx: &mut Cx) -> CaseResult {
    fresh(o)?;
    let h = hidden(plan, o, taken, cx);
    for m in view.borrow().iter() {
        if let Some(f) = h.find(m) {
            vpt::fail!("the prover sends {f}, in a message of {} bytes", m.len());
        }
    }
    let mut decoded = BTreeSet::new();
    for bits in mpzsim::ideal_vm::take_decoded() {
        for k in 0..8 {
            let b = bytes(&bits, k);
            if let Some(f) = h.find(&b) {
                vpt::fail!("{f}, is decoded for both parties");
            }
            if k == 0 && b.len() >= RUN {
                decoded.insert(b);
            }
        }
    }
    // What is decoded under a pad: no pad serves twice.
    let mut pads: HashMap<Vec<u8>, usize> = HashMap::new();
    for d in &decoded {
        for (i, k) in h.2.iter().enumerate().filter(|k| k.1.len() == d.len()) {
            let p: Vec<u8> = d.iter().zip(k).map(|(a, b)| a ^ b).collect();
            for w in p.chunks_exact(RUN) {
                if let Some(j) = pads.insert(w.to_vec(), i) {
                    check!(i == j, "two secrets of {} bytes are decoded under one pad", d.len());
                }
            }
        }
    }
    cx.nontrivial(counts && h.1 > 0);
    Ok(())
}

fn run_honest(v: &Honest, cx: &mut Cx) -> CaseResult {
    let taken = Rc::new(RefCell::new(Taken::default()));
    let view: View = Default::default();
    let w = view.clone();
    let t: Box<Tap> = Box::new(move |side, _, _, m| {
        if side == 0 {
            see(&w, &m);
        }
        Act::Pass(m)
    });
    mpzsim::ideal_vm::keep_decoded();
    let o = run(&v.plan, Some(Rc::new(RefCell::new(t))), Some(Taken::tap(&taken)));
    let taken = taken.borrow();
    judge_view(&v.plan, &o, &taken, &view, true, cx)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Nosy(Mal);
fn run_nosy(v: &Nosy, cx: &mut Cx) -> CaseResult {
    let v = &v.0;
    let total = Rc::new(RefCell::new(0usize));
    let k = total.clone();
    let count: Box<Tap> = Box::new(move |side, _, _, m| {
        *k.borrow_mut() += side;
        Act::Pass(m)
    });
    run(&v.h.plan, Some(Rc::new(RefCell::new(count))), None);
    let hits = Rc::new(RefCell::new(0));
    let mut bad = tap(1, *total.borrow(), &v.tampers, Default::default(), hits.clone(), Default::default());
    let taken = Rc::new(RefCell::new(Taken::default()));
    let view: View = Default::default();
    let w = view.clone();
    let t: Box<Tap> = Box::new(move |side, id, n, m| {
        if side == 0 {
            see(&w, &m);
            return Act::Pass(m);
        }
        bad(side, id, n, m)
    });
    mpzsim::ideal_vm::keep_decoded();
    let o = run(&v.h.plan, Some(Rc::new(RefCell::new(t))), Some(Taken::tap(&taken)));
    check!(!o.panics.iter().any(|p| p.0 == "prover" || p.0 == "app"), "panic: {:?}", o.panics);
    let taken = taken.borrow();
    judge_view(&v.h.plan, &o, &taken, &view, *hits.borrow() > 0, cx)?;
    cx.label(match &o.prover {
        None => "the prover waits".into(),
        Some(Err(e)) => format!("refused in {}", e.stage),
        Some(Ok(v)) if v.proofs.iter().any(|p| p.is_err()) => "proof fails".into(),
        Some(Ok(_)) => "completed".into(),
    });
    Ok(())
}

pub fn c77() -> Check {
    use proptest::strategy::Strategy;
    Check {
        id: "C77",
        rule: "12 or more bytes in a row were to be hidden (for the verifier that does not follow the protocol: and a message was changed)",
        assumptions: &["the two-party computation is ideal: it shows nothing but what both parties decode"],
        laws: vec![
            law("the verifier's view, MPC", cases(800), || honest(false, 400), run_honest),
            law("the verifier's view, proxy", cases(3000), || honest(true, 3000), run_honest),
            law("a nosy verifier, MPC", cases(800), || mal(false, 300).prop_map(Nosy), run_nosy),
            law("a nosy verifier, proxy", cases(3000), || mal(true, 1000).prop_map(Nosy), run_nosy),
        ],
    }
}
