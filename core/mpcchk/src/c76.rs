//! Sessions in which something ends too early.
use crate::{c70::*, net::*, sess::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, rc::Rc};
use tlsn::{
    connection::ServerName,
    hash::HashAlgId,
    transcript::{ContentType, Direction, TlsTranscript, TranscriptCommitment, TranscriptSecret},
};
use vpt::{cases, check, exhaustive, fail, law, CaseResult, Check, Cx};

/// The records of application data are ones of the wire, from the first on.
pub fn from_wire(t: &TlsTranscript, taken: &Taken) -> CaseResult {
    for (side, recs) in [(0, t.sent()), (1, t.recv())] {
        let wire: Vec<(u64, Rec)> = taken.records(side).into_iter().enumerate().map(|(i, r)| (i as u64, r)).filter(|r| r.1 .0 == 23).collect();
        let mine: Vec<_> = recs.iter().filter(|r| r.typ == ContentType::ApplicationData).collect();
        // What the client wrote need not have got to the wire.
        for (m, w) in mine.iter().zip(&wire) {
            check!(
                m.seq == w.0 && m.explicit_nonce == w.1 .1 && m.ciphertext == w.1 .2 && m.tag.as_ref().is_none_or(|t| *t == w.1 .3),
                "record {} of side {side} is not the one on the wire",
                m.seq
            );
        }
        check!(side == 0 || mine.len() <= wire.len(), "more records received than there were on the wire");
    }
    Ok(())
}

/// Whatever the verifier accepted is true.
pub fn sound(plan: &Plan, o: &Out, taken: &Taken, cx: &mut Cx) -> CaseResult {
    let Some(Ok(v)) = &o.verifier else { return Ok(()) };
    sound_of(plan, o, v, taken, None, cx)
}
/// With a prover that is not honest, what was sent is what the server got, and a
/// commitment is opened by something among its private inputs.
pub fn sound_of(plan: &Plan, o: &Out, v: &VerifierOut, taken: &Taken, liar: Option<&[Vec<u8>]>, cx: &mut Cx) -> CaseResult {
    let honest = liar.is_none();
    let (mut out, answer) = plan.data();
    let srv = o.srv.as_ref();
    if let Some(s) = srv.filter(|_| !honest) {
        let n = s.read.len().min(out.len());
        out[..n].copy_from_slice(&s.read[..n]);
    }
    from_wire(&v.tls, taken)?;
    let total = |r: &[tlsn::transcript::Record]| r.iter().filter(|r| r.typ == ContentType::ApplicationData).map(|r| r.ciphertext.len()).sum::<usize>();
    let all = (total(v.tls.sent()), total(v.tls.recv()));
    for (p, asked) in v.proofs.iter().zip(&v.asked) {
        let Ok(p) = p else { continue };
        cx.label("accepted a statement");
        let shown = p.transcript.as_ref().map(|t| (idx(t.sent_authed()), idx(t.received_authed())));
        check!(shown == asked.reveal, "accepted other ranges than the ones asked for");
        if let Some(ServerName::Dns(d)) = &p.server_name {
            check!(d.as_str() == NAME, "verified the name {}", d.as_str());
        }
        let mut lens = None;
        if let Some(t) = &p.transcript {
            check!(t.len_received() <= answer.len(), "{} bytes received, but the server sent {}", t.len_received(), answer.len());
            check!(t.len_sent() <= out.len(), "{} bytes sent, but {} were written", t.len_sent(), out.len());
            for i in idx(t.received_authed()) {
                check!(t.received_unsafe()[i] == answer[i], "verified byte {i} received is not what the server sent");
            }
            for i in idx(t.sent_authed()) {
                check!(!honest || t.sent_unsafe()[i] == out[i], "verified byte {i} sent is not what was sent");
                if let Some(s) = srv.filter(|s| i < s.read.len()) {
                    check!(t.sent_unsafe()[i] == s.read[i], "verified byte {i} sent is not what the server got");
                }
            }
            check!((t.len_sent(), t.len_received()) == all, "the transcript has {} and {} bytes, the records {all:?}", t.len_sent(), t.len_received());
            lens = Some((t.len_sent(), t.len_received()));
        }
        let secrets: Vec<_> =
            o.prover.iter().flatten().flat_map(|p| p.proofs.iter().flatten()).flat_map(|p| &p.transcript_secrets).collect();
        let made: Vec<_> = p
            .transcript_commitments
            .iter()
            .map(|c| match c {
                TranscriptCommitment::Hash(h) => (h.direction == Direction::Received, idx(&h.idx), h.hash.alg),
                _ => (true, vec![], HashAlgId::SHA256),
            })
            .collect();
        check!(made == asked.commits, "commitments {made:?}, but {:?} were asked for", asked.commits);
        for c in &p.transcript_commitments {
            let TranscriptCommitment::Hash(h) = c else { fail!("what kind of commitment is this") };
            let recv = h.direction == Direction::Received;
            let data = if recv { &answer } else { &out };
            let i = idx(&h.idx);
            check!(i.iter().all(|i| *i < data.len()), "a commitment to bytes that do not exist");
            check!(i.iter().all(|i| *i < if recv { all.1 } else { all.0 }), "a commitment to bytes that are in no record");
            if let Some(l) = lens {
                check!(i.iter().all(|i| *i < if recv { l.1 } else { l.0 }), "a commitment beyond the transcript");
            }
            let opens = |blinder: &[u8]| {
                let mut b: Vec<u8> = i.iter().map(|i| data[*i]).collect();
                b.extend_from_slice(blinder);
                digest(h.hash.alg, &b).as_deref() == Some(h.hash.value.as_bytes())
            };
            if let Some(inputs) = liar {
                check!(inputs.iter().any(|b| opens(b)), "a commitment that does not open to what was exchanged");
                cx.label("opened a commitment");
            }
            for s in &secrets {
                let TranscriptSecret::Hash(s) = s else { continue };
                if s.direction == h.direction && s.idx == h.idx && s.alg == h.hash.alg && opens(s.blinder.as_bytes()) {
                    cx.label("opened a commitment");
                }
            }
        }
    }
    Ok(())
}
/// Nothing hangs, spins or panics.
pub fn ended(o: &Out) -> CaseResult {
    check!(o.panics.is_empty(), "panic: {}", o.brief());
    check!(o.end == End::Done, "{}", o.brief());
    Ok(())
}

/// The prover sent records that did not get to the server.
fn lost(o: &Out, taken: &Taken) -> bool {
    matches!(&o.prover, Some(Ok(p)) if p.tls.sent().len() != taken.records(0).len())
}
fn end(b: &[u8]) -> usize {
    let mut at = 0;
    while b.len() >= at + 5 {
        let n = 5 + u16::from_be_bytes([b[at + 3], b[at + 4]]) as usize;
        if b.len() < at + n {
            break;
        }
        at += n;
    }
    at
}
/// The kinds of the whole records in what the server's side was let through.
fn whole(b: &[u8]) -> Vec<(u8, bool)> {
    let (mut out, mut at, mut on) = (vec![], 0, false);
    while b.len() >= at + 5 {
        let n = u16::from_be_bytes([b[at + 3], b[at + 4]]) as usize;
        if b.len() < at + 5 + n {
            break;
        }
        out.push((b[at], on));
        on |= b[at] == 20;
        at += 5 + n;
    }
    out
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Early {
    h: Honest,
    /// The server's bytes end after this part of the whole stream.
    part: u16,
    /// As a number of bytes from the start, or in parts of 65536 of a whole run.
    bytes: bool,
}
fn run_cut(v: &Early, cx: &mut Cx) -> CaseResult {
    // How much there would be.
    let all = {
        let taken = Rc::new(RefCell::new(Taken::default()));
        if v.bytes {
            4000
        } else {
            run(&v.h.plan, None, Some(Taken::tap(&taken)));
            let n = taken.borrow().0[1].len();
            n
        }
    };
    let keep = v.part as usize * (all + 1) / 65536;
    let taken = Rc::new(RefCell::new(Taken::default()));
    let t = taken.clone();
    let w: Box<Wire> = Box::new(move |side, b| {
        let mut t = t.borrow_mut();
        if side == 1 {
            b.truncate(keep - t.0[1].len());
        }
        t.0[side].extend_from_slice(b);
        side == 0 || t.0[1].len() < keep
    });
    let o = run(&v.h.plan, None, Some(Rc::new(RefCell::new(w))));
    ended(&o)?;
    let taken = taken.borrow();
    let got = whole(&taken.0[1]);
    let shaken = got.iter().any(|r| *r == (22, true));
    let data = taken.records(1).iter().filter(|r| r.0 == 23).count();
    let sane = matches!(got.last(), Some((23 | 21, true)));
    let app = o.app.as_ref().unwrap();
    check!(app.eof || app.err.is_some(), "the application was not told of the end");
    let (_, answer) = v.h.plan.data();
    check!(answer.starts_with(&app.read), "the application read what the server did not send");
    let proxy = v.h.plan.mode == Mode::Proxy;
    if !shaken || !sane && !proxy {
        check!(matches!(o.prover, Some(Err(_))), "{got:?} prover: {}", o.brief());
        check!(matches!(o.verifier, Some(Err(_))), "verifier: {}", o.brief());
        cx.label(if !shaken { "in the handshake" } else { "before any data" });
    } else {
        let wrote = taken.records(0).iter().any(|r| r.0 == 23);
        // A part of a record may be an error in proxy mode, and so may records that
        // the server was gone for.
        let partial = proxy && (!sane || end(&taken.0[1]) != taken.0[1].len() || lost(&o, &taken));
        if wrote && !partial {
            let (Some(Ok(p)), Some(Ok(vr))) = (&o.prover, &o.verifier) else { fail!("refused: {}", o.brief()) };
            check!(answer.starts_with(p.transcript.received()), "the prover's transcript");
            same_records(&p.tls, &taken)?;
            same_records(&vr.tls, &taken)?;
            check!(app.read == p.transcript.received(), "the application read {} bytes of {}", app.read.len(), p.transcript.received().len());
            check!(p.tls.recv().iter().filter(|r| r.typ == ContentType::ApplicationData).count() == data, "records");
            cx.label("whole records of data");
        }
    }
    sound(&v.h.plan, &o, &taken, cx)?;
    cx.nontrivial(got.len() > 1);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Gone {
    h: Honest,
    /// The application is gone after this many steps.
    at: u8,
    idle: bool,
}
fn run_gone(v: &Gone, cx: &mut Cx) -> CaseResult {
    let mut plan = v.h.plan.clone();
    let n = v.at as usize % (plan.app.len() + 1);
    plan.app.truncate(n);
    if v.idle {
        plan.app.push(App::Idle);
    }
    plan.app.push(App::Drop);
    // The server answers what comes and does not wait for what will not.
    let wrote: u32 = plan.app.iter().map(|a| if let App::Write(n) = a { *n } else { 0 }).sum();
    plan.srv.retain(|s| !matches!(s, Srv::Expect(n) if *n > wrote) && !matches!(s, Srv::Wait));
    let taken = Rc::new(RefCell::new(Taken::default()));
    let o = run(&plan, None, Some(Taken::tap(&taken)));
    ended(&o)?;
    let taken = taken.borrow();
    if let (Some(Ok(p)), Some(Ok(vr))) = (&o.prover, &o.verifier) {
        from_wire(&p.tls, &taken)?;
        from_wire(&vr.tls, &taken)?;
        for (i, pr) in plan.proves.iter().enumerate() {
            let sent = &plan.data().0[..p.transcript.sent().len()];
            let recv = &plan.data().1[..p.transcript.received().len()];
            if plan.mode != Mode::Proxy || !lost(&o, &taken) {
                judge(pr, i, &o, (sent, recv), cx)?;
            }
        }
        cx.label(if lost(&o, &taken) { "records lost" } else { "completed" });
    } else {
        // In proxy mode what the client still sends to a server that is gone can
        // not be forwarded, and the verifier then fails.
        let undelivered = plan.mode == Mode::Proxy && o.brief().contains("proxy traffic forwarding failed");
        check!(wrote == 0 || plan.data().1.is_empty() || undelivered, "the session failed: {}", o.brief());
        cx.label(if undelivered { "the server was gone" } else { "nothing to prove" });
    }
    sound(&plan, &o, &taken, cx)?;
    cx.nontrivial(wrote > 0);
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Lost {
    h: Honest,
    /// Which message between prover and verifier is lost with the connection,
    /// in parts of 65536 of all of them.
    at: u16,
}
fn run_lost(v: &Lost, cx: &mut Cx) -> CaseResult {
    let seen = Rc::new(RefCell::new(0usize));
    let counted = |limit: usize| {
        let s = seen.clone();
        *s.borrow_mut() = 0;
        let t: Box<Tap> = Box::new(move |_, _, _, m| {
            let mut s = s.borrow_mut();
            *s += 1;
            if *s > limit {
                Act::Cut
            } else {
                Act::Pass(m)
            }
        });
        Some(Rc::new(RefCell::new(t)))
    };
    run(&v.h.plan, counted(usize::MAX), None);
    let all = *seen.borrow();
    let at = v.at as usize * all / 65536;
    let taken = Rc::new(RefCell::new(Taken::default()));
    let o = run(&v.h.plan, counted(at), Some(Taken::tap(&taken)));
    ended(&o)?;
    let taken = taken.borrow();
    // (The other side may have had all it needs.)
    check!(
        !matches!((&o.prover, &o.verifier), (Some(Ok(p)), Some(Ok(v))) if p.proofs.iter().all(|p| p.is_ok()) && v.proofs.iter().all(|p| p.is_ok()))
            || *seen.borrow() <= at,
        "both sides completed although message {at} of {all} was lost: {}",
        o.brief()
    );
    sound(&v.h.plan, &o, &taken, cx)?;
    cx.label(match (&o.prover, &o.verifier) {
        (Some(Err(p)), _) => format!("prover fails in {}", p.stage),
        (Some(Ok(_)), Some(Err(_))) => "verifier fails".into(),
        _ => "proof fails".into(),
    });
    cx.nontrivial(at > 4);
    Ok(())
}

/// What the application closes while the prover is busy.
fn run_busy(_: &u8, cx: &mut Cx) -> CaseResult {
    let plan = Plan {
        seed: 0,
        frag: None,
        cap: 1 << 20,
        mode: Mode::Mpc(Limits { sent: 3, sent_records: None, recv: 20, online: Some(20), recv_records: Some(1), defer: Some(false), bandwidth: false }),
        key: 0,
        depth: 0,
        max_fragment: None,
        tickets: false,
        client_auth: None,
        app: vec![App::Write(1), App::Read(20), App::Write(1), App::Write(1), App::Nap(7), App::Decrypt(false), App::Close],
        srv: vec![Srv::Expect(1), Srv::Send(20), Srv::Expect(2), Srv::Expect(3), Srv::CloseNotify, Srv::Wait],
        proves: vec![],
    };
    let o = run(&plan, None, None);
    cx.nontrivial(true);
    check!(o.panics.is_empty(), "panic: {}", o.brief());
    if matches!(o.end, End::Stalled(_)) {
        return Err(vpt::Failure { sig: Some("close-while-busy".into()), msg: format!("a close while the prover is busy is not sent: {}", o.brief()) });
    }
    ended(&o)
}

pub fn c76() -> Check {
    let cut = |proxy: bool, max| {
        move || {
            (honest(proxy, max), any::<u16>(), prop::bool::weighted(0.5)).prop_map(|(mut h, part, bytes)| {
                h.plan.proves.truncate(1);
                Early { h, part, bytes }
            })
        }
    };
    let gone = |proxy: bool, max| move || (honest(proxy, max), any::<u8>(), any::<bool>()).prop_map(|(h, at, idle)| Gone { h, at, idle });
    Check {
        id: "C76",
        rule: "the connection got beyond its first message",
        assumptions: &["the two-party computation is ideal"],
        laws: vec![
            exhaustive("a close while the prover is busy", || vec![0u8], run_busy),
            law("server gone, MPC", cases(300), cut(false, 400), run_cut),
            law("server gone, proxy", cases(2500), cut(true, 9000), run_cut),
            law("application gone, MPC", cases(300), gone(false, 400), run_gone),
            law("application gone, proxy", cases(2500), gone(true, 9000), run_gone),
        ],
    }
}
pub fn c83() -> Check {
    let lost = |proxy: bool, max| move || (honest(proxy, max), any::<u16>()).prop_map(|(h, at)| Lost { h, at });
    Check {
        id: "C83",
        rule: "the connection was lost after its first messages",
        assumptions: &["the two-party computation is ideal"],
        laws: vec![law("connection lost, MPC", cases(300), lost(false, 400), run_lost), law("connection lost, proxy", cases(2500), lost(true, 9000), run_lost)],
    }
}
