//! C65: errors and alerts end the connection; C66: bytes changed on the wire.

use crate::{c60::*, srv::*, wire::*};
use mpcclient::client::Error;
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vpt::{cases, check, check_eq, fail, gen::*, law, CaseResult, Check, Cx};

/// After an error nothing goes on: every later call gives the same error,
/// delivers nothing and sends nothing that was written.
fn final_error(s: &mut Session) -> CaseResult {
    let keep = s.err.as_ref().map(|e| e.to_string()).ok_or("harness: no error")?;
    let got = s.got.clone();
    let sent = s.seen.enc.iter().filter(|r| r.0 == 23).count();
    for k in 0..4 {
        let _ = s.c.write_plaintext(b"afterwards");
        let ok = match k {
            0 => s.process(),
            1 => s.send(&[Step::App(Bytes(b"more".to_vec()))]),
            2 => s.send(&[Step::Finished]),
            _ => s.send(&[Step::Alert(1, 0)]),
        };
        check!(!ok, "goes on after the error {keep:?}");
        check_eq!(s.err.as_ref().map(|e| e.to_string()), Some(keep.clone()), "another error");
    }
    check_eq!(s.got, got, "data delivered after an error");
    check_eq!(s.seen.enc.iter().filter(|r| r.0 == 23).count(), sent, "data sent after an error");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Bad {
    Hs(u8, Bytes),
    Msg(u8),
    Ccs,
    Fatal(u8),
    Level(u8, u8),
    AlertShape(Bytes),
    Type(u8, Bytes),
    Flip(u16),
    Cut(u16),
    Grow(Bytes),
    Replay,
    Skip,
    Version(u16),
    Plain(u8, Bytes),
    Frame(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct After {
    p: Pair,
    before: Vec<Step>,
    bad: Bad,
    data: Bytes,
    typ: u8,
}

fn good() -> impl Strategy<Value = Step> + Clone {
    prop_oneof![
        6 => bytes(1..60).prop_map(Step::App),
        1 => Just(Step::App(Bytes(vec![]))),
        1 => select(vec![90u8, 100, 41, 0xf0]).prop_map(|d| Step::Alert(1, d)),
        1 => Just(Step::HelloReq),
    ]
}

fn after() -> impl Strategy<Value = After> {
    let bad = prop_oneof![
        2 => (prop_oneof![select(vec![1u8, 2, 4, 11, 12, 13, 14, 15, 16, 20, 21, 22, 24, 254]), 1u8..=255], bytes(0..40)).prop_map(|(t, b)| Bad::Hs(t, b)),
        2 => (0u8..8).prop_map(Bad::Msg),
        1 => Just(Bad::Ccs),
        2 => (1u8..=255).prop_map(Bad::Fatal),
        2 => (prop_oneof![Just(0u8), 3u8..=255], any::<u8>()).prop_map(|(l, d)| Bad::Level(l, d)),
        1 => prop_oneof![Just(Bytes(vec![])), Just(Bytes(vec![2])), Just(Bytes(vec![1]))].prop_map(Bad::AlertShape),
        1 => (prop_oneof![24u8..=255, 0u8..20], bytes(0..20)).prop_map(|(t, b)| Bad::Type(t, b)),
        3 => any::<u16>().prop_map(Bad::Flip),
        2 => any::<u16>().prop_map(Bad::Cut),
        1 => bytes(1..20).prop_map(Bad::Grow),
        2 => Just(Bad::Replay),
        2 => Just(Bad::Skip),
        1 => select(vec![0x0301u16, 0x0302, 0x0304]).prop_map(Bad::Version),
        1 => (select(vec![21u8, 22, 23]), bytes(0..40)).prop_map(|(t, b)| Bad::Plain(t, b)),
        1 => prop_oneof![Just(18433u16), Just(0xffff), Just(20000)].prop_map(Bad::Frame),
    ];
    (pair(), vec(good(), 0..5), bad, bytes(1..50), select(vec![23u8, 22, 21]))
        .prop_map(|(p, before, bad, data, typ)| After { p, before, bad, data, typ })
}

fn data(steps: &[Step]) -> Vec<u8> {
    steps.iter().flat_map(|s| if let Step::App(b) = s { b.0.clone() } else { vec![] }).collect()
}

fn t_after(v: &After, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut s = open(&v.p)?;
        check!(s.handshake() && s.complete(), "refused: {:?}", s.err);
        s.srv.cuts = vec![0];
        for x in &v.before {
            check!(s.send(std::slice::from_ref(x)), "refuses a valid record: {:?}", s.err);
        }
        check_eq!(s.got, data(&v.before), "data");
        let app = Step::App(v.data.clone());
        let mut want = None;
        let bytes = match &v.bad {
            Bad::Hs(t, b) => s.encode(&[Step::Hs(*t, b.clone())]),
            Bad::Msg(k) => {
                let st = [Step::ServerHello, Step::Certificate, Step::Kx, Step::Done, Step::CertReq, Step::Ticket, Step::Status, Step::Finished][*k as usize % 8].clone();
                s.encode(&[st])
            }
            Bad::Ccs => s.emit(20, &[1]),
            Bad::Fatal(d) => {
                want = Some(*d);
                s.encode(&[Step::Alert(2, *d)])
            }
            Bad::Level(l, d) => {
                want = Some(*d);
                s.encode(&[Step::Alert(*l, *d)])
            }
            Bad::AlertShape(b) => s.emit(21, b),
            Bad::Type(t, b) => s.emit(*t, b),
            Bad::Plain(t, b) => Rec(*t, 0x0303, b.0.clone()).bytes(),
            Bad::Frame(n) => w().u8(23).u16(0x0303).u16(*n).raw(&[0; 40]).0,
            Bad::Replay => {
                let b = s.encode(&[app.clone()]);
                check!(s.deliver(&b), "refuses a valid record: {:?}", s.err);
                b
            }
            Bad::Skip => {
                let _ = s.encode(&[app.clone()]);
                s.encode(&[app.clone()])
            }
            Bad::Flip(_) | Bad::Cut(_) | Bad::Grow(_) | Bad::Version(_) => {
                let t = if matches!(v.bad, Bad::Flip(_)) { v.typ } else { 23 };
                let mut b = s.emit(t, match t {
                    21 => &[1, 90],
                    22 => &[0, 0, 0, 0],
                    _ => &v.data,
                });
                match &v.bad {
                    Bad::Flip(x) => {
                        let i = *x as usize % ((b.len() - 5) * 8);
                        b[5 + i / 8] ^= 1 << (i % 8);
                    }
                    Bad::Cut(n) => {
                        let l = *n as usize % (b.len() - 5);
                        b.truncate(5 + l);
                    }
                    Bad::Grow(x) => b.extend(&x.0),
                    Bad::Version(x) => b[1..3].copy_from_slice(&x.to_be_bytes()),
                    _ => unreachable!(),
                }
                let l = (b.len() - 5) as u16;
                b[3..5].copy_from_slice(&l.to_be_bytes());
                b
            }
        };
        let got = s.got.clone();
        let ok = s.deliver(&bytes);
        // A message that is only begun is not yet wrong.
        check!(!ok, "{:?} passes", v.bad);
        check_eq!(s.got, got, "data delivered by {:?}", v.bad);
        if let Some(d) = want {
            let e = s.err.clone().unwrap();
            let Error::AlertReceived(x) = &e else { fail!("alert {d} gives {e:?}") };
            check_eq!(x.get_u8(), d, "alert");
        }
        cx.nontrivial(true);
        cx.label(format!("{:?}", v.bad).split('(').next().unwrap().to_string());
        final_error(&mut s)
    })?
}

/// An alert at some point of the handshake.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Alerts {
    p: Pair,
    at: u8,
    alerts: Vec<(u8, u8)>,
    shape: Option<Bytes>,
}
fn alerts() -> impl Strategy<Value = Alerts> {
    let a = (prop_oneof![4 => Just(1u8), 3 => Just(2u8), 2 => any::<u8>()], prop_oneof![Just(0u8), select(vec![10u8, 20, 40, 42, 50, 70, 80, 90, 100, 112, 255]), any::<u8>()]);
    (pair(), 0u8..8, vec(a, 1..4), proptest::option::weighted(0.1, prop_oneof![Just(Bytes(vec![])), Just(Bytes(vec![2]))]))
        .prop_map(|(p, at, alerts, shape)| Alerts { p, at, alerts, shape })
}
fn t_alerts(v: &Alerts, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut s = open(&v.p)?;
        let steps: Vec<Step> = v.p.srv.flight1.iter().chain(&v.p.srv.flight2).cloned().collect();
        let at = v.at as usize % (steps.len() + 1);
        check!(s.send_each(&steps[..at]), "refused: {:?}", s.err);
        let whole = at == steps.len();
        check_eq!(s.complete(), whole);
        if let Some(b) = &v.shape {
            let x = s.emit(21, b);
            check!(!s.deliver(&x), "an alert of {} bytes passes", b.len());
            cx.nontrivial(true);
            return final_error(&mut s);
        }
        let mut closed = false;
        for (l, d) in &v.alerts {
            // A fatal close_notify is between the two.
            let fatal = *l == 2 && *d != 0;
            let odd = *l == 0 || *l > 2;
            let n = s.seen.alerts.len();
            let ok = s.send(&[Step::Alert(*l, *d)]);
            check_eq!(ok, !fatal && !odd, "alert {l} {d}: {:?}", s.err);
            check_eq!(s.complete(), whole, "the handshake state changes with an alert");
            if !ok {
                let e = s.err.clone().unwrap();
                let Error::AlertReceived(x) = &e else { fail!("alert {d} gives {e:?}") };
                check_eq!(x.get_u8(), *d, "alert");
                if !s.seen.ccs {
                    let want: &[(u8, u8)] = if odd { &[(2, 47)] } else { &[] };
                    check_eq!(&s.seen.alerts[n..], want, "answer to the alert");
                }
                check!(s.got.is_empty());
                cx.nontrivial(true);
                cx.label_if(odd, "level unknown");
                cx.label_if(fatal, "fatal");
                return final_error(&mut s);
            }
            closed |= *d == 0;
        }
        cx.label_if(closed, "closed");
        if closed {
            check!(!s.c.wants_read(), "wants to read after close_notify");
            check_eq!(s.complete(), whole);
            cx.nontrivial(!whole);
        } else {
            cx.label("warnings only");
            check!(s.send_each(&steps[at..]) && s.complete(), "refused after warnings: {:?}", s.err);
        }
        Ok(())
    })?
}

/// The leader fails at some call.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fails {
    p: Pair,
    at: u32,
    data: Vec<Bytes>,
    mine: Bytes,
}
fn fails() -> impl Strategy<Value = Fails> {
    (pair(), any::<u32>(), vec(bytes(1..50), 0..4), bytes(0..50)).prop_map(|(p, at, data, mine)| Fails { p, at, data, mine })
}
fn t_fails(v: &Fails, cx: &mut Cx) -> CaseResult {
    let run = |at: Option<usize>| -> Result<(Session, bool), vpt::Failure> {
        let m = make(&v.p.cli, &[der(&root())])?;
        m.shared.lock().unwrap().fail_at = at;
        let mut s = Session::new(m, v.p.srv.clone());
        let _ = s.c.write_plaintext(&v.mine);
        if let Err(e) = block(s.c.start()) {
            s.err = Some(e);
            return Ok((s, false));
        }
        s.collect();
        if s.seen.hello.is_none() {
            let ok = s.process();
            check!(!ok, "no hello and no error");
            return Ok((s, false));
        }
        let (f1, f2) = (v.p.srv.flight1.clone(), v.p.srv.flight2.clone());
        let mut ok = s.send(&f1) && s.send(&f2);
        for d in &v.data {
            ok = ok && s.send(&[Step::App(d.clone())]);
        }
        Ok((s, ok))
    };
    quiet(|| {
        let (h, ok) = run(None)?;
        check!(ok && h.complete(), "refused: {:?}", h.err);
        let total = h.shared.lock().unwrap().calls();
        check!(total > 8);
        let at = v.at as usize % total + 1;
        let (mut s, ok) = run(Some(at))?;
        // Signatures differ in length, so the second run may be a read shorter.
        if s.shared.lock().unwrap().calls() < at {
            return Ok(());
        }
        check!(!ok, "failure of call {at} of {total} of the leader is swallowed");
        let n = s.got.len();
        check!(h.got[..n] == s.got[..], "other data");
        if let Some(b) = &s.seen.bad {
            fail!("{b}");
        }
        cx.nontrivial(true);
        cx.label(if s.complete() { "later" } else if s.prepared() { "with keys" } else { "early" });
        if s.seen.hello.is_none() {
            let keep = s.err.clone().map(|e| e.to_string());
            check!(!s.process());
            check_eq!(s.err.clone().map(|e| e.to_string()), keep, "another error");
            return Ok(());
        }
        final_error(&mut s)
    })?
}

pub fn c65() -> Check {
    Check {
        id: "C65",
        rule: "the connection fails, or an alert arrives in the handshake",
        assumptions: ASSUME,
        laws: vec![
            law("misbehaviour after the handshake", cases(32_000), after, t_after),
            law("alerts in the handshake", cases(24_000), alerts, t_alerts),
            law("failures of the leader", cases(24_000), fails, t_fails),
        ],
    }
}

// ---------------------------------------------------------------- C66

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Tamper {
    Bytes(Mutation),
    DropRec(u8),
    DupRec(u8),
    SwapRec(u8),
    /// Another record before this one.
    Inject(u8, u8, Bytes),
    /// Re-cut the payload of one record in two of the same type.
    Split(u8, u16),
    /// Join with the next.
    Join(u8),
    RecVersion(u8, u16),
    RecType(u8, u8),
    Cut(u16),
}
fn tamper() -> impl Strategy<Value = Tamper> + Clone {
    prop_oneof![
        4 => mutation().prop_map(Tamper::Bytes),
        1 => any::<u8>().prop_map(Tamper::DropRec),
        1 => any::<u8>().prop_map(Tamper::DupRec),
        1 => any::<u8>().prop_map(Tamper::SwapRec),
        3 => (any::<u8>(), select(vec![20u8, 21, 22, 23]), prop_oneof![Just(Bytes(vec![1])), Just(Bytes(vec![1, 90])), Just(Bytes(vec![0, 0, 0, 0])), Just(Bytes(vec![14, 0, 0, 0])), bytes(0..20)]).prop_map(|(a, t, b)| Tamper::Inject(a, t, b)),
        2 => any::<(u8, u16)>().prop_map(|(a, b)| Tamper::Split(a, b)),
        1 => any::<u8>().prop_map(Tamper::Join),
        1 => (any::<u8>(), prop_oneof![select(vec![0x0300u16, 0x0301, 0x0302, 0x0304]), any::<u16>()]).prop_map(|(a, v)| Tamper::RecVersion(a, v)),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| Tamper::RecType(a, b)),
        1 => any::<u16>().prop_map(Tamper::Cut),
    ]
}
fn apply(t: &[Tamper], wire: &mut Vec<u8>) {
    for x in t {
        if let Tamper::Bytes(m) = x {
            m.apply(wire);
            continue;
        }
        let mut rest = wire.clone();
        let mut r = records(&mut rest);
        if r.is_empty() {
            continue;
        }
        let n = r.len();
        match x {
            Tamper::Bytes(_) => {}
            Tamper::DropRec(i) => {
                r.remove(*i as usize % n);
            }
            Tamper::DupRec(i) => {
                let i = *i as usize % n;
                r.insert(i, r[i].clone());
            }
            Tamper::SwapRec(i) => {
                let i = *i as usize % n;
                r.swap(i, (i + 1) % n);
            }
            Tamper::Inject(i, t, b) => r.insert(*i as usize % (n + 1), Rec(*t, 0x0303, b.0.clone())),
            Tamper::Split(i, a) => {
                let i = *i as usize % n;
                let k = *a as usize % (r[i].2.len() + 1);
                let tail = r[i].2.split_off(k);
                let x = Rec(r[i].0, r[i].1, tail);
                r.insert(i + 1, x);
            }
            Tamper::Join(i) => {
                let i = *i as usize % n;
                if i + 1 < n && r[i].2.len() + r[i + 1].2.len() <= 16384 {
                    let b = r.remove(i + 1);
                    r[i].2.extend(b.2);
                }
            }
            Tamper::RecVersion(i, v) => r[*i as usize % n].1 = *v,
            Tamper::RecType(i, t) => r[*i as usize % n].0 = *t,
            Tamper::Cut(k) => {
                wire.truncate(*k as usize % (wire.len() + 1));
                continue;
            }
        }
        *wire = r.iter().flat_map(|x| x.bytes()).chain(rest).collect();
    }
}

/// The handshake bytes of a stream of plaintext records.
fn hs_stream(wire: &[u8]) -> Vec<u8> {
    let mut w = wire.to_vec();
    records(&mut w).iter().filter(|r| r.0 == 22).flat_map(|r| r.2.clone()).collect()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wire {
    p: Pair,
    clear: Vec<Tamper>,
    secret: Vec<Tamper>,
    apps: Vec<Bytes>,
}
fn wire() -> impl Strategy<Value = Wire> {
    (pair(), prop_oneof![Just((true, false)), Just((false, true)), Just((true, true))], vec(tamper(), 1..3), vec(tamper(), 1..3), vec(bytes(1..40), 0..5)).prop_map(|(p, (a, b), clear, secret, apps)| Wire {
        p,
        clear: if a { clear } else { vec![] },
        secret: if b { secret } else { vec![] },
        apps,
    })
}

fn t_wire(v: &Wire, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut s = open(&v.p)?;
        let f1 = v.p.srv.flight1.clone();
        let honest = s.encode(&f1);
        let mut bytes = honest.clone();
        apply(&v.clear, &mut bytes);
        let mut ok = s.deliver(&bytes);
        let same = hs_stream(&honest) == hs_stream(&bytes);
        let mut changed = bytes != honest;
        let _ = s.seen.bad.take();
        if !ok {
            check!(changed, "refused: {:?}", s.err);
            cx.nontrivial(true);
            cx.label("refused in the clear");
            return final_error(&mut s);
        }
        // The server goes on from what it sent and what reached it.
        let mut f2 = v.p.srv.flight2.clone();
        f2.extend(v.apps.iter().map(|b| Step::App(b.clone())));
        let mut tail = s.encode(&f2);
        let h2 = tail.clone();
        apply(&v.secret, &mut tail);
        changed |= h2 != tail;
        ok = s.deliver(&tail);
        let want: Vec<u8> = v.apps.iter().flat_map(|b| b.0.clone()).collect();
        check!(want.starts_with(&s.got), "data that the server did not send, or not there: {} of {} bytes", s.got.len(), want.len());
        if s.complete() {
            check!(same, "the handshake completes though the server's messages were changed");
            let _ = cx.label_if(changed, "completes though changed");
        } else {
            check!(s.got.is_empty(), "data delivered without a handshake");
            check!(!s.seen.enc.iter().any(|r| r.0 == 23), "data sent without a handshake");
        }
        if !changed {
            check!(ok && s.complete(), "refused: {:?}", s.err);
            check_eq!(s.got, want);
        }
        cx.nontrivial(changed);
        cx.label(if ok { "no error" } else if s.complete() { "error after the handshake" } else { "error in the handshake" });
        if !ok {
            return final_error(&mut s);
        }
        Ok(())
    })?
}

/// Any bytes at all.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Raw {
    p: Pair,
    at: u8,
    recs: Vec<(u8, u16, Bytes)>,
    tail: Bytes,
}
fn raw() -> impl Strategy<Value = Raw> {
    let body = prop_oneof![
        3 => bytes(0..60),
        3 => (select(vec![0u8, 1, 2, 4, 11, 12, 13, 14, 16, 20, 22]), bytes(0..50)).prop_map(|(t, b)| Bytes(hs(t, &b))),
        1 => (any::<u8>(), any::<u32>(), bytes(0..20)).prop_map(|(t, n, b)| Bytes(w().u8(t).raw(&n.to_be_bytes()[1..]).raw(&b).0)),
    ];
    let t = prop_oneof![6 => Just(22u8), 1 => Just(20u8), 1 => Just(21u8), 1 => Just(23u8), 1 => any::<u8>()];
    let ver = prop_oneof![5 => Just(0x0303u16), 1 => 0x0300u16..0x0305, 1 => any::<u16>()];
    (pair(), 0u8..8, vec((t, ver, body), 1..6), bytes(0..20)).prop_map(|(p, at, recs, tail)| Raw { p, at, recs, tail })
}
fn t_raw(v: &Raw, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut s = open(&v.p)?;
        let steps: Vec<Step> = v.p.srv.flight1.iter().chain(&v.p.srv.flight2).cloned().collect();
        let at = v.at as usize % steps.len();
        check!(s.send_each(&steps[..at]), "refused: {:?}", s.err);
        let mut b: Vec<u8> = v.recs.iter().flat_map(|(t, ver, p)| Rec(*t, *ver, p.0.clone()).bytes()).collect();
        b.extend(&v.tail.0);
        let ok = s.deliver(&b);
        check!(!s.complete(), "the handshake completes with arbitrary records");
        check!(s.got.is_empty(), "data delivered");
        cx.nontrivial(true);
        cx.label(if ok { "waits" } else { "error" });
        if !ok {
            return final_error(&mut s);
        }
        Ok(())
    })?
}

pub fn c66() -> Check {
    Check {
        id: "C66",
        rule: "what the client reads differs from what the server sent",
        assumptions: ASSUME,
        laws: vec![law("records changed on the way", cases(48_000), wire, t_wire), law("arbitrary records", cases(48_000), raw, t_raw)],
    }
}
