//! C53: calls of the SDK's prover and verifier in any order, and their configurations.

use std::{cell::RefCell, rc::Rc};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tlsn_sdk_core::{error::ErrorKind, HttpRequest, ProverConfig, ProverMode, Reveal, SdkProver, SdkVerifier, VerifierConfig};
use vpt::{cases, check, check_eq, fail, gen::Bytes, law, CaseResult, Check, Cx};

use crate::{
    c52::{run, server, task, NAME},
    certs,
    net::{pipe, Pipe},
};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum P {
    Setup,
    Mpc,
    Proxy,
    Transcript,
    Reveal,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum V {
    Connect,
    Setup,
    Socket,
    Run,
    Verify,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
    proxy: bool,
    p: Vec<P>,
    v: Vec<V>,
}

fn history() -> impl Strategy<Value = History> {
    fn step<T: Copy>(n: usize) -> impl Strategy<Value = (u8, u8, usize)> {
        let _ = std::marker::PhantomData::<T>;
        (0u8..3, any::<u8>(), 0..n)
    }
    (any::<bool>(), prop::collection::vec(step::<P>(5), 0..3), prop::collection::vec(step::<V>(5), 0..3)).prop_map(|(proxy, ep, ev)| {
        // The right order, with a few edits.
        let mut p = vec![P::Setup, if proxy { P::Proxy } else { P::Mpc }, P::Transcript, P::Reveal];
        let mut v = if proxy { vec![V::Connect, V::Setup, V::Socket, V::Run, V::Verify] } else { vec![V::Connect, V::Setup, V::Run, V::Verify] };
        fn edit<T: Copy>(l: &mut Vec<T>, all: [T; 5], (kind, at, what): (u8, u8, usize)) {
            let at = at as usize;
            match kind {
                0 => l.insert(at % (l.len() + 1), all[what]),
                1 if !l.is_empty() => {
                    let at = at % l.len();
                    l.remove(at);
                }
                _ if !l.is_empty() => {
                    let (a, b) = (at % l.len(), what % l.len());
                    l.swap(a, b);
                }
                _ => {}
            }
        }
        ep.into_iter().for_each(|e| edit(&mut p, [P::Setup, P::Mpc, P::Proxy, P::Transcript, P::Reveal], e));
        ev.into_iter().for_each(|e| edit(&mut v, [V::Connect, V::Setup, V::Socket, V::Run, V::Verify], e));
        History { proxy, p, v }
    })
}

/// What became of the calls: for each the kind of its error, and whether the party said after it
/// that it is done.
type Calls = Rc<RefCell<Vec<(Option<ErrorKind>, bool)>>>;

async fn prover(h: History, io: Pipe, srv: Option<Pipe>, out: Calls) {
    let b = ProverConfig::builder(NAME).max_sent_data(512).max_recv_data(512).root_certs(vec![certs::root()]);
    let mut p = SdkProver::new(b.mode(if h.proxy { ProverMode::Proxy } else { ProverMode::Mpc }).build().unwrap()).unwrap();
    let (mut io, mut srv) = (Some(io), srv);
    for s in &h.p {
        // Calls after the first get a connection with nobody at its other end.
        let r = match s {
            P::Setup => p.setup(io.take().unwrap_or_else(|| pipe(16, None).0)).await,
            P::Mpc => p.send_request_mpc(srv.take().unwrap_or_else(|| pipe(16, None).0), HttpRequest::get("/")).await.map(|_| ()),
            P::Proxy => p.send_request_proxy(HttpRequest::get("/")).await.map(|_| ()),
            P::Transcript => p.transcript().map(|_| ()),
            P::Reveal => p.reveal(Reveal::new().sent(0..3), None).await.map(|_| ()),
        };
        out.borrow_mut().push((r.err().map(|e| e.kind()), p.is_complete()));
    }
}

async fn verifier(h: History, io: Pipe, srv: Option<Pipe>, out: Calls) {
    let mut v = SdkVerifier::new(VerifierConfig::builder().root_certs(vec![certs::root()]).build().unwrap());
    let (mut io, mut srv) = (Some(io), srv);
    for s in &h.v {
        let r = match s {
            V::Connect => v.connect(io.take().unwrap_or_else(|| pipe(16, None).0)).await,
            V::Setup => v.setup().await.map(|_| ()),
            V::Socket => match srv.take() {
                Some(s) => {
                    let r = v.set_server_socket(s);
                    r
                }
                None => v.set_server_socket(pipe(16, None).0),
            },
            V::Run => v.run().await,
            V::Verify => v.verify().await.map(|_| ()),
        };
        out.borrow_mut().push((r.err().map(|e| e.kind()), v.is_complete()));
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Off {
    /// A call out of order was made.
    Astray,
    /// A call failed.
    Failed,
}
use Off::*;

fn test(h: &History, cx: &mut Cx) -> CaseResult {
    let (pio, vio) = pipe(4096, None);
    let (cio, sio) = pipe(4096, None);
    let (ps, vs) = if h.proxy { (None, Some(cio)) } else { (Some(cio), None) };
    let (p, v) = (Calls::default(), Calls::default());
    let ended = run(async {
        let p = task(prover(h.clone(), pio, ps, p.clone()));
        let v = task(verifier(h.clone(), vio, vs, v.clone()));
        let s = task(server(sio, 0, false, b"HTTP/1.1 200 OK\r\ncontent-length: 1\r\n\r\nx".to_vec(), vec![u16::MAX], true));
        futures::join!(p, v);
        drop(s);
    });
    // Where one party stops half way through, without closing its connection, the other waits.
    let (p, v) = (p.take(), v.take());
    cx.label_if(ended.is_none(), "a party waits");

    // The longest beginning of the right order, for each party.
    let request = if h.proxy { P::Proxy } else { P::Mpc };
    let (mut at, mut state) = (0, Ok(()));
    for (i, s) in h.p.iter().enumerate().take(p.len()) {
        let due = match s {
            P::Setup => at == 0,
            P::Mpc | P::Proxy => *s == request && at == 1,
            P::Transcript | P::Reveal => at == 2,
        };
        let (err, done) = p[i];
        match state {
            Ok(()) if !due => {
                check!(err == Some(ErrorKind::InvalidState), "prover, call {i} ({s:?}) out of order: {err:?}");
                if *s != P::Transcript {
                    state = Err(Astray);
                }
            }
            Ok(()) if err.is_some() => state = Err(Failed),
            Ok(()) => at += (*s != P::Transcript) as u8,
            Err(Failed) => check!(err.is_some(), "prover, call {i} ({s:?}) succeeds after a failed one"),
            Err(Astray) => {}
        }
        check!(done == (at == 3) || state == Err(Astray), "prover, done after call {i}: {done}");
    }
    let p_done = at == 3;
    let (mut at, mut state, mut socket) = (0, Ok(()), !h.proxy);
    for (i, s) in h.v.iter().enumerate().take(v.len()) {
        let due = match s {
            V::Connect => at == 0,
            V::Setup => at == 1,
            V::Socket => h.proxy && at == 2,
            V::Run => at == 2 && socket,
            V::Verify => at == 3,
        };
        let (err, done) = v[i];
        match state {
            Ok(()) if !due => {
                check!(err == Some(ErrorKind::InvalidState), "verifier, call {i} ({s:?}) out of order: {err:?}");
                if *s != V::Socket {
                    state = Err(Astray);
                }
            }
            Ok(()) if err.is_some() => state = Err(Failed),
            Ok(()) if *s == V::Socket => socket = true,
            Ok(()) => at += 1,
            Err(Failed) => check!(err.is_some(), "verifier, call {i} ({s:?}) succeeds after a failed one"),
            Err(Astray) => {}
        }
        check!(done == (at == 4) || state == Err(Astray), "verifier, done after call {i}: {done}");
    }
    let v_done = at == 4;
    cx.label(match (p_done, v_done) {
        (true, true) => "both are done",
        (false, false) => "none is done",
        _ => "one is done",
    });
    cx.nontrivial(true);
    // In the right order it works.
    let mut steps: Vec<_> = h.v.clone();
    if steps.iter().filter(|s| **s == V::Socket).count() > 1 {
        steps.clear();
    }
    let fine = h.p.iter().filter(|s| **s != P::Transcript).eq([P::Setup, request, P::Reveal].iter());
    let fine = fine && if h.proxy { steps == [V::Connect, V::Setup, V::Socket, V::Run, V::Verify] } else { steps.iter().filter(|s| **s != V::Socket).eq([V::Connect, V::Setup, V::Run, V::Verify].iter()) };
    if fine {
        check!(p_done && v_done, "the right order fails: prover {p:?}, verifier {v:?}");
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conf {
    name: String,
    proxy: bool,
    sent: u16,
    recv: u16,
    /// A root certificate, cut off or with a byte changed.
    roots: Vec<(u8, Option<u16>)>,
    junk: Option<Bytes>,
}

fn conf() -> impl Strategy<Value = Conf> {
    let n = || prop_oneof![Just(0u16), Just(1), any::<u16>()];
    let root = (prop::sample::select(vec![0u8, 4, 7]), prop::option::weighted(0.3, any::<u16>()));
    (prop_oneof![Just(String::new()), Just(NAME.to_string()), "[ -~]{0,8}"], any::<bool>(), n(), n(), prop::collection::vec(root, 0..4), prop::option::weighted(0.2, vpt::gen::bytes(0..40)))
        .prop_map(|(name, proxy, sent, recv, roots, junk)| Conf { name, proxy, sent, recv, roots, junk })
}

fn conf_test(c: &Conf, cx: &mut Cx) -> CaseResult {
    cx.nontrivial(true);
    let mut bad = None;
    let mut roots = vec![];
    for (i, (key, cut)) in c.roots.iter().enumerate() {
        let mut d = certs::chain(*key, 0, NAME).remove(0);
        if let Some(n) = cut {
            d.truncate(*n as usize % d.len());
            bad = bad.or(Some(i));
        }
        roots.push(d);
    }
    if let Some(j) = &c.junk {
        if openssl::x509::X509::from_der(&j.0).is_err() {
            bad = bad.or(Some(roots.len()));
            roots.push(j.0.clone());
        }
    }
    cx.label_if(bad.is_some(), "an unusable root certificate");
    let p = ProverConfig::builder(c.name.clone()).max_sent_data(c.sent as usize).max_recv_data(c.recv as usize).mode(if c.proxy { ProverMode::Proxy } else { ProverMode::Mpc }).root_certs(roots.clone()).build();
    let v = VerifierConfig::builder().root_certs(roots.clone()).build();
    if let Some(i) = bad {
        for (who, r) in [("prover", p.map(|_| ())), ("verifier", v.map(|_| ()))] {
            let Err(e) = r else { fail!("{who}: unusable root certificate accepted") };
            check!(e.kind() == ErrorKind::Config, "{who}: {e}");
            check!(e.to_string().contains(&format!("index {i}:")), "{who}: the wrong certificate is blamed: {e}");
        }
        return Ok(());
    }
    let (Ok(p), Ok(v)) = (p, v) else { fail!("configuration refused") };
    check_eq!(p.root_store.roots.iter().map(|r| r.0.clone()).collect::<Vec<_>>(), roots, "prover, roots");
    check_eq!(v.root_store.roots.iter().map(|r| r.0.clone()).collect::<Vec<_>>(), roots, "verifier, roots");
    let refuse = c.name.is_empty() || !c.proxy && (c.sent == 0 || c.recv == 0);
    cx.label(if refuse { "refused" } else { "accepted" });
    let r = SdkProver::new(p);
    check_eq!(r.is_err(), refuse, "a prover of this configuration is refused: {:?}", r.as_ref().err());
    if let Err(e) = r {
        check!(e.kind() == ErrorKind::Config, "{e}");
    }
    Ok(())
}

pub fn c53() -> Check {
    Check {
        id: "C53",
        rule: "calls are made, or a configuration is built",
        assumptions: &["the MPC building blocks are ideal stand-ins (core/shims)", "what a party may do after a call it refused is left open, other than that it must not get done"],
        laws: vec![law("calls in any order", cases(4000), history, test), law("configurations", cases(10_000), conf, conf_test)],
    }
}
