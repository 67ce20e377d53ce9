//! C60: honest handshakes; C61: server authentication; C62: order of messages;
//! C63: negotiation; C64: Finished.

use crate::{srv::*, wire::*, x509gen::*};
use mpcclient::client::Error;
use proptest::{collection::vec, option::weighted, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vpt::{cases, catch, check, check_eq, fail, gen::*, law, CaseResult, Check, Cx, Failure};

pub fn server_key() -> impl Strategy<Value = u8> + Clone {
    prop_oneof![6 => select(vec![0u8, 1, 3]), 2 => 6u8..9, 2 => 9u8..12, 2 => 12u8..15]
}

pub fn cli() -> impl Strategy<Value = Cli> + Clone {
    (
        any::<u64>(),
        select(vec!["a.test", "www.a.test", "x-1.a.test"]),
        any::<bool>(),
        vec(bytes(1..12), 0..4),
        weighted(0.4, prop_oneof![3 => 32u32..200, 1 => 200u32..2000, 1 => 16380u32..=16389]),
    )
        .prop_map(|(seed, name, sni, alpn, frag)| Cli { seed, name: name.into(), sni, alpn, frag, auth: None })
}

pub fn cuts() -> impl Strategy<Value = Vec<u16>> + Clone {
    prop_oneof![2 => Just(vec![0u16]), 1 => Just(vec![16000u16]), 2 => vec(prop_oneof![1u16..8, 8u16..300, 300u16..2000], 1..5)]
}
pub fn chunks() -> impl Strategy<Value = Vec<u16>> + Clone {
    prop_oneof![2 => Just(vec![20000u16]), 2 => vec(prop_oneof![1u16..4, 4u16..60, 60u16..3000], 1..5)]
}

/// An honest server and what is negotiable about it.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Pair {
    pub cli: Cli,
    pub srv: Srv,
}

pub fn pair() -> impl Strategy<Value = Pair> + Clone {
    (
        (cli(), any::<u64>(), server_key(), any::<u8>(), 0u8..3, bytes(0..33)),
        (any::<u8>(), any::<u8>(), any::<bool>(), any::<bool>(), any::<u8>()),
        (cuts(), chunks(), bytes(0..40)),
    )
        .prop_map(|((cli, seed, key, scheme, depth, session), (ext, alpn, status, ticket, order), (cuts, chunks, st))| {
            let mut srv = Srv::honest(seed, key, scheme, depth);
            srv.session = session;
            srv.cuts = cuts;
            srv.chunks = chunks;
            let mut e = vec![];
            if ext & 1 == 0 {
                e.push((0xff01, Bytes(vec![0])));
            }
            if ext & 2 == 0 {
                e.push((11, Bytes(if ext & 4 == 0 { vec![1, 0] } else { vec![3, 2, 0, 1] })));
            }
            if cli.sni && ext & 8 == 0 {
                e.push((0, Bytes(vec![])));
            }
            if !cli.alpn.is_empty() && ext & 16 == 0 {
                let p = &cli.alpn[alpn as usize % cli.alpn.len()];
                e.push((16, Bytes(w().vec(2, &w().vec(1, p).0).0)));
            }
            if ext & 32 == 0 {
                e.push((5, Bytes(vec![])));
                if status {
                    srv.flight1.insert(2, Step::Status);
                    srv.status = st;
                    if srv.status.is_empty() {
                        srv.status = Bytes(vec![1]);
                    }
                }
            }
            if ext & 192 == 0 {
                let l = w().vec(2, &[order; 7]).vec(2, &[alpn, 1]).0;
                e.push((18, Bytes(w().vec(2, &l).0)));
            }
            if !e.is_empty() {
                let n = order as usize % e.len();
                e.rotate_left(n);
            }
            srv.exts = Some(e);
            let _ = ticket;
            Pair { cli, srv }
        })
}

pub fn open(p: &Pair) -> Result<Session, Failure> {
    let root = der(&root());
    let m = make(&p.cli, &[root])?;
    let mut s = Session::new(m, p.srv.clone());
    s.start()?;
    Ok(s)
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, Failure> {
    catch(f).map_err(|m| Failure::from(format!("the client panics: {m}")))
}

// ---------------------------------------------------------------- C60

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Client(Bytes),
    Server(Vec<Bytes>),
    Flush,
    Process,
    Warn(u8),
    HelloReq,
    CloseNotify,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Whole {
    p: Pair,
    early: Vec<Bytes>,
    ops: Vec<Op>,
    max_write: u32,
}

fn app() -> impl Strategy<Value = Bytes> + Clone {
    prop_oneof![6 => bytes(0..80), 2 => bytes(80..2500), 1 => (15000usize..17000, any::<u64>()).prop_map(|(n, t)| Bytes(filler(t, n))), 1 => (60000usize..70000, any::<u64>()).prop_map(|(n, t)| Bytes(filler(t, n)))]
}
fn record() -> impl Strategy<Value = Bytes> + Clone {
    prop_oneof![6 => bytes(0..80), 2 => bytes(80..2500), 1 => (16000usize..=16384, any::<u64>()).prop_map(|(n, t)| Bytes(filler(t, n)))]
}

fn whole() -> impl Strategy<Value = Whole> {
    let op = prop_oneof![
        4 => app().prop_map(Op::Client),
        4 => vec(record(), 1..4).prop_map(Op::Server),
        3 => Just(Op::Process),
        2 => Just(Op::Flush),
        1 => select(vec![90u8, 100, 41, 80]).prop_map(Op::Warn),
        1 => Just(Op::HelloReq),
        1 => Just(Op::CloseNotify),
    ];
    (pair(), vec(app(), 0..3), many(op, 0..8, 25), prop_oneof![3 => Just(u32::MAX), 1 => 1u32..2000])
        .prop_map(|(p, early, ops, max_write)| Whole { p, early, ops, max_write })
}

const BUF: usize = 64 * 1024;

fn t_whole(v: &Whole, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut s = open(&v.p)?;
        s.max_write = v.max_write as usize;
        let mut want_srv: Vec<u8> = vec![];
        let mut held = 0usize;
        let put = |s: &mut Session, b: &Bytes, held: &mut usize, want: &mut Vec<u8>| -> CaseResult {
            let n = s.c.write_plaintext(b).map_err(|e| format!("write: {e}"))?;
            check_eq!(n, b.len().min(BUF - *held), "accepts another amount of plaintext");
            *held += n;
            want.extend(&b[..n]);
            check_eq!(s.c.sendable_plaintext_is_full(), *held == BUF, "full");
            Ok(())
        };
        for b in &v.early {
            put(&mut s, b, &mut held, &mut want_srv)?;
        }
        let f1 = v.p.srv.flight1.clone();
        check!(s.send(&f1), "honest server refused in its first flight: {:?}", s.err);
        check!(s.c.is_handshaking(), "handshake done without the server's Finished");
        let f2 = v.p.srv.flight2.clone();
        check!(s.send(&f2), "honest server refused in its second flight: {:?}", s.err);
        check!(!s.c.is_handshaking(), "handshake with an honest server does not complete");
        held = 0;
        let mut want_cli: Vec<u8> = vec![];
        let mut warns = vec![];
        let mut closed = false;
        let mut pending: Vec<Step> = vec![];
        for o in &v.ops {
            match o {
                Op::Client(b) => put(&mut s, b, &mut held, &mut want_srv)?,
                Op::Server(r) => pending.extend(r.iter().map(|b| {
                    want_cli.extend(&b.0);
                    Step::App(b.clone())
                })),
                Op::Warn(d) => pending.push(Step::Alert(1, *d)),
                Op::HelloReq => {
                    pending.push(Step::HelloReq);
                    warns.push((1u8, 100u8));
                }
                Op::Flush => {
                    let st: Vec<Step> = std::mem::take(&mut pending);
                    if !st.is_empty() {
                        check!(s.send(&st), "refuses valid records: {:?}", s.err);
                        held = 0;
                    }
                }
                Op::Process => {
                    check!(s.process(), "idle processing fails: {:?}", s.err);
                    held = 0;
                }
                Op::CloseNotify => {
                    if !closed {
                        closed = true;
                        block(s.c.send_close_notify()).map_err(|e| format!("close_notify: {e}"))?;
                        check!(!s.c.is_empty(), "empty with an alert under way");
                        warns.push((1, 0));
                    }
                }
            }
        }
        pending.push(Step::Alert(1, 0));
        check!(s.c.wants_read(), "does not want to read though the server has not closed");
        check!(s.send(&pending), "refuses valid records: {:?}", s.err);
        check!(s.process(), "processing after the end fails: {:?}", s.err);
        check!(!s.c.wants_read(), "wants to read after close_notify");
        if let Some(b) = &s.seen.bad {
            fail!("{b}");
        }
        check_eq!(s.got, want_cli, "data from the server");
        let tail = s.log().len();
        s.c.enable_decryption(want_srv.len() % 2 == 0);
        block(s.c.server_closed()).map_err(|e| format!("server_closed: {e}"))?;
        check_eq!(s.log()[tail..].to_vec(), vec![mpcclient::leader::Event::Decryption(want_srv.len() % 2 == 0), mpcclient::leader::Event::Close], "what the leader is told");
        let got: Vec<u8> = s.seen.enc.iter().filter(|r| r.0 == 23).flat_map(|r| r.2.clone()).collect();
        check_eq!(got, want_srv, "data from the client");
        let mut alerts: Vec<(u8, u8)> = s.seen.enc.iter().filter(|r| r.0 == 21).map(|r| (r.2[0], r.2[1])).collect();
        alerts.sort();
        warns.sort();
        check_eq!(alerts, warns, "alerts sent");
        let limit = v.p.cli.frag.map_or(16384, |f| f as usize - 5);
        for r in s.seen.plain.iter().chain(&s.seen.enc) {
            check!(r.2.len() <= limit, "a record of {} bytes; the limit is {limit}", r.2.len());
            check!(!r.2.is_empty(), "an empty record");
        }
        check!(s.seen.alerts.is_empty(), "alerts in the clear");
        check!(s.c.is_empty(), "records left over");
        cx.nontrivial(want_cli.len() > 1 && want_srv.len() > 1);
        cx.label(format!("key {:?}", keys()[v.p.srv.key as usize].kind));
        cx.label_if(v.p.cli.frag.is_some(), "fragment limit");
        cx.label_if(want_srv.len() > 16384, "more than a record");
        cx.label_if(!v.early.is_empty(), "early writes");
        cx.label_if(warns.len() > 1, "renegotiation asked");
        cx.label_if(v.p.srv.cuts[0] != 0, "cut records");
        Ok(())
    })?
}

/// What the hello offers.
fn t_hello(p: &Cli, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let root = der(&root());
        let m = make(p, &[root]);
        let bad_frag = p.frag.is_some_and(|f| !(32..=16389).contains(&f));
        check_eq!(m.is_err(), bad_frag, "fragment limit {:?}", p.frag);
        let Ok(m) = m else { return Ok(()) };
        check!(!m.conn.wants_write(), "something to send before the start");
        let mut s = Session::new(m, Srv::honest(1, 0, 0, 0));
        s.start()?;
        let h = s.seen.hello.clone().unwrap();
        check_eq!(h.version, 0x0303);
        check_eq!(h.random, mpcclient::crypt::sha256(&[&b"client random"[..], &p.seed.to_be_bytes()].concat()).to_vec(), "the random is not the one of the leader");
        check!(h.session.len() <= 32);
        let mut suites = h.suites.clone();
        suites.sort();
        check_eq!(suites, vec![0x00ff, 0xc02b, 0xc02f], "cipher suites");
        check_eq!(h.comps, vec![0]);
        let mut types: Vec<u16> = h.exts.iter().map(|e| e.0).collect();
        types.sort();
        let mut want = vec![5, 10, 11, 13, 18, 43];
        if p.sni {
            want.push(0);
        }
        if !p.alpn.is_empty() {
            want.push(16);
        }
        want.sort();
        check_eq!(types, want, "extensions offered");
        check_eq!(h.ext(43), Some(&[2, 3, 3][..]), "versions");
        check_eq!(h.ext(10), Some(&[0, 2, 0, 23][..]), "groups");
        let pf = h.ext(11).unwrap();
        check!(pf[0] as usize == pf.len() - 1 && pf[1..].contains(&0), "point formats");
        let sa = Rd::u16s(Rd(h.ext(13).unwrap()).vec(2).ok_or("schemes")?).ok_or("schemes")?;
        check!(sa.iter().all(|x| crate::sess::SCHEMES.contains(x)) && !sa.is_empty(), "offers a scheme it cannot verify: {sa:x?}");
        if p.sni {
            let n = p.name.to_ascii_lowercase();
            let e = h.ext(0).unwrap();
            let want = w().vec(2, &w().u8(0).vec(2, n.as_bytes()).0).0;
            check!(e.eq_ignore_ascii_case(&want), "server name");
        }
        if !p.alpn.is_empty() {
            let l = p.alpn.iter().fold(w(), |a, x| a.vec(1, x)).0;
            check_eq!(h.ext(16), Some(&w().vec(2, &l).0[..]), "protocols");
        }
        let limit = p.frag.map_or(16384, |f| f as usize - 5);
        check!(s.seen.plain.iter().all(|r| r.0 == 22 && r.2.len() <= limit && (r.1 == 0x0301 || r.1 == 0x0303)), "records of the hello");
        check!(s.c.is_handshaking() && s.err.is_none());
        cx.nontrivial(!p.alpn.is_empty() || p.frag.is_some());
        Ok(())
    })?
}

fn hello_case() -> impl Strategy<Value = Cli> {
    (
        any::<u64>(),
        prop_oneof![crate::names::hostname().prop_filter("dns", |s| crate::names::legal_dns(s.as_bytes()) && s.parse::<std::net::IpAddr>().is_err())],
        any::<bool>(),
        many(prop_oneof![9 => bytes(1..20), 1 => bytes(255..=255)], 0..4, 30),
        weighted(0.5, prop_oneof![4 => 32u32..400, 1 => 0u32..32, 1 => 16380u32..16400, 1 => 16400u32..100000]),
    )
        .prop_map(|(seed, name, sni, alpn, frag)| Cli { seed, name, sni, alpn, frag, auth: None })
}

/// Certificates to authenticate the client with.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ClientAuth {
    p: Pair,
    req: Req,
    asked: bool,
}
fn client_auth() -> impl Strategy<Value = ClientAuth> {
    (
        pair(),
        weighted(0.75, (select(vec![0u8, 1, 6, 7, 9, 10, 12, 13]), 0u8..3)),
        bytes(0..4),
        prop_oneof![
            2 => vec(select(crate::sess::SCHEMES.to_vec()), 1..5),
            1 => Just(crate::sess::SCHEMES.to_vec()),
            1 => vec(any::<u16>(), 1..4),
        ],
        vec(bytes(0..30), 0..3),
        weighted(0.9, Just(())),
    )
        .prop_map(|(mut p, auth, types, schemes, names, asked)| {
            p.cli.auth = auth.map(|(key, depth)| Auth { key, depth });
            ClientAuth { p, req: Req { types: Bytes([&types[..], &[64]].concat()), schemes, names }, asked: asked.is_some() }
        })
}

fn scheme_sig(s: u16) -> Option<(&'static [Kind], Sig)> {
    use Hsh::*;
    Some(match s {
        0x0403 => (&[Kind::P256], Sig::Ecdsa(Sha256)),
        0x0503 => (&[Kind::P384], Sig::Ecdsa(Sha384)),
        0x0807 => (&[Kind::Ed], Sig::Ed),
        0x0804 => (&[Kind::Rsa], Sig::Pss(Sha256)),
        0x0805 => (&[Kind::Rsa], Sig::Pss(Sha384)),
        0x0806 => (&[Kind::Rsa], Sig::Pss(Sha512)),
        0x0401 => (&[Kind::Rsa], Sig::Pkcs1(Sha256)),
        0x0501 => (&[Kind::Rsa], Sig::Pkcs1(Sha384)),
        0x0601 => (&[Kind::Rsa], Sig::Pkcs1(Sha512)),
        _ => return None,
    })
}

pub fn verify_sig(key: usize, alg: Sig, msg: &[u8], sig: &[u8]) -> bool {
    use openssl::{hash::MessageDigest, rsa::Padding, sign::{RsaPssSaltlen, Verifier}};
    let k = &keys()[key].pkey;
    let md = |h: Hsh| match h {
        Hsh::Sha1 => MessageDigest::sha1(),
        Hsh::Sha256 => MessageDigest::sha256(),
        Hsh::Sha384 => MessageDigest::sha384(),
        Hsh::Sha512 => MessageDigest::sha512(),
    };
    let r = (|| -> Result<bool, openssl::error::ErrorStack> {
        match alg {
            Sig::Ed => Verifier::new_without_digest(k)?.verify_oneshot(sig, msg),
            Sig::Ecdsa(h) => {
                let mut v = Verifier::new(md(h), k)?;
                v.update(msg)?;
                v.verify(sig)
            }
            Sig::Pkcs1(h) | Sig::Pss(h) => {
                let mut v = Verifier::new(md(h), k)?;
                if let Sig::Pss(_) = alg {
                    v.set_rsa_padding(Padding::PKCS1_PSS)?;
                    v.set_rsa_pss_saltlen(RsaPssSaltlen::DIGEST_LENGTH)?;
                    v.set_rsa_mgf1_md(md(h))?;
                } else {
                    v.set_rsa_padding(Padding::PKCS1)?;
                }
                v.update(msg)?;
                v.verify(sig)
            }
        }
    })();
    r.unwrap_or(false)
}

fn t_client_auth(v: &ClientAuth, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut p = v.p.clone();
        p.srv.req = v.req.clone();
        if v.asked {
            let n = p.srv.flight1.len() - 1;
            p.srv.flight1.insert(n, Step::CertReq);
        }
        let mut s = open(&p)?;
        check!(s.handshake(), "honest server refused: {:?}", s.err);
        check!(!s.c.is_handshaking(), "handshake does not complete");
        if let Some(b) = &s.seen.bad {
            fail!("{b}");
        }
        let types: Vec<u8> = s.seen.hs.iter().map(|m| m.0).collect();
        if !v.asked {
            check_eq!(types, vec![16], "messages of the client");
            return Ok(());
        }
        let mut fits = false;
        if let Some(a) = &p.cli.auth {
            let kind = keys()[a.key as usize].kind;
            fits = v.req.schemes.iter().any(|x| scheme_sig(*x).is_some_and(|(k, _)| k.contains(&kind)));
        }
        let certs = {
            let mut r = Rd(&s.seen.hs[0].1);
            let mut l = Rd(r.vec(3).ok_or("Certificate does not parse")?);
            check!(r.0.is_empty());
            let mut v = vec![];
            while !l.0.is_empty() {
                v.push(l.vec(3).ok_or("Certificate does not parse")?.to_vec());
            }
            v
        };
        if !fits {
            check_eq!(types, vec![11, 16], "messages of a client without a fitting certificate");
            check!(certs.is_empty(), "sends a certificate it cannot prove");
            return Ok(());
        }
        check_eq!(types, vec![11, 16, 15], "messages of the client");
        let a = p.cli.auth.as_ref().unwrap();
        let want: Vec<Vec<u8>> = chain(a.key, a.depth, &["client.test"]).iter().map(der).collect();
        check_eq!(certs, want, "certificates of the client");
        let mut r = Rd(&s.seen.hs[2].1);
        let (scheme, sig) = (r.u16().ok_or("CertificateVerify")?, r.vec(2).ok_or("CertificateVerify")?);
        check!(r.0.is_empty());
        check!(v.req.schemes.contains(&scheme), "signs with a scheme that was not asked for: {scheme:x}");
        let (kinds, alg) = scheme_sig(scheme).ok_or("unknown scheme")?;
        check!(kinds.contains(&keys()[a.key as usize].kind), "scheme {scheme:x} does not fit the key");
        // Every handshake message before CertificateVerify.
        let upto = s.transcript.iter().position(|m| m[0] == 15).unwrap();
        check!(verify_sig(a.key as usize, alg, &s.transcript[..upto].concat(), sig), "the signature is not over the handshake");
        cx.nontrivial(true);
        cx.label(format!("scheme {scheme:x}"));
        Ok(())
    })?
}

pub fn c60() -> Check {
    Check {
        id: "C60",
        rule: "bytes flow in both directions; the hello lists protocols or is cut; the client authenticates itself",
        assumptions: ASSUME,
        laws: vec![
            law("sessions with honest servers", cases(16_000), whole, t_whole),
            law("the hello offers what is configured", cases(40_000), hello_case, t_hello),
            law("client authentication", cases(16_000), client_auth, t_client_auth),
        ],
    }
}

pub const ASSUME: &[&str] = &[
    "crates/mpc-tls/src/client is compiled from /repo; the MPC leader below it is a stand-in that does TLS 1.2 in the clear (core/mpcclient)",
    "the server is a script of the harness (OpenSSL primitives, messages written from RFC 5246)",
];

// ---------------------------------------------------------------- C61

#[derive(Debug, Clone, Serialize, Deserialize)]
enum CertFault {
    None,
    Expired(u8),
    NotYet(u8),
    /// By so many seconds, as of now.
    ExpiredBy(u8, u32),
    NotYetBy(u8, u32),
    Name,
    Untrusted,
    SelfSigned,
    Tampered(u8, Tamper),
    Signer(u8),
    Drop,
    NotCa,
    Eku,
    NoCerts,
    Junk(Bytes),
    Swap,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct AuthCase {
    p: Pair,
    cert: CertFault,
    sig: SigFault,
    /// The server holds the key of another certificate than it shows.
    other_key: bool,
}

fn sig_fault() -> impl Strategy<Value = SigFault> + Clone {
    prop_oneof![
        any::<u16>().prop_map(SigFault::ClientRandom),
        any::<u16>().prop_map(SigFault::ServerRandom),
        any::<u16>().prop_map(SigFault::Params),
        Just(SigFault::Key),
        prop_oneof![select(crate::sess::SCHEMES.to_vec()), any::<u16>()].prop_map(SigFault::Named),
        any::<u16>().prop_map(SigFault::Bit),
        Just(SigFault::Empty),
        Just(SigFault::Truncate),
        Just(SigFault::NoRandoms),
        Just(SigFault::Swapped),
        Just(SigFault::NoClient),
        Just(SigFault::NoServer),
        (0u8..6, any::<bool>()).prop_map(|(k, e)| SigFault::Signer(k, e)),
    ]
}

fn auth_case() -> impl Strategy<Value = AuthCase> {
    let cert = prop_oneof![
        any::<u8>().prop_map(CertFault::Expired),
        any::<u8>().prop_map(CertFault::NotYet),
        (any::<u8>(), prop_oneof![60u32..100_000, 60u32..50_000_000]).prop_map(|(i, s)| CertFault::ExpiredBy(i, s)),
        (any::<u8>(), prop_oneof![3600u32..100_000, 3600u32..50_000_000]).prop_map(|(i, s)| CertFault::NotYetBy(i, s)),
        Just(CertFault::Name),
        Just(CertFault::Untrusted),
        Just(CertFault::SelfSigned),
        (any::<u8>(), prop_oneof![any::<u16>().prop_map(Tamper::Sig), Just(Tamper::Serial), Just(Tamper::Validity), Just(Tamper::Spki(5))]).prop_map(|(a, b)| CertFault::Tampered(a, b)),
        any::<u8>().prop_map(CertFault::Signer),
        Just(CertFault::Drop),
        Just(CertFault::NotCa),
        Just(CertFault::Eku),
        Just(CertFault::NoCerts),
        bytes(0..40).prop_map(CertFault::Junk),
        Just(CertFault::Swap),
    ];
    let fault = prop_oneof![
        1 => Just((CertFault::None, SigFault::None, false)),
        6 => cert.clone().prop_map(|c| (c, SigFault::None, false)),
        6 => sig_fault().prop_map(|s| (CertFault::None, s, false)),
        1 => (cert, sig_fault()).prop_map(|(c, s)| (c, s, false)),
        1 => Just((CertFault::None, SigFault::None, true)),
    ];
    (pair(), fault).prop_map(|(p, (cert, sig, other_key))| AuthCase { p, cert, sig, other_key })
}

fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

fn t_auth(v: &AuthCase, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut p = v.p.clone();
        let mut good = true;
        let ch = &mut p.srv.chain;
        let n = ch.len();
        let mut trusted = root();
        match &v.cert {
            CertFault::None => {}
            CertFault::Expired(i) => {
                ch[*i as usize % n].na = NB + 1_000_000;
                good = false;
            }
            CertFault::NotYet(i) => {
                ch[*i as usize % n].nb = NA - 1_000_000;
                good = false;
            }
            CertFault::ExpiredBy(i, s) => {
                ch[*i as usize % n].na = now() - *s as i64;
                good = false;
            }
            CertFault::NotYetBy(i, s) => {
                ch[*i as usize % n].nb = now() + *s as i64;
                good = false;
            }
            CertFault::Name => {
                p.cli.name = ["b.test", "a.test.b.test", "y.x.a.test", "xa.test"][p.cli.seed as usize % 4].into();
                good = false;
            }
            CertFault::Untrusted => {
                trusted = ca(30, 30, 5, 5);
                good = false;
            }
            CertFault::SelfSigned => {
                let mut l = leaf(p.srv.key, 10, p.srv.key, &["a.test", "*.a.test"]);
                l.subject = 10;
                *ch = vec![l];
                good = false;
            }
            CertFault::Tampered(i, t) => {
                let i = *i as usize % n;
                let t = if i > 0 && matches!(t, Tamper::Spki(_)) { Tamper::Serial } else { t.clone() };
                ch[i].tamper = Some(t);
                good = false;
            }
            CertFault::Signer(i) => {
                let c = &mut ch[*i as usize % n];
                c.signer = if c.signer == 3 { 5 } else { 3 };
                c.sig = natural(Kind::P256)[0];
                good = false;
            }
            CertFault::Drop => {
                if n > 1 {
                    ch.remove(1);
                    good = false;
                }
            }
            CertFault::NotCa => {
                if n > 1 {
                    ch[1].bc = None;
                    good = false;
                }
            }
            CertFault::Eku => {
                ch[0].eku = Some(vec![2]);
                good = false;
            }
            CertFault::NoCerts => {
                ch.clear();
                good = false;
            }
            CertFault::Junk(j) => {
                p.srv.junk_cert = Some((0, j.clone()));
                good = false;
            }
            CertFault::Swap => {
                if n > 1 {
                    ch.swap(0, 1);
                    good = false;
                }
            }
        }
        p.srv.sig_fault = v.sig.clone();
        if let SigFault::Signer(k, true) = v.sig {
            let mut x = leaf(k, 10, k, &["a.test", "*.a.test"]);
            x.subject = 10;
            p.srv.chain.push(x);
        }
        good &= match &v.sig {
            SigFault::None => true,
            SigFault::Named(x) => *x == p.srv.scheme.0,
            SigFault::Signer(k, _) => *k == p.srv.key,
            _ => false,
        };
        if v.other_key {
            // The certificate's key is of the same kind but not the signer's.
            let kind = keys()[p.srv.key as usize].kind;
            let k = (0..keys().len()).find(|k| *k != p.srv.key as usize && keys()[*k].kind == kind).unwrap() as u8;
            p.srv.chain[0].key = k;
            good = false;
        }
        let m = make(&p.cli, &[der(&trusted)])?;
        let mut s = Session::new(m, p.srv.clone());
        s.start()?;
        let n = s.c.write_plaintext(b"secret").unwrap();
        check_eq!(n, 6);
        let ok = s.handshake() && s.complete();
        if let Some(b) = &s.seen.bad {
            fail!("{b}");
        }
        if good {
            check!(ok, "an authentic server is refused: {:?}", s.err);
            return Ok(());
        }
        check!(!ok, "a server that is not authentic is accepted");
        check!(!s.exchanged(), "keys are exchanged with a server that is not authentic");
        check!(s.seen.enc.is_empty() && s.got.is_empty() && s.c.is_handshaking(), "traffic with a server that is not authentic");
        check!(s.err.is_some(), "no error");
        let fatal: Vec<u8> = s.seen.alerts.iter().map(|a| a.1).collect();
        check!(fatal.len() <= 1 && s.seen.alerts.iter().all(|a| a.0 == 2), "alerts: {:?}", s.seen.alerts);
        // bad_certificate, unknown_ca and their like; nothing that would tell the server to go on.
        check!(fatal.iter().all(|d| [40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51].contains(d)), "alert {fatal:?}");
        let keep = s.err.clone().unwrap();
        let again = block(s.c.process_new_packets());
        check_eq!(again.map_err(|e| e.to_string()).err(), Some(keep.to_string()), "the error is not kept");
        cx.nontrivial(true);
        cx.label(format!("cert {}", format!("{:?}", v.cert).split('(').next().unwrap()));
        cx.label(format!("sig {}", format!("{:?}", v.sig).split('(').next().unwrap()));
        cx.label_if(!fatal.is_empty(), "alert sent");
        Ok(())
    })?
}

/// The real leader is given exactly what was verified.
fn t_handed(v: &Pair, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut s = open(v)?;
        check!(s.handshake(), "honest server refused: {:?}", s.err);
        let log = s.log();
        let preps: Vec<_> = log.iter().filter(|e| matches!(e, mpcclient::leader::Event::Prepare { .. })).collect();
        check_eq!(preps.len(), 1, "key exchanges");
        let mpcclient::leader::Event::Prepare { server_random, server_key, chain, kx_params, kx_sig, ocsp, scts } = preps[0] else { unreachable!() };
        check_eq!(server_random, &s.random, "server random");
        let params = s.kx_params();
        check_eq!(server_key, &params[4..].to_vec(), "server key");
        check_eq!(kx_params, &params, "signed parameters");
        let want: Vec<Vec<u8>> = v.srv.chain.iter().map(der).collect();
        check_eq!(chain, &want, "certificates");
        let sent = |t: u8| s.transcript.iter().find(|m| m[0] == t).map(|m| m[4..].to_vec());
        check_eq!(Some([&kx_params[..], kx_sig].concat()), sent(12), "signature");
        check_eq!(ocsp.clone(), sent(22).map_or(vec![], |b| b[4..].to_vec()), "certificate status");
        let want = v.srv.exts.as_ref().unwrap().iter().find(|e| e.0 == 18).map(|e| {
            let (mut r, mut l) = (Rd(Rd(&e.1).vec(2).unwrap()), vec![]);
            while let Some(x) = r.vec(2) {
                l.push(x.to_vec());
            }
            l
        });
        check_eq!(scts, &want, "timestamps");
        cx.label_if(want.is_some(), "timestamps");
        cx.label_if(!ocsp.is_empty(), "status");
        // The hashes the Finished messages are made of.
        let pos = s.transcript.iter().position(|m| m[0] == 20).ok_or("no Finished")?;
        let h = |n: usize| mpcclient::crypt::sha256(&s.transcript[..n].concat()).to_vec();
        check!(log.contains(&mpcclient::leader::Event::ClientFinished(h(pos))), "hash of the client's Finished");
        check!(log.contains(&mpcclient::leader::Event::ServerFinished(h(s.transcript.len() - 1))), "hash of the server's Finished");
        cx.nontrivial(true);
        Ok(())
    })?
}

pub fn c61() -> Check {
    Check {
        id: "C61",
        rule: "the server is not authentic, or what the leader is given was compared",
        assumptions: ASSUME,
        laws: vec![law("servers that are not authentic", cases(32_000), auth_case, t_auth), law("the leader gets what was verified", cases(8_000), pair, t_handed)],
    }
}

// ---------------------------------------------------------------- C62

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
    Delete(u8),
    Dup(u8),
    Swap(u8),
    Insert(u8, Step),
    Truncate(u8),
}

fn any_step() -> impl Strategy<Value = Step> + Clone {
    prop_oneof![
        Just(Step::ServerHello),
        Just(Step::Certificate),
        Just(Step::Status),
        Just(Step::Kx),
        Just(Step::CertReq),
        Just(Step::Done),
        Just(Step::HelloReq),
        Just(Step::Ticket),
        Just(Step::Ccs),
        Just(Step::Finished),
        Just(Step::Hs(1, Bytes(Hello1::bytes()))),
        Just(Step::Hs(16, Bytes(vec![0]))),
        Just(Step::Alert(1, 90)),
        Just(Step::Alert(1, 112)),
        Just(Step::Alert(1, 0)),
        Just(Step::Alert(2, 0)),
        select(vec![40u8, 80, 20, 255]).prop_map(|d| Step::Alert(2, d)),
        bytes(0..20).prop_map(Step::App),
    ]
}
struct Hello1;
impl Hello1 {
    fn bytes() -> Vec<u8> {
        w().u16(0x0303).raw(&[7; 32]).vec(1, &[]).vec(2, &[0xc0, 0x2b]).vec(1, &[0]).vec(2, &[0, 11, 0, 2, 1, 0]).0
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Order {
    p: Pair,
    edits: Vec<Edit>,
    one_by_one: bool,
}
fn order() -> impl Strategy<Value = Order> {
    let e = prop_oneof![
        2 => any::<u8>().prop_map(Edit::Delete),
        2 => any::<u8>().prop_map(Edit::Dup),
        2 => any::<u8>().prop_map(Edit::Swap),
        5 => (any::<u8>(), any_step()).prop_map(|(a, b)| Edit::Insert(a, b)),
        1 => any::<u8>().prop_map(Edit::Truncate),
    ];
    (pair(), vec(e, 0..4), any::<bool>()).prop_map(|(p, edits, one_by_one)| Order { p, edits, one_by_one })
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum St {
    Hello,
    Cert,
    StatusOrKx,
    Kx,
    ReqOrDone,
    Done,
    Ccs,
    Fin,
    Open,
}

#[derive(Debug, PartialEq)]
enum Out {
    Next(St),
    /// Refused as out of place.
    Wrong,
    Alert(u8),
}

/// RFC 5246, figure 1, seen by the client.
fn model(st: St, s: &Step, status: bool) -> Out {
    use Out::*;
    if let Step::Alert(l, d) = s {
        return if *d == 0 || *l == 1 { Next(st) } else { Alert(*d) };
    }
    match (st, s) {
        (St::Hello, Step::ServerHello) => Next(St::Cert),
        (St::Cert, Step::Certificate) => Next(if status { St::StatusOrKx } else { St::Kx }),
        (St::StatusOrKx, Step::Status) => Next(St::Kx),
        (St::StatusOrKx | St::Kx, Step::Kx) => Next(St::ReqOrDone),
        (St::ReqOrDone, Step::CertReq) => Next(St::Done),
        (St::ReqOrDone | St::Done, Step::Done) => Next(St::Ccs),
        (St::Ccs, Step::Ccs) => Next(St::Fin),
        (St::Fin, Step::Finished) => Next(St::Open),
        (St::Open, Step::App(_)) => Next(St::Open),
        (St::Open, Step::HelloReq) => Next(St::Open),
        _ => Wrong,
    }
}

fn t_order(v: &Order, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut p = v.p.clone();
        p.srv.cuts = vec![0];
        let mut steps: Vec<Step> = p.srv.flight1.iter().chain(&p.srv.flight2).cloned().collect();
        steps.push(Step::App(Bytes(b"hello".to_vec())));
        for e in &v.edits {
            let n = steps.len();
            if n == 0 {
                break;
            }
            match e {
                Edit::Delete(i) => {
                    steps.remove(*i as usize % n);
                }
                Edit::Dup(i) => {
                    let s = steps[*i as usize % n].clone();
                    steps.insert(*i as usize % n, s);
                }
                Edit::Swap(i) if n > 1 => steps.swap(*i as usize % (n - 1), *i as usize % (n - 1) + 1),
                Edit::Swap(_) => {}
                Edit::Insert(i, s) => steps.insert(*i as usize % (n + 1), s.clone()),
                Edit::Truncate(i) => steps.truncate(*i as usize % n),
            }
        }
        let status = p.srv.exts.as_ref().unwrap().iter().any(|e| e.0 == 5);
        let mut s = open(&p)?;
        s.c.write_plaintext(b"mine").unwrap();
        let mut st = St::Hello;
        let mut bad = None;
        let mut closed = false;
        let mut app: Vec<u8> = vec![];
        for (i, x) in steps.iter().enumerate() {
            closed |= matches!(x, Step::Alert(_, 0));
            match model(st, x, status) {
                Out::Next(n) => {
                    if let Step::App(b) = x {
                        app.extend(&b.0);
                    }
                    st = n
                }
                o => {
                    bad = Some((i, o));
                    break;
                }
            }
        }
        let _ = closed;
        // Messages before the flight of the client may travel together.
        let ok = if v.one_by_one {
            s.send_each(&steps)
        } else {
            let cut = steps.iter().position(|x| matches!(x, Step::Done)).map_or(steps.len(), |i| i + 1);
            s.send(&steps[..cut]) && s.send_each(&steps[cut..])
        };
        if let Some(b) = &s.seen.bad {
            fail!("{b}");
        }
        let past = |x: St| st as u8 >= x as u8;
        check_eq!(s.prepared(), past(St::Ccs), "key exchange in state {st:?}");
        check_eq!(s.c.is_handshaking(), !past(St::Open), "handshaking in state {st:?}");
        check_eq!(s.got, app, "data delivered in state {st:?}");
        if bad.is_none() {
            s.process();
        }
        let mine: Vec<u8> = s.seen.enc.iter().filter(|r| r.0 == 23).flat_map(|r| r.2.clone()).collect();
        if !past(St::Open) {
            check!(mine.is_empty(), "data sent in state {st:?}");
        } else if bad.is_none() {
            check_eq!(mine, b"mine".to_vec(), "data sent");
        }
        let own: Vec<(u8, u8)> = s.seen.alerts.clone();
        match &bad {
            None => {
                check!(ok, "a sequence in order is refused in state {st:?}: {:?}", s.err);
                check!(own.is_empty(), "alerts {own:?}");
            }
            Some((i, o)) => {
                check!(!ok, "{:?} accepted in state {st:?}", steps[*i]);
                let e = s.err.clone().unwrap();
                match o {
                    Out::Alert(d) => {
                        check!(matches!(e, Error::AlertReceived(x) if x.get_u8() == *d), "error {e:?} after alert {d}");
                        check!(own.is_empty(), "alerts {own:?}");
                    }
                    _ => {
                        if v.one_by_one && !past(St::Fin) {
                            check_eq!(s.passed, *i, "refused early or late");
                        }
                        if !past(St::Ccs) {
                            check_eq!(own, vec![(2, 10)], "alerts sent for {:?} in state {st:?}", steps[*i]);
                        }
                    }
                }
                let keep = e.to_string();
                for x in [Step::Alert(1, 0), Step::ServerHello, Step::Finished, Step::App(Bytes(b"x".to_vec()))] {
                    check!(!s.send(&[x]), "goes on after an error");
                    check_eq!(s.err.as_ref().map(|e| e.to_string()), Some(keep.clone()), "the error is not kept");
                }
                check_eq!(s.got, app, "data delivered after an error");
            }
        }
        cx.nontrivial(bad.is_some());
        cx.label(format!("{st:?}{}", if bad.is_some() { " refused" } else { "" }));
        Ok(())
    })?
}

/// A handshake message may not span the change of keys, and the server's flight
/// ends with ServerHelloDone.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Align {
    p: Pair,
    tail: Bytes,
    at_done: u8,
}
fn align() -> impl Strategy<Value = Align> {
    (pair(), bytes(1..4), 0u8..3).prop_map(|(p, tail, at_done)| Align { p, tail, at_done })
}
fn t_align(v: &Align, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut p = v.p.clone();
        p.srv.cuts = vec![0];
        let mut s = open(&p)?;
        let n = p.srv.flight1.len();
        check!(s.send(&p.srv.flight1[..n - 1]), "refused: {:?}", s.err);
        if v.at_done == 2 {
            check!(s.send(&p.srv.flight1[n - 1..]) && s.send(&[Step::Ccs]), "refused: {:?}", s.err);
            let (_, m) = s.message(&Step::Finished);
            let b = s.emit(22, &[&m[..], &v.tail[..]].concat());
            check!(!s.deliver(&b), "a message spans the server's flight");
            check!(!s.complete() && !s.seen.enc.iter().any(|r| r.0 == 23));
        } else if v.at_done == 1 {
            // Done and the beginning of another message in one record.
            let b = s.emit(22, &[&hs(14, &[])[..], &v.tail[..]].concat());
            check!(!s.deliver(&b), "a message spans the client's flight");
            check!(!s.exchanged(), "keys are exchanged in spite of a pending fragment");
            check_eq!(s.seen.alerts, vec![(2, 10)]);
        } else {
            check!(s.send(&p.srv.flight1[n - 1..]), "refused: {:?}", s.err);
            let b = s.emit(22, &v.tail);
            let _ = s.deliver(&b);
            check!(!s.send(&[Step::Ccs]), "a message spans the change of keys");
            check!(!s.complete());
        }
        cx.nontrivial(true);
        Ok(())
    })?
}

pub fn c62() -> Check {
    Check {
        id: "C62",
        rule: "a message arrives out of order",
        assumptions: ASSUME,
        laws: vec![law("orders of messages", cases(40_000), order, t_order), law("pending fragments", cases(8_000), align, t_align)],
    }
}

// ---------------------------------------------------------------- C63

#[derive(Debug, Clone, Serialize, Deserialize)]
enum NegFault {
    Version(u16),
    Comp(u8),
    Suite(u16),
    /// An extension the client did not offer.
    Ext(u16, Bytes),
    Dup(u8),
    Alpn(Bytes),
    AlpnShape(u8),
    NoUncompressed(Bytes),
    Versions(u16),
    NoBlock,
    CurveType(u8),
    Group(u16),
    Point(Bytes),
    /// A suite of the other kind of key.
    OtherSuite,
    Retry,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Neg {
    p: Pair,
    faults: Vec<NegFault>,
}
fn neg() -> impl Strategy<Value = Neg> {
    let f = prop_oneof![
        2 => prop_oneof![select(vec![0x0300u16, 0x0301, 0x0302, 0x0304, 0xfefd, 0x0200]), any::<u16>()].prop_map(NegFault::Version),
        1 => (1u8..=255u8).prop_map(NegFault::Comp),
        2 => prop_oneof![select(vec![0xc02cu16, 0xc030, 0xcca8, 0xcca9, 0xcaa, 0x1301, 0x009c, 0x002f, 0x00ff, 0x0000, 0xc023, 0xc009]), any::<u16>()].prop_map(NegFault::Suite),
        2 => (prop_oneof![select(vec![23u16, 35, 13, 51, 41, 42, 44, 17513, 0x3374, 1, 22]), any::<u16>()], bytes(0..8)).prop_map(|(a, b)| NegFault::Ext(a, b)),
        1 => any::<u8>().prop_map(NegFault::Dup),
        1 => bytes(1..14).prop_map(NegFault::Alpn),
        1 => (0u8..2).prop_map(NegFault::AlpnShape),
        1 => bytes(0..4).prop_map(NegFault::NoUncompressed),
        1 => select(vec![0x0303u16, 0x0304, 0x0302]).prop_map(NegFault::Versions),
        1 => Just(NegFault::NoBlock),
        1 => prop_oneof![0u8..8, any::<u8>()].prop_map(NegFault::CurveType),
        2 => prop_oneof![select(vec![24u16, 25, 29, 30, 22, 256, 0]), any::<u16>()].prop_map(NegFault::Group),
        2 => prop_oneof![bytes(0..70), Just(Bytes(vec![0])), vec(any::<u8>(), 64).prop_map(|mut x| { x.insert(0, 4); Bytes(x) })].prop_map(NegFault::Point),
        1 => Just(NegFault::OtherSuite),
        1 => Just(NegFault::Retry),
    ];
    (pair(), vec(f, 1..3)).prop_map(|(p, faults)| Neg { p, faults })
}

fn t_neg(v: &Neg, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut p = v.p.clone();
        // The alerts the standard has for what is wrong; 0 when none is required.
        let mut want: Vec<u8> = vec![];
        let mut late = false;
        let mut offered: Vec<u16> = vec![5, 10, 11, 13, 18, 43];
        if p.cli.sni {
            offered.push(0);
        }
        if !p.cli.alpn.is_empty() {
            offered.push(16);
        }
        let mut exts = p.srv.exts.clone().unwrap();
        // One fault for each thing that can be wrong; duplication comes last.
        let slot = |f: &NegFault| match f {
            NegFault::OtherSuite | NegFault::Suite(_) => 0,
            NegFault::Alpn(_) | NegFault::AlpnShape(_) => 1,
            NegFault::Version(_) => 2,
            NegFault::Comp(_) => 3,
            NegFault::Ext(..) => 4,
            NegFault::NoUncompressed(_) => 6,
            NegFault::Versions(_) => 7,
            NegFault::NoBlock => 8,
            NegFault::CurveType(_) => 9,
            NegFault::Group(_) => 10,
            NegFault::Point(_) => 11,
            NegFault::Retry => 12,
            NegFault::Dup(_) => 13,
        };
        let mut faults = v.faults.clone();
        faults.sort_by_key(slot);
        faults.dedup_by_key(|f| slot(f));
        for f in &faults {
            match f {
                NegFault::Version(x) => {
                    if *x != 0x0303 {
                        p.srv.version = *x;
                        want.push(70);
                    }
                }
                NegFault::Comp(c) => {
                    p.srv.comp = *c;
                    want.push(47);
                }
                NegFault::Suite(x) => {
                    if ![0xc02b, 0xc02f].contains(x) {
                        p.srv.suite = *x;
                        want.push(40);
                    }
                }
                NegFault::OtherSuite => {
                    p.srv.suite = suite_of(p.srv.key) ^ (0xc02b ^ 0xc02f);
                    want.push(0);
                    late = true;
                }
                NegFault::Ext(t, b) => {
                    if !offered.contains(t) && *t != 0xff01 {
                        exts.push((*t, b.clone()));
                        // The body may not be what the type asks for.
                        want.extend([110, 50, 0]);
                    }
                }
                NegFault::Dup(i) => {
                    if !exts.is_empty() {
                        let e = exts[*i as usize % exts.len()].clone();
                        exts.push(e);
                        want.extend([50, 47]);
                    }
                }
                NegFault::Alpn(b) => {
                    exts.retain(|e| e.0 != 16);
                    exts.push((16, Bytes(w().vec(2, &w().vec(1, b).0).0)));
                    if p.cli.alpn.is_empty() {
                        want.push(110);
                    } else if !p.cli.alpn.contains(b) {
                        want.extend([47, 120]);
                    }
                }
                NegFault::AlpnShape(k) => {
                    exts.retain(|e| e.0 != 16);
                    let b = match k {
                        0 => vec![0, 1, 0],
                        _ => vec![],
                    };
                    exts.push((16, Bytes(b)));
                    want.extend([47, 50, 110, 0]);
                }
                NegFault::NoUncompressed(b) => {
                    let b: Vec<u8> = b.iter().copied().filter(|x| *x != 0).collect();
                    exts.retain(|e| e.0 != 11);
                    let empty = b.is_empty();
                    exts.push((11, Bytes(w().vec(1, &b).0)));
                    want.extend([40, 47]);
                    if empty {
                        want.extend([50, 0]);
                    }
                }
                NegFault::Versions(x) => {
                    exts.retain(|e| e.0 != 43);
                    exts.push((43, Bytes(w().u16(*x).0)));
                    want.extend([47, 70]);
                }
                NegFault::NoBlock => {}
                NegFault::CurveType(c) => {
                    if *c != 3 {
                        p.srv.curve_type = *c;
                        want.extend([50, 0]);
                        late = true;
                    }
                }
                NegFault::Group(g) => {
                    if *g != 23 {
                        p.srv.group = *g;
                        want.extend([47, 0]);
                        late = true;
                    }
                }
                NegFault::Point(b) => {
                    p.srv.point = Some(b.clone());
                    // Refused here or by the leader.
                    want.push(0);
                    late = true;
                }
                NegFault::Retry => {
                    p.srv.random_tail = Some(Bytes(hex::decode("cf21ad74e59a6111be1d8c021e65b891c2a211167abb8c5e079e09e2c8a8339c").unwrap()));
                    want.extend([10, 47, 50, 0]);
                }
            }
        }
        p.srv.exts = Some(exts);
        if faults.iter().any(|f| matches!(f, NegFault::NoBlock)) && p.srv.exts.as_ref().unwrap().len() <= 1 {
            // Nothing is said about a hello without extensions.
            p.srv.exts = None;
            want.extend([0, 50]);
            let mut s = open(&p)?;
            let _ = s.handshake();
            check!(s.seen.bad.is_none(), "{:?}", s.seen.bad);
            return Ok(());
        }
        let mut s = open(&p)?;
        let ok = s.handshake() && s.complete();
        if let Some(b) = &s.seen.bad {
            fail!("{b}");
        }
        if want.is_empty() {
            check!(ok, "an acceptable choice is refused: {:?}", s.err);
            return Ok(());
        }
        check!(!ok, "an unacceptable choice is accepted");
        check!(s.err.is_some() && s.c.is_handshaking());
        check!(s.seen.enc.is_empty(), "traffic in spite of an unacceptable choice");
        if !faults.iter().any(|f| matches!(f, NegFault::Point(_))) {
            check!(!s.exchanged(), "keys are exchanged in spite of an unacceptable choice");
        }
        let al: Vec<u8> = s.seen.alerts.iter().map(|a| a.1).collect();
        check!(s.seen.alerts.iter().all(|a| a.0 == 2) && al.len() <= 1, "alerts {:?}", s.seen.alerts);
        if al.is_empty() {
            check!(want.contains(&0), "no alert; expected one of {want:?}");
        } else {
            check!(want.contains(&al[0]) || (late && al[0] == 42), "alert {}; expected one of {want:?}", al[0]);
        }
        cx.nontrivial(true);
        for f in &faults {
            cx.label(format!("{:?}", f).split('(').next().unwrap().to_string());
        }
        Ok(())
    })?
}

pub fn c63() -> Check {
    Check {
        id: "C63",
        rule: "the server chooses something that was not offered",
        assumptions: ASSUME,
        laws: vec![law("choices of the server", cases(40_000), neg, t_neg)],
    }
}

// ---------------------------------------------------------------- C64

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fin {
    p: Pair,
    fin: FinFault,
    auth: bool,
    app: Bytes,
}
fn fin() -> impl Strategy<Value = Fin> {
    let f = prop_oneof![
        2 => any::<u8>().prop_map(FinFault::Bit),
        1 => Just(FinFault::ClientLabel),
        1 => Just(FinFault::Echo),
        3 => any::<u32>().prop_map(FinFault::Transcript),
        1 => Just(FinFault::DropLast),
        1 => Just(FinFault::DropFirst),
        2 => prop_oneof![0u8..12, 13u8..40].prop_map(FinFault::Length),
        1 => Just(FinFault::Zero),
        1 => Just(FinFault::OtherMaster),
        1 => Just(FinFault::None),
    ];
    (pair(), f, any::<bool>(), bytes(0..30)).prop_map(|(p, fin, auth, app)| Fin { p, fin, auth, app })
}
fn t_fin(v: &Fin, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut p = v.p.clone();
        p.srv.fin = v.fin.clone();
        if v.auth {
            let n = p.srv.flight1.len() - 1;
            p.srv.flight1.insert(n, Step::CertReq);
            p.cli.auth = Some(Auth { key: 1, depth: 1 });
        }
        let mut s = open(&p)?;
        s.c.write_plaintext(b"mine").unwrap();
        check!(s.send(&p.srv.flight1), "refused: {:?}", s.err);
        let mut f2 = p.srv.flight2.clone();
        f2.push(Step::App(v.app.clone()));
        let ok = s.send(&f2) && s.complete();
        if let Some(b) = &s.seen.bad {
            fail!("{b}");
        }
        if v.fin == FinFault::None {
            check!(ok, "refused: {:?}", s.err);
            check_eq!(s.got, v.app.0);
            return Ok(());
        }
        check!(!ok && s.c.is_handshaking(), "a wrong Finished is accepted");
        check!(s.got.is_empty(), "data delivered after a wrong Finished");
        check!(!s.seen.enc.iter().any(|r| r.0 == 23), "data sent after a wrong Finished");
        check!(!s.log().iter().any(|e| matches!(e, mpcclient::leader::Event::StartTraffic)), "traffic started");
        cx.nontrivial(true);
        cx.label(format!("{:?}", v.fin).split('(').next().unwrap().to_string());
        Ok(())
    })?
}

/// Somebody on the wire changes one message; both ends keep their own view.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Mitm {
    p: Pair,
    /// Which message of the server, and the change.
    at: u8,
    m: Mutation,
}
fn mitm() -> impl Strategy<Value = Mitm> {
    (pair(), any::<u8>(), mutation()).prop_map(|(p, at, m)| Mitm { p, at, m })
}
fn t_mitm(v: &Mitm, cx: &mut Cx) -> CaseResult {
    quiet(|| {
        let mut p = v.p.clone();
        p.srv.cuts = vec![0];
        let mut s = open(&p)?;
        let at = v.at as usize % p.srv.flight1.len();
        let mut same = true;
        let mut ok = true;
        for (i, st) in p.srv.flight1.clone().iter().enumerate() {
            let (_, m) = s.message(st);
            s.transcript.push(m.clone());
            let mut x = m.clone();
            if i == at {
                v.m.apply(&mut x);
                same = x == m;
            }
            let mut b = vec![];
            for part in x.chunks(16000) {
                b.extend(s.emit(22, part));
            }
            ok = ok && s.deliver(&b);
        }
        // The client's own Finished is over its own view.
        let bad = s.seen.bad.take();
        let f2 = p.srv.flight2.clone();
        ok = ok && s.send(&f2) && s.complete();
        if same {
            check!(ok && bad.is_none(), "refused: {:?} {bad:?}", s.err);
            return Ok(());
        }
        check!(!ok, "the handshake completes though a message was changed on the way");
        check!(s.c.is_handshaking() && s.got.is_empty());
        cx.nontrivial(true);
        cx.label(format!("{:?}", p.srv.flight1[at]).split('(').next().unwrap().to_string());
        cx.label_if(s.prepared(), "reached the key exchange");
        Ok(())
    })?
}

pub fn c64() -> Check {
    Check {
        id: "C64",
        rule: "the Finished is wrong, or a message was changed on the way",
        assumptions: ASSUME,
        laws: vec![law("wrong Finished", cases(24_000), fin, t_fin), law("messages changed on the way", cases(32_000), mitm, t_mitm)],
    }
}
