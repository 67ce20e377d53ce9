//! C18: whole TLS sessions between two rustls endpoints, read with the library.

use std::io::Read;
use tls_core::{
    anchors::RootCertStore,
    cert::ServerCertDetails,
    cipher::make_tls12_aad,
    dns::ServerName,
    handshake::HandshakeData,
    ke::ServerKxDetails,
    msgs::{
        base::Payload,
        codec::{Codec, Reader},
        deframer::MessageDeframer,
        enums::*,
        handshake::*,
        hsjoiner::HandshakeJoiner,
        message::{Message, MessagePayload, OpaqueMessage, PlainMessage},
    },
    prf::prf,
    suites::{self, tls12::{decode_ecdh_params, join_randoms}},
    verify::{construct_tls13_client_verify_message, construct_tls13_server_verify_message, ServerCertVerifier, WebPkiVerifier},
};
use vpt::{
    cases, check, check_eq, fail, law, CaseResult, Check, Cx, Failure,
};

use crate::sess::*;

fn roots(r: &Recorded) -> RootCertStore {
    let mut s = RootCertStore::empty();
    s.roots.push(webpki::anchor_from_trusted_cert(&rustls_pki_types::CertificateDer::from(r.pki.root.as_slice())).unwrap().to_owned());
    s
}

/// Feeds a stream through the deframer in the given portions.
fn deframe(stream: &[u8], chunks: &[u16]) -> Result<Vec<OpaqueMessage>, Failure> {
    struct Portion<'a>(&'a [u8], usize);
    impl Read for Portion<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = self.1.min(b.len()).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let mut d = MessageDeframer::new();
    let mut rest = stream;
    let mut out = vec![];
    let mut i = 0;
    while !rest.is_empty() {
        let mut p = Portion(rest, chunks[i % chunks.len()] as usize);
        i += 1;
        let n = d.read(&mut p).map_err(|e| format!("read: {e}"))?;
        check!(n > 0 && !d.desynced, "deframer stopped on a genuine stream after {} records", out.len());
        rest = p.0;
        out.extend(d.frames.drain(..));
    }
    check!(!d.has_pending(), "data left pending at the end of a genuine stream");
    Ok(out)
}

/// Records of a stream, by reading the headers.
fn records(mut s: &[u8]) -> Vec<(u8, &[u8])> {
    let mut v = vec![];
    while s.len() >= 5 {
        let n = u16::from_be_bytes([s[3], s[4]]) as usize;
        v.push((s[0], &s[5..5 + n]));
        s = &s[5 + n..];
    }
    v
}

struct Aead(ring::aead::LessSafeKey, Vec<u8>, bool);
impl Aead {
    fn new(suite: u16, key: &[u8], iv: &[u8]) -> Self {
        use ring::aead::*;
        let alg = match suite {
            0x1301 | 0xc02b | 0xc02f => &AES_128_GCM,
            0x1302 => &AES_256_GCM,
            _ => &CHACHA20_POLY1305,
        };
        Aead(LessSafeKey::new(UnboundKey::new(alg, key).unwrap()), iv.to_vec(), matches!(suite, 0xc02b | 0xc02f))
    }
    fn open(&self, seq: u64, explicit: &[u8], aad: &[u8], ct: &[u8]) -> Result<Vec<u8>, Failure> {
        let mut nonce = [0u8; 12];
        nonce[..self.1.len()].copy_from_slice(&self.1);
        if self.2 {
            nonce[4..].copy_from_slice(explicit);
        } else {
            for (a, b) in nonce[4..].iter_mut().zip(seq.to_be_bytes()) {
                *a ^= b;
            }
        }
        let mut buf = ct.to_vec();
        let n = self
            .0
            .open_in_place(ring::aead::Nonce::assume_unique_for_key(nonce), ring::aead::Aad::from(aad), &mut buf)
            .map_err(|_| Failure::from(format!("record {seq} does not open with the derived key and additional data")))?
            .len();
        buf.truncate(n);
        Ok(buf)
    }
}

fn hmac(alg: ring::hmac::Algorithm, key: &[u8], data: &[u8]) -> Vec<u8> {
    ring::hmac::sign(&ring::hmac::Key::new(alg, key), data).as_ref().to_vec()
}
fn expand_label(alg: ring::hmac::Algorithm, secret: &[u8], label: &str, n: usize) -> Vec<u8> {
    let mut info = (n as u16).to_be_bytes().to_vec();
    info.push(6 + label.len() as u8);
    info.extend(b"tls13 ");
    info.extend(label.as_bytes());
    info.push(0);
    info.push(1);
    let mut o = hmac(alg, secret, &info);
    o.truncate(n);
    o
}

/// What one side said: handshake messages with their encodings, application
/// data, alerts, in the order of the stream.
#[derive(Default)]
struct Said {
    hs: Vec<(HandshakeMessagePayload, Vec<u8>)>,
    app: Vec<u8>,
    alerts: Vec<(u8, u8)>,
}

struct Side<'a> {
    joiner: HandshakeJoiner,
    /// Handshake bytes not yet attributed to a message.
    raw: Vec<u8>,
    said: Said,
    vers: ProtocolVersion,
    _p: std::marker::PhantomData<&'a ()>,
}

impl Side<'_> {
    fn new(vers: ProtocolVersion) -> Self {
        Side { joiner: HandshakeJoiner::new(), raw: vec![], said: Said::default(), vers, _p: std::marker::PhantomData }
    }

    /// Takes a plaintext record payload.
    fn take(&mut self, typ: u8, body: Vec<u8>) -> CaseResult {
        let m = PlainMessage { typ: ContentType::from(typ), version: self.vers, payload: Payload(body.clone()) };
        if typ == 22 {
            check!(self.joiner.want_message(&m), "joiner does not want a handshake record");
            self.raw.extend(&body);
            let n = self.joiner.take_message(m).ok_or("handshake of a genuine peer refused")?;
            check_eq!(n, self.joiner.frames.len(), "messages announced");
            while let Some(f) = self.joiner.frames.pop_front() {
                let len = 4 + u32::from_be_bytes([0, self.raw[1], self.raw[2], self.raw[3]]) as usize;
                let wire: Vec<u8> = self.raw.drain(..len).collect();
                check_eq!(f.version, self.vers, "version of a joined message");
                let MessagePayload::Handshake(h) = f.payload else { fail!("joined message is not a handshake") };
                check_eq!(h.get_encoding(), wire, "re-encoding of a {:?} message of a genuine peer", h.typ);
                self.said.hs.push((h, wire));
            }
            check_eq!(self.joiner.is_empty(), self.raw.is_empty(), "joiner holds back data");
            return Ok(());
        }
        check!(!self.joiner.want_message(&m), "joiner wants a record of type {typ}");
        let read = |m| Message::try_from(m).map_err(|e| Failure::from(format!("record of type {typ} of a genuine peer refused: {e}")));
        let m2 = PlainMessage { typ: ContentType::from(typ), version: self.vers, payload: Payload(body.clone()) };
        let again = PlainMessage::from(read(m)?);
        let msg = read(m2)?;
        check_eq!((again.typ, again.version, &again.payload.0), (ContentType::from(typ), self.vers, &body), "re-encoding of a record");
        match msg.payload {
            MessagePayload::ApplicationData(p) => {
                check_eq!(typ, 23);
                self.said.app.extend(p.0)
            }
            MessagePayload::Alert(a) => {
                check_eq!(typ, 21);
                self.said.alerts.push((a.level.get_u8(), a.description.get_u8()))
            }
            MessagePayload::ChangeCipherSpec(_) => check_eq!(typ, 20),
            MessagePayload::Handshake(_) => fail!("record of type {typ} decoded as a handshake"),
        }
        Ok(())
    }

    fn find(&self, t: HandshakeType) -> Vec<&(HandshakeMessagePayload, Vec<u8>)> {
        self.said.hs.iter().filter(|m| m.0.typ == t).collect()
    }
}

/// Encodings of the messages up to (and with) the last of a type.
fn until(v: &Side, t: HandshakeType) -> Vec<u8> {
    let n = v.said.hs.iter().rposition(|m| m.0.typ == t).map(|i| i + 1).unwrap_or(0);
    v.said.hs[..n].iter().flat_map(|m| m.1.clone()).collect()
}
fn before(v: &Side, t: HandshakeType) -> Vec<u8> {
    let n = v.said.hs.iter().position(|m| m.0.typ == t).unwrap_or(v.said.hs.len());
    v.said.hs[..n].iter().flat_map(|m| m.1.clone()).collect()
}

fn all_suites() -> Vec<suites::SupportedCipherSuite> {
    use suites::{tls12::*, tls13::*};
    vec![
        TLS13_AES_256_GCM_SHA384,
        TLS13_AES_128_GCM_SHA256,
        TLS13_CHACHA20_POLY1305_SHA256,
        TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384,
        TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256,
        TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256,
        TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384,
        TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256,
        TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256,
    ]
}

fn lib_suite(code: u16) -> Result<suites::SupportedCipherSuite, Failure> {
    all_suites().into_iter().find(|c| c.suite().get_u16() == code).ok_or_else(|| format!("suite {code:#06x} unknown").into())
}

fn check_hello(s: &Sess, r: &Recorded, c: &Side) -> Result<(), Failure> {
    let chs = c.find(HandshakeType::ClientHello);
    let Some((HandshakeMessagePayload { payload: HandshakePayload::ClientHello(ch), .. }, _)) = chs.last() else { fail!("no client hello decoded") };
    check!(!ch.has_duplicate_extension(), "extensions of a genuine hello reported as repeated");
    match (&s.name, ch.get_sni_extension()) {
        (Some(n), Some(list)) => {
            check_eq!(list.len(), 1);
            let mut w = vec![];
            list[0].encode(&mut w);
            let mut want = vec![0];
            want.extend((n.len() as u16).to_be_bytes());
            want.extend(n.as_bytes());
            check_eq!(w, want, "server name read from the hello");
        }
        (None, None) => {}
        (a, b) => fail!("server name {a:?} is read as {b:?}"),
    }
    let alpn: Vec<Vec<u8>> = ch.get_alpn_extension().map(|l| l.iter().map(|p| p.0.clone()).collect()).unwrap_or_default();
    check_eq!(alpn, s.alpn.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), "protocols read from the hello");
    check_eq!(ch.get_sigalgs_extension().map(|v| v.iter().map(|x| x.get_u16()).collect::<Vec<_>>()), Some(SCHEMES.to_vec()), "schemes read from the hello");
    check!(ch.cipher_suites.iter().any(|x| x.get_u16() == r.suite), "suite missing from the hello");
    let chosen = suites::choose_ciphersuite_preferring_client(&ch.cipher_suites, &all_suites());
    check_eq!(chosen.map(|x| x.suite().get_u16()), Some(r.suite), "suite chosen from the hello");
    Ok(())
}

fn run(s: &Sess, cx: &mut Cx) -> CaseResult {
    let r = run_session(s)?;
    cx.nontrivial(!r.sent[0].is_empty() || !r.sent[1].is_empty());
    cx.label(format!("TLS 1.{} {:#06x}", if s.tls13 { 3 } else { 2 }, r.suite));
    cx.label_if(s.client_auth == 2, "client certificate");
    cx.label_if(s.ocsp.is_some(), "stapled response");
    for (dir, stream) in [&r.c2s, &r.s2c].into_iter().enumerate() {
        let frames = deframe(stream, &s.chunks)?;
        let want = records(stream);
        check_eq!(frames.len(), want.len(), "records of direction {dir}");
        let mut again = vec![];
        for (f, (t, b)) in frames.iter().zip(&want) {
            check_eq!((f.typ.get_u8(), &f.payload.0[..]), (*t, *b), "record");
            again.extend(f.clone().encode());
        }
        check!(again == **stream, "re-encoded records differ from the stream of direction {dir}");
    }
    if s.tls13 {
        tls13(s, &r, cx)
    } else {
        tls12(s, &r, cx)
    }
}

fn tls12(s: &Sess, r: &Recorded, _cx: &mut Cx) -> CaseResult {
    let v12 = ProtocolVersion::TLSv1_2;
    let mut sides = [Side::new(v12), Side::new(v12)];
    let recs = [records(&r.c2s), records(&r.s2c)];
    let mut split = [0, 0];
    for d in 0..2 {
        for (i, (t, b)) in recs[d].iter().enumerate() {
            sides[d].take(*t, b.to_vec())?;
            if *t == 20 {
                split[d] = i + 1;
                break;
            }
        }
    }
    check_hello(s, r, &sides[0])?;
    let Some(HandshakePayload::ClientHello(ch)) = get_last(&sides[0], HandshakeType::ClientHello) else { fail!("no client hello") };
    let get = |d: usize, t| get_last(&sides[d], t);
    let Some(HandshakePayload::ServerHello(sh)) = get(1, HandshakeType::ServerHello) else { fail!("no server hello decoded") };
    check_eq!(sh.cipher_suite.get_u16(), r.suite, "suite of the server hello");
    check!(!sh.has_duplicate_extension(), "extensions of a genuine hello reported as repeated");
    check_eq!(sh.get_alpn_protocol().map(|p| p.to_vec()), r.alpn.clone(), "protocol read from the server hello");
    let ems = sh.ems_support_acked();
    check!(ems && ch.ems_support_offered(), "extended master secret not seen");
    let Some(HandshakePayload::Certificate(chain)) = get(1, HandshakeType::Certificate) else { fail!("no certificate decoded") };
    check_eq!(chain.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), r.pki.chain, "certificate chain read");
    let ocsp = match get(1, HandshakeType::CertificateStatus) {
        Some(HandshakePayload::CertificateStatus(c)) => c.into_inner(),
        _ => vec![],
    };
    check_eq!(ocsp, s.ocsp.as_ref().map(|o| o.0.clone()).unwrap_or_default(), "stapled response read");
    match (s.client_auth, get(1, HandshakeType::CertificateRequest)) {
        (0, None) => {}
        (1 | 2, Some(HandshakePayload::CertificateRequest(q))) => {
            check_eq!(q.sigschemes.iter().map(|x| x.get_u16()).collect::<Vec<_>>(), SCHEMES.to_vec(), "schemes of the certificate request")
        }
        (_, q) => fail!("certificate request read as {q:?}"),
    }

    // Key exchange and its signature.
    let Some(HandshakePayload::ServerKeyExchange(skx)) = get(1, HandshakeType::ServerKeyExchange) else { fail!("no key exchange decoded") };
    let suite = lib_suite(r.suite)?;
    let suites::SupportedCipherSuite::Tls12(t12) = suite else { fail!("{suite:?} is not a TLS 1.2 suite") };
    let skx = skx.unwrap_given_kxa(&t12.kx).ok_or("key exchange of a genuine server refused")?;
    let mut params = vec![];
    skx.params.encode(&mut params);
    check!(decode_ecdh_params::<ServerECDHParams>(&params).is_some(), "server parameters refused");
    let cert = ServerCertDetails::new(chain.clone(), ocsp, None);
    let data = HandshakeData::new(cert, ServerKxDetails::new(params.clone(), skx.dss.clone()), ch.random, sh.random);
    let verifier = WebPkiVerifier::new(roots(r), None);
    let at = web_time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(NOW);
    let good = s.name.as_deref().is_some_and(|n| n.ends_with("a.test"));
    let name = ServerName::try_from(s.name.as_deref().unwrap_or("a.test")).unwrap();
    let verdict = data.verify(&verifier, at, &name);
    check_eq!(verdict.is_ok(), good || s.name.is_none(), "verdict on the recorded handshake: {verdict:?}");
    let mut swapped = data.clone();
    swapped = HandshakeData::new(swapped.server_cert_details().clone(), swapped.server_kx_details().clone(), sh.random, ch.random);
    check!(swapped.verify(&verifier, at, &name).is_err(), "handshake with swapped randoms believed");

    // Secrets.
    let Some(HandshakePayload::ClientKeyExchange(ckx)) = get(0, HandshakeType::ClientKeyExchange) else { fail!("no client key exchange decoded") };
    check!(decode_ecdh_params::<ClientECDHParams>(&ckx.0).is_some(), "client parameters refused");
    let pre = r.kx.clone().ok_or("harness: no shared secret")?;
    let flight1 = |c: &Side, v: &Side| [until(c, HandshakeType::ClientHello), until(v, HandshakeType::ServerHelloDone)].concat();
    let mut upto_ckx = flight1(&sides[0], &sides[1]);
    let rest_c: Vec<u8> = until(&sides[0], HandshakeType::ClientKeyExchange)[until(&sides[0], HandshakeType::ClientHello).len()..].to_vec();
    upto_ckx.extend(rest_c);
    let sha = |d: &[u8]| ring::digest::digest(&ring::digest::SHA256, d).as_ref().to_vec();
    let mut ms = [0u8; 48];
    prf(&mut ms, &pre, b"extended master secret", &sha(&upto_ckx)).map_err(|e| e.to_string())?;
    check_eq!(ms.to_vec(), logged("CLIENT_RANDOM")?, "master secret derived from the recorded handshake");
    let (kl, il) = if *t12.common.aead_algorithm == suites::AEADAlgorithm::CHACHA20_POLY1305 { (32, 12) } else { (16, 4) };
    check_eq!((t12.fixed_iv_len, t12.explicit_nonce_len), (il, if il == 4 { 8 } else { 0 }), "nonce layout");
    let mut kb = vec![0; 2 * (kl + il)];
    prf(&mut kb, &ms, b"key expansion", &join_randoms(&sh.random.0, &ch.random.0)).map_err(|e| e.to_string())?;
    let aeads = [Aead::new(r.suite, &kb[..kl], &kb[2 * kl..2 * kl + il]), Aead::new(r.suite, &kb[kl..2 * kl], &kb[2 * kl + il..])];

    // Protected records.
    for d in 0..2 {
        for (seq, (t, b)) in recs[d][split[d]..].iter().enumerate() {
            let e = t12.explicit_nonce_len;
            let len = b.len() - e - 16;
            let aad = make_tls12_aad(seq as u64, ContentType::from(*t), v12, len);
            let p = aeads[d].open(seq as u64, &b[..e], &aad, &b[e..])?;
            sides[d].take(*t, p)?;
        }
    }
    let finished = |d: usize, label: &[u8], transcript: &[u8]| -> CaseResult {
        let Some(HandshakePayload::Finished(f)) = get_last(&sides[d], HandshakeType::Finished) else { fail!("no finished message decoded") };
        let mut vd = [0u8; 12];
        prf(&mut vd, &ms, label, &sha(transcript)).map_err(|e| e.to_string())?;
        check_eq!(f.0, vd.to_vec(), "finished message of direction {d}");
        Ok(())
    };
    let mut tr = flight1(&sides[0], &sides[1]);
    let ch_len = until(&sides[0], HandshakeType::ClientHello).len();
    tr.extend(&before(&sides[0], HandshakeType::Finished)[ch_len..]);
    finished(0, b"client finished", &tr)?;
    tr.extend(&until(&sides[0], HandshakeType::Finished)[before(&sides[0], HandshakeType::Finished).len()..]);
    let shd = until(&sides[1], HandshakeType::ServerHelloDone).len();
    tr.extend(&before(&sides[1], HandshakeType::Finished)[shd..]);
    finished(1, b"server finished", &tr)?;

    if let Some(cc) = &r.client_chain {
        let Some(HandshakePayload::Certificate(chain)) = get_last(&sides[0], HandshakeType::Certificate) else { fail!("no client certificate decoded") };
        check_eq!(chain.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), *cc, "client chain read");
        let Some(HandshakePayload::CertificateVerify(dss)) = get_last(&sides[0], HandshakeType::CertificateVerify) else { fail!("no client signature decoded") };
        verifier.verify_tls12_signature(&upto_ckx, &chain[0], &dss).map_err(|e| format!("client's signature refused: {e}"))?;
    }
    outcome(s, r, &sides)
}

fn get_last(v: &Side, t: HandshakeType) -> Option<HandshakePayload> {
    // The message types have no copy operation: decode the encoding again.
    v.find(t).last().map(|m| HandshakeMessagePayload::read_version(&mut Reader::init(&m.1), v.vers).expect("decoded before").payload)
}

fn outcome(s: &Sess, r: &Recorded, sides: &[Side; 2]) -> CaseResult {
    for d in 0..2 {
        check!(sides[d].said.app == r.sent[d], "application data of direction {d} read from the records differs from what was sent");
        let closed = if d == 0 { s.close.0 } else { s.close.1 };
        check_eq!(sides[d].said.alerts, if closed { vec![(1u8, 0u8)] } else { vec![] }, "alerts of direction {d}");
    }
    Ok(())
}

fn tls13(s: &Sess, r: &Recorded, cx: &mut Cx) -> CaseResult {
    let v13 = ProtocolVersion::TLSv1_3;
    let suites::SupportedCipherSuite::Tls13(t13) = lib_suite(r.suite)? else { fail!("not a TLS 1.3 suite") };
    let (dig, mac) = match t13.hash_algorithm() {
        suites::HashAlgorithm::SHA256 => (&ring::digest::SHA256, ring::hmac::HMAC_SHA256),
        suites::HashAlgorithm::SHA384 => (&ring::digest::SHA384, ring::hmac::HMAC_SHA384),
        h => fail!("hash {h:?}"),
    };
    let hash = |d: &[u8]| ring::digest::digest(dig, d);
    let kl = if r.suite == 0x1301 { 16 } else { 32 };
    let mut sides = [Side::new(v13), Side::new(v13)];
    for (d, stream) in [&r.c2s, &r.s2c].into_iter().enumerate() {
        let who = if d == 0 { "CLIENT" } else { "SERVER" };
        let aead = |label: String| -> Result<Aead, Failure> {
            let sec = logged(&label)?;
            Ok(Aead::new(r.suite, &expand_label(mac, &sec, "key", kl), &expand_label(mac, &sec, "iv", 12)))
        };
        let mut key = aead(format!("{who}_HANDSHAKE_TRAFFIC_SECRET"))?;
        let mut seq = 0;
        let mut traffic = false;
        for (t, b) in records(stream) {
            if t != 23 {
                sides[d].take(t, b.to_vec())?;
                continue;
            }
            let mut aad = vec![23, 3, 3];
            aad.extend((b.len() as u16).to_be_bytes());
            let mut p = key.open(seq, &[], &aad, b)?;
            seq += 1;
            while p.last() == Some(&0) {
                p.pop();
            }
            let t = p.pop().ok_or("empty inner record")?;
            sides[d].take(t, p)?;
            if !traffic && !sides[d].find(HandshakeType::Finished).is_empty() {
                traffic = true;
                key = aead(format!("{who}_TRAFFIC_SECRET_0"))?;
                seq = 0;
            }
        }
    }
    check_hello(s, r, &sides[0])?;
    let Some(HandshakePayload::ClientHello(ch)) = get_last(&sides[0], HandshakeType::ClientHello) else { fail!("no client hello") };
    check_eq!(ch.get_versions_extension().map(|v| v.to_vec()), Some(vec![v13]), "versions read from the hello");
    let retried = sides[0].find(HandshakeType::ClientHello).len() == 2;
    check_eq!(retried, s.other_first, "hello retry");
    let group = NamedGroup::from(match s.group {
        0 => 0x1d,
        1 => 0x17,
        _ => 0x18,
    });
    let shares = ch.get_keyshare_extension().ok_or("no key shares read")?;
    check!(!ch.has_keyshare_extension_with_duplicates(), "key shares reported as repeated");
    check!(shares.iter().any(|k| k.group == group), "share for the group in use missing");
    // Server hello and retry.
    let hellos = sides[1].said.hs.iter().filter(|m| matches!(m.0.typ, HandshakeType::ServerHello | HandshakeType::HelloRetryRequest)).collect::<Vec<_>>();
    check_eq!(hellos.len(), 1 + retried as usize, "hellos of the server");
    if retried {
        cx.label("hello retry");
        let HandshakePayload::HelloRetryRequest(q) = &hellos[0].0.payload else { fail!("retry request read as {:?}", hellos[0].0.typ) };
        check_eq!(q.get_requested_key_share_group(), Some(group), "group asked for");
        check_eq!(q.get_supported_versions(), Some(v13), "version of the retry request");
        check!(!q.has_duplicate_extension() && !q.has_unknown_extension(), "retry request misread");
    }
    let HandshakePayload::ServerHello(sh) = &hellos[retried as usize].0.payload else { fail!("server hello read as {:?}", hellos[retried as usize].0.typ) };
    check_eq!(sh.get_supported_versions(), Some(v13), "version of the server hello");
    check_eq!(sh.get_key_share().map(|k| k.group), Some(group), "group of the server's share");
    let Some(HandshakePayload::EncryptedExtensions(ee)) = get_last(&sides[1], HandshakeType::EncryptedExtensions) else { fail!("no encrypted extensions decoded") };
    check_eq!(ee.get_alpn_protocol().map(|p| p.to_vec()), r.alpn.clone(), "protocol read");
    let Some(HandshakePayload::CertificateTLS13(chain)) = get_last(&sides[1], HandshakeType::Certificate) else { fail!("no certificate decoded") };
    check_eq!(chain.convert().iter().map(|c| c.0.clone()).collect::<Vec<_>>(), r.pki.chain, "certificate chain read");
    check_eq!(chain.get_end_entity_ocsp(), s.ocsp.as_ref().map(|o| o.0.clone()).unwrap_or_default(), "stapled response read");
    match (s.client_auth, get_last(&sides[1], HandshakeType::CertificateRequest)) {
        (0, None) => {}
        (1 | 2, Some(HandshakePayload::CertificateRequestTLS13(q))) => {
            check_eq!(q.get_sigalgs_extension().map(|v| v.iter().map(|x| x.get_u16()).collect::<Vec<_>>()), Some(SCHEMES.to_vec()), "schemes of the certificate request")
        }
        (_, q) => fail!("certificate request read as {q:?}"),
    }
    // Transcript.
    let mut tr = vec![];
    if retried {
        let c = sides[0].find(HandshakeType::ClientHello);
        let first = HandshakeMessagePayload::build_handshake_hash(hash(&c[0].1).as_ref());
        tr.extend(first.get_encoding());
        tr.extend(&hellos[0].1);
        tr.extend(&c[1].1);
    } else {
        tr.extend(until(&sides[0], HandshakeType::ClientHello));
    }
    let skip = if retried { hellos[0].1.len() } else { 0 };
    let base = tr.clone();
    let server = |t| before(&sides[1], t)[skip..].to_vec();
    let verifier = WebPkiVerifier::new(roots(r), None);
    let Some(HandshakePayload::CertificateVerify(dss)) = get_last(&sides[1], HandshakeType::CertificateVerify) else { fail!("no signature decoded") };
    let h = hash(&[base.clone(), server(HandshakeType::CertificateVerify)].concat());
    verifier
        .verify_tls13_signature(&construct_tls13_server_verify_message(&h), &chain.convert()[0], &dss)
        .map_err(|e| format!("server's signature refused: {e}"))?;
    check!(verifier.verify_tls13_signature(&construct_tls13_client_verify_message(&h), &chain.convert()[0], &dss).is_err(), "server's signature accepted as a client's");
    let finished = |d: usize, tr: &[u8]| -> CaseResult {
        let Some(HandshakePayload::Finished(f)) = get_last(&sides[d], HandshakeType::Finished) else { fail!("no finished message decoded") };
        let sec = logged(&format!("{}_HANDSHAKE_TRAFFIC_SECRET", if d == 0 { "CLIENT" } else { "SERVER" }))?;
        let fk = expand_label(mac, &sec, "finished", dig.output_len());
        check_eq!(f.0, hmac(mac, &fk, hash(tr).as_ref()), "finished message of direction {d}");
        Ok(())
    };
    finished(1, &[base.clone(), server(HandshakeType::Finished)].concat())?;
    let mut tr = [base, until(&sides[1], HandshakeType::Finished)[skip..].to_vec()].concat();
    let chlen = until(&sides[0], HandshakeType::ClientHello).len();
    if let Some(cc) = &r.client_chain {
        let Some(HandshakePayload::CertificateTLS13(chain)) = get_last(&sides[0], HandshakeType::Certificate) else { fail!("no client certificate decoded") };
        check_eq!(chain.convert().iter().map(|c| c.0.clone()).collect::<Vec<_>>(), *cc, "client chain read");
        let Some(HandshakePayload::CertificateVerify(dss)) = get_last(&sides[0], HandshakeType::CertificateVerify) else { fail!("no client signature decoded") };
        let h = hash(&[tr.clone(), before(&sides[0], HandshakeType::CertificateVerify)[chlen..].to_vec()].concat());
        verifier
            .verify_tls13_signature(&construct_tls13_client_verify_message(&h), &chain.convert()[0], &dss)
            .map_err(|e| format!("client's signature refused: {e}"))?;
    }
    tr.extend(&before(&sides[0], HandshakeType::Finished)[chlen..]);
    finished(0, &tr)?;
    if s.tickets {
        for (m, _) in sides[1].find(HandshakeType::NewSessionTicket) {
            let HandshakePayload::NewSessionTicketTLS13(t) = &m.payload else { fail!("ticket read as another message") };
            check!(!t.has_duplicate_extension(), "ticket extensions reported as repeated");
            check_eq!(t.lifetime, 7200, "ticket lifetime");
        }
    }
    outcome(s, r, &sides)
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        rule: "A case is a whole TLS 1.2 or 1.3 session between two rustls endpoints - suite, group, hello retry, certificate key and depth, name, protocols, \
               stapled response, client authentication, tickets, record size limits, application data, closure - recorded and cut into reads. Non-trivial: \
               application data was sent.",
        assumptions: &["rustls 0.22 over ring is a correct TLS implementation and logs the secrets it uses.", "A case is reproducible up to ECDSA nonces."],
        laws: vec![law("session_is_read_back", cases(20_000), sess, run)],
    }
}
