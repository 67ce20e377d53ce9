//! C01: handshake wire fidelity. C02: decoder strictness and robustness.

use crate::hs_spec::*;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use tls_core::msgs::{
    alert::AlertMessagePayload,
    base::Payload,
    ccs::ChangeCipherSpecPayload,
    codec::{Codec, Reader},
    enums::*,
    handshake::*,
    message::*,
};
use vpt::{cases, check, check_eq, exhaustive, fail, gen::*, law, Check};

fn vers(tls13: bool) -> ProtocolVersion {
    if tls13 {
        ProtocolVersion::TLSv1_3
    } else {
        ProtocolVersion::TLSv1_2
    }
}

/// Decodes with the code under test into the model.
fn lib_parse(b: &[u8], tls13: bool) -> Option<(Hs, usize, u8)> {
    let mut r = Reader::init(b);
    let m = HandshakeMessagePayload::read_version(&mut r, vers(tls13))?;
    Some((Hs::from_lib(&m), r.used(), m.typ.get_u8()))
}

fn pick13(h: &Hs, coin: bool) -> bool {
    if h.is13() {
        true
    } else if h.is12() {
        false
    } else {
        coin
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Big {
    Certs(Vec<u32>, u64),
    Certs13(Vec<u32>, u64),
    Ticket(u32, u64),
    Kx(u32, u64),
    Suites(u32),
    Alpn(u32),
    Finished(u32, u64),
    Ocsp(u32, u64),
    ClientExts(u32, u64),
    Cookie(u32, u64),
}

impl Big {
    fn hs(&self) -> Hs {
        match self {
            Big::Certs(l, t) => Hs::Certificate(l.iter().map(|n| Bytes(filler(*t, *n as usize))).collect()),
            Big::Certs13(l, t) => Hs::Certificate13 {
                context: Bytes(vec![]),
                entries: l.iter().map(|n| (Bytes(filler(*t, *n as usize)), vec![])).collect(),
            },
            Big::Ticket(n, t) => Hs::NewSessionTicket { hint: 7, ticket: Bytes(filler(*t, (*n as usize).min(65535))) },
            Big::Kx(n, t) => Hs::ServerKeyExchange(Bytes(filler(*t, *n as usize))),
            Big::Suites(n) => Hs::ClientHello {
                version: 0x0303,
                random: Bytes(vec![9; 32]),
                session: Bytes(vec![]),
                suites: (0..*n.min(&32767)).map(|x| x as u16).collect(),
                compression: Bytes(vec![0; 255]),
                exts: vec![CExt::Ems],
            },
            Big::Alpn(n) => Hs::EncryptedExtensions(vec![SExt::Alpn((0..*n.min(&250)).map(|i| Bytes(filler(i as u64, 255))).collect())]),
            Big::Finished(n, t) => Hs::Finished(Bytes(filler(*t, *n as usize))),
            Big::Ocsp(n, t) => Hs::CertificateStatus(Bytes(filler(*t, *n as usize))),
            Big::ClientExts(n, t) => Hs::ClientHello {
                version: 0x0303,
                random: Bytes(vec![9; 32]),
                session: Bytes(filler(1, 32)),
                suites: vec![],
                compression: Bytes(vec![]),
                exts: vec![CExt::Unknown(0x0a0a, Bytes(filler(*t, (*n as usize).min(65531))))],
            },
            Big::Cookie(n, t) => Hs::HelloRetryRequest {
                version: 0x0303,
                session: Bytes(filler(1, 32)),
                suite: 0x1301,
                exts: vec![HExt::Cookie(Bytes(filler(*t, (*n as usize).min(65529))))],
            },
        }
    }
}

fn big() -> impl Strategy<Value = Big> {
    let n = || near(&[254, 255, 256, 257, 16384, 65531, 65535, 65536, 70000], 4, 70010).prop_map(|x| x as u32);
    let lens = vec(near(&[0, 255, 256, 1000, 21845, 32768, 65530], 3, 65536).prop_map(|x| x as u32), 0..4);
    // Lists whose total encoded size straddles the 64 KiB limit.
    let edge = (0u32..5, 1u32..4, any::<u64>()).prop_map(|(d, k, t)| {
        let total = 65536 - 2 + d - 3 * k;
        let first = total / k;
        let mut v = vec![first; k as usize];
        v[0] += total - first * k;
        (v, t)
    });
    prop_oneof![
        (lens.clone(), any::<u64>()).prop_map(|(l, t)| Big::Certs(l, t)),
        edge.clone().prop_map(|(l, t)| Big::Certs(l, t)),
        (lens, any::<u64>()).prop_map(|(l, t)| Big::Certs13(l, t)),
        (n(), any::<u64>()).prop_map(|(n, t)| Big::Ticket(n, t)),
        (n(), any::<u64>()).prop_map(|(n, t)| Big::Kx(n, t)),
        near(&[127, 128, 255, 256, 32767], 2, 32767).prop_map(|n| Big::Suites(n as u32)),
        (0u32..251).prop_map(Big::Alpn),
        (n(), any::<u64>()).prop_map(|(n, t)| Big::Finished(n, t)),
        (n(), any::<u64>()).prop_map(|(n, t)| Big::Ocsp(n, t)),
        (n(), any::<u64>()).prop_map(|(n, t)| Big::ClientExts(n, t)),
        (n(), any::<u64>()).prop_map(|(n, t)| Big::Cookie(n, t)),
    ]
}

fn differential(b: &[u8], tls13: bool) -> Result<bool, vpt::Failure> {
    let want = Hs::parse(b, tls13);
    let got = lib_parse(b, tls13);
    match (&want, &got) {
        (None, None) => Ok(false),
        (Some((h, n)), Some((g, m, typ))) => {
            check_eq!(g, h, "decoded message differs from the specification");
            check_eq!(m, n, "decoder consumed a different number of bytes");
            check_eq!(*typ, h.lib_type(), "decoded message type differs");
            Ok(true)
        }
        (None, Some((g, ..))) => fail!("malformed message accepted as {}", vpt::trunc(g)),
        (Some((h, _)), None) => fail!("well-formed message refused: {}", vpt::trunc(h)),
    }
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "A case is one generated TLS handshake message, alert, change-cipher-spec or key-exchange structure (every message and extension kind, \
               unknown code points, empty and boundary-sized fields). Non-trivial: the encoded body has more than one byte.",
        assumptions: &["The specification encoder in the harness is written from the RFCs and trusted.", "Host names are judged valid by rustls-pki-types."],
        laws: vec![
            law("encode_matches_spec", cases(360000), hs, |h: &Hs, cx| {
                cx.label(h.kind());
                cx.nontrivial(h.interesting());
                let lib = h.to_lib();
                check_eq!(Bytes(lib.get_encoding()), Bytes(h.wire()), "encoding of {} differs from the specification", h.kind());
                Ok(())
            }),
            law("decode_matches_spec", cases(360000), || (hs(), any::<bool>(), bytes(0..6)), |(h, coin, tail): &(Hs, bool, Bytes), cx| {
                let tls13 = pick13(h, *coin);
                cx.label(h.kind());
                cx.nontrivial(h.interesting());
                let mut w = h.wire();
                let n = w.len();
                w.extend(&tail.0);
                let Some((g, used, typ)) = lib_parse(&w, tls13) else { fail!("well-formed {} refused", h.kind()) };
                check_eq!(g, *h, "decoded message differs");
                check_eq!(used, n, "bytes consumed");
                check_eq!(typ, h.lib_type());
                Ok(())
            }),
            law("sequence_round_trip", cases(48000), || vec(hs(), 0..8), |v: &Vec<Hs>, cx| {
                let v: Vec<&Hs> = v.iter().filter(|h| !h.is13()).collect();
                cx.nontrivial(v.len() > 1);
                let mut w = vec![];
                for h in &v {
                    h.to_lib().encode(&mut w);
                }
                let mut r = Reader::init(&w);
                for h in &v {
                    let Some(m) = HandshakeMessagePayload::read(&mut r) else { fail!("message in a flight refused") };
                    check_eq!(Hs::from_lib(&m), **h);
                    check_eq!(Bytes(m.get_encoding()), Bytes(h.wire()), "re-encoding a decoded message changed it");
                }
                check!(!r.any_left(), "bytes left over");
                Ok(())
            }),
            law("boundary_sizes", cases(9000), big, |bg: &Big, cx| {
                let h = bg.hs();
                cx.nontrivial(true);
                cx.label(h.kind());
                let w = h.wire();
                check!(h.to_lib().get_encoding() == w, "encoding of a large message differs from the specification: {bg:?}");
                let accepted = differential(&w, h.is13())?;
                cx.label(if accepted { "accepted" } else { "over the limit" });
                // Only certificate lists have a size limit below the wire format's.
                if !accepted {
                    check!(matches!(h, Hs::Certificate(_) | Hs::Certificate13 { .. }), "large message refused: {bg:?}");
                }
                Ok(())
            }),
            law(
                "tls_message_round_trip",
                cases(180000),
                || {
                    (
                        prop_oneof![
                            5 => hs().prop_map(|h| (22u8, h.wire(), Some(h))),
                            1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| (21u8, vec![a, b], None)),
                            1 => Just((20u8, vec![1u8], None)),
                            2 => bytes(0..50).prop_map(|b| (23u8, b.0, None)),
                        ]
                        .prop_map(|(t, w, h)| (t, Bytes(w), h)),
                        any::<bool>(),
                    )
                },
                |((typ, w, h), coin): &((u8, Bytes, Option<Hs>), bool), cx| {
                    cx.nontrivial(w.len() > 1);
                    cx.label(format!("content type {typ}"));
                    let tls13 = h.as_ref().map(|h| pick13(h, *coin)).unwrap_or(*coin);
                    let plain = PlainMessage { typ: ContentType::from(*typ), version: vers(tls13), payload: Payload::new(w.0.clone()) };
                    let m = match Message::try_from(plain) {
                        Ok(m) => m,
                        Err(e) => fail!("well-formed message refused: {e:?}"),
                    };
                    check_eq!(m.payload.content_type().get_u8(), *typ, "content type");
                    match &m.payload {
                        MessagePayload::Alert(a) => check_eq!((a.level.get_u8(), a.description.get_u8()), (w[0], w[1])),
                        MessagePayload::Handshake(x) => {
                            check_eq!(Some(Hs::from_lib(x)), h.clone());
                            check!(m.is_handshake_type(x.typ), "is_handshake_type");
                        }
                        MessagePayload::ApplicationData(p) => check_eq!(Bytes(p.0.clone()), *w),
                        MessagePayload::ChangeCipherSpec(_) => {}
                    }
                    let back = PlainMessage::from(m);
                    check_eq!((back.typ.get_u8(), back.version.get_u16()), (*typ, vers(tls13).get_u16()));
                    check_eq!(Bytes(back.payload.0.clone()), *w, "payload changed by a decode and an encode");
                    let rec = back.into_unencrypted_opaque().encode();
                    let mut want = vec![*typ];
                    want.extend(vers(tls13).get_u16().to_be_bytes());
                    want.extend((w.len() as u16).to_be_bytes());
                    want.extend(&w.0);
                    check_eq!(Bytes(rec), Bytes(want), "record encoding");
                    Ok(())
                },
            ),
            law(
                "key_exchange_structs",
                cases(120000),
                || (code16(), bytes(0..=255usize), code16(), bytes(0..300)),
                |(g, k, s, sig): &(u16, Bytes, u16, Bytes), cx| {
                    cx.nontrivial(!k.is_empty());
                    let params = ServerECDHParams::new(NamedGroup::from(*g), k);
                    let mut want = vec![3u8];
                    want.extend(g.to_be_bytes());
                    want.push(k.len() as u8);
                    want.extend(&k.0);
                    check_eq!(Bytes(params.get_encoding()), Bytes(want.clone()), "server ECDH parameters");
                    let dss = DigitallySignedStruct::new(SignatureScheme::from(*s), sig.0.clone());
                    let mut want2 = s.to_be_bytes().to_vec();
                    want2.extend((sig.len() as u16).to_be_bytes());
                    want2.extend(&sig.0);
                    check_eq!(Bytes(dss.get_encoding()), Bytes(want2.clone()), "digitally signed struct");
                    let kx = ECDHEServerKeyExchange { params, dss };
                    want.extend(want2);
                    check_eq!(Bytes(kx.get_encoding()), Bytes(want.clone()), "server key exchange");
                    check_eq!(Bytes(ServerKeyExchangePayload::ECDHE(kx).get_encoding()), Bytes(want.clone()));
                    let unk = ServerKeyExchangePayload::read_bytes(&want).unwrap();
                    let Some(back) = unk.unwrap_given_kxa(&KeyExchangeAlgorithm::ECDHE) else { fail!("well-formed key exchange refused") };
                    check_eq!(back.params.curve_params.named_group.get_u16(), *g);
                    check_eq!(Bytes(back.params.public.0.clone()), *k);
                    check_eq!(back.dss.scheme.get_u16(), *s);
                    check_eq!(Bytes(back.dss.sig.0.clone()), *sig);
                    let mut c = vec![k.len() as u8];
                    c.extend(&k.0);
                    let cp = ClientECDHParams::read_bytes(&c).expect("client params");
                    check_eq!(Bytes(cp.public.0.clone()), *k);
                    check_eq!(Bytes(cp.get_encoding()), Bytes(c));
                    Ok(())
                },
            ),
        ],
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Damaged {
    hs: Hs,
    tls13: bool,
    muts: Vec<Mutation>,
    relen: bool,
}

fn relen(w: &mut [u8]) {
    if w.len() >= 4 {
        let n = (w.len() - 4) as u32;
        w[1..4].copy_from_slice(&n.to_be_bytes()[1..]);
    }
}

/// Reference for the ECDHE server key exchange.
fn ref_kx(b: &[u8]) -> Option<(u16, Vec<u8>, u16, Vec<u8>)> {
    let take = |o: usize, n: usize| b.get(o..o + n);
    if *b.first()? != 3 {
        return None;
    }
    let g = u16::from_be_bytes(take(1, 2)?.try_into().unwrap());
    let kl = *b.get(3)? as usize;
    let k = take(4, kl)?.to_vec();
    let s = u16::from_be_bytes(take(4 + kl, 2)?.try_into().unwrap());
    let sl = u16::from_be_bytes(take(6 + kl, 2)?.try_into().unwrap()) as usize;
    let sig = take(8 + kl, sl)?.to_vec();
    (b.len() == 8 + kl + sl).then_some((g, k, s, sig))
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "A case is a byte string given to a decoder: a well-formed message damaged by 1-3 byte, length or splice mutations (with or without the \
               outer length repaired), one of its proper prefixes, or unstructured bytes behind a message type. Non-trivial: the string differs from a \
               well-formed encoding and is longer than the 4-byte header.",
        assumptions: &["The strict reference parser in the harness defines which encodings are well formed.", "Host names are judged valid by rustls-pki-types."],
        laws: vec![
            law(
                "damaged_messages",
                cases(1200000),
                || (hs(), any::<bool>(), vec(mutation(), 1..4), any::<bool>()).prop_map(|(hs, c, muts, relen)| Damaged { tls13: pick13(&hs, c), hs, muts, relen }),
                |d: &Damaged, cx| {
                    let clean = d.hs.wire();
                    let mut w = clean.clone();
                    for m in &d.muts {
                        m.apply(&mut w);
                    }
                    if d.relen {
                        relen(&mut w);
                    }
                    cx.nontrivial(w != clean && w.len() > 4);
                    let ok = differential(&w, d.tls13)?;
                    cx.label(if ok { "accepted" } else { "refused" });
                    // The other framing of the same bytes.
                    differential(&w, !d.tls13)?;
                    Ok(())
                },
            ),
            law("every_prefix_refused", cases(18000), || (hs(), any::<bool>()), |(h, coin): &(Hs, bool), cx| {
                let tls13 = pick13(h, *coin);
                let w = h.wire();
                cx.nontrivial(w.len() > 4);
                for n in 0..w.len() {
                    check!(lib_parse(&w[..n], tls13).is_none(), "prefix of {n} of {} bytes accepted", w.len());
                    // The same cut with a consistent outer length.
                    if n >= 4 {
                        let mut c = w[..n].to_vec();
                        relen(&mut c);
                        differential(&c, tls13)?;
                    }
                }
                Ok(())
            }),
            law(
                "trailing_bytes_refused",
                cases(240000),
                || (hs(), any::<bool>(), bytes(1..5)),
                |(h, coin, tail): &(Hs, bool, Bytes), cx| {
                    let tls13 = pick13(h, *coin);
                    cx.nontrivial(true);
                    cx.label(h.kind());
                    // Inside the declared length.
                    let mut w = h.wire();
                    w.extend(&tail.0);
                    relen(&mut w);
                    differential(&w, tls13)?;
                    // Beyond the declared length, within a record.
                    let mut w = h.wire();
                    w.extend(&tail.0);
                    let plain = PlainMessage { typ: ContentType::Handshake, version: vers(tls13), payload: Payload::new(w) };
                    check!(Message::try_from(plain).is_err(), "bytes after a handshake message accepted");
                    Ok(())
                },
            ),
            law(
                "unstructured_bytes",
                cases(1200000),
                || (prop_oneof![3 => proptest::sample::select(vec![0u8,1,2,4,5,6,8,11,12,13,14,15,16,20,22,24,0xfe]), 1 => any::<u8>()], spiky_bytes(0..120), any::<bool>()),
                |(t, body, tls13): &(u8, Bytes, bool), cx| {
                    let mut w = vec![*t, 0, 0, 0];
                    w.extend(&body.0);
                    relen(&mut w);
                    cx.nontrivial(!body.is_empty());
                    let ok = differential(&w, *tls13)?;
                    cx.label(if ok { "accepted" } else { "refused" });
                    Ok(())
                },
            ),
            law(
                "small_records",
                cases(360000),
                || (prop_oneof![4 => 20u8..24, 1 => any::<u8>()], spiky_bytes(0..8), code16()),
                |(t, body, v): &(u8, Bytes, u16), cx| {
                    cx.nontrivial(true);
                    let plain = PlainMessage { typ: ContentType::from(*t), version: ProtocolVersion::from(*v), payload: Payload::new(body.0.clone()) };
                    let got = Message::try_from(plain).is_ok();
                    let want = match t {
                        20 => body.0 == [1],
                        21 => body.len() == 2,
                        22 => Hs::parse(body, *v == 0x0304).is_some_and(|(_, n)| n == body.len()),
                        23 => true,
                        _ => false,
                    };
                    cx.label(format!("type {} accepted={got}", if (20..24).contains(t) { *t } else { 0 }));
                    check_eq!(got, want, "acceptance of a record body of type {t}: {body:?}");
                    // The two tiny codecs on their own.
                    let a = AlertMessagePayload::read_bytes(body);
                    check_eq!(a.map(|a| (a.level.get_u8(), a.description.get_u8())), (body.len() >= 2).then(|| (body[0], body[1])));
                    check_eq!(ChangeCipherSpecPayload::read_bytes(body).is_some(), body.0 == [1]);
                    Ok(())
                },
            ),
            law(
                "key_exchange_strict",
                cases(720000),
                || {
                    (code16(), bytes(0..40), code16(), bytes(0..40), vec(mutation(), 0..3)).prop_map(|(g, k, s, sig, m)| {
                        let mut w = vec![3u8];
                        w.extend(g.to_be_bytes());
                        w.push(k.len() as u8);
                        w.extend(&k.0);
                        w.extend(s.to_be_bytes());
                        w.extend((sig.len() as u16).to_be_bytes());
                        w.extend(&sig.0);
                        for m in m {
                            m.apply(&mut w);
                        }
                        Bytes(w)
                    })
                },
                |w: &Bytes, cx| {
                    cx.nontrivial(w.len() > 8);
                    let p = ServerKeyExchangePayload::read_bytes(w).expect("opaque");
                    let got = p
                        .unwrap_given_kxa(&KeyExchangeAlgorithm::ECDHE)
                        .map(|k| (k.params.curve_params.named_group.get_u16(), k.params.public.0.clone(), k.dss.scheme.get_u16(), k.dss.sig.0.clone()));
                    cx.label(if got.is_some() { "accepted" } else { "refused" });
                    check_eq!(got, ref_kx(w), "ECDHE key exchange of {w:?}");
                    for other in [KeyExchangeAlgorithm::RSA, KeyExchangeAlgorithm::DHE, KeyExchangeAlgorithm::BulkOnly, KeyExchangeAlgorithm::ECDH, KeyExchangeAlgorithm::DH] {
                        check!(p.unwrap_given_kxa(&other).is_none(), "key exchange decoded for an unsupported algorithm");
                    }
                    Ok(())
                },
            ),
            law(
                "declared_lengths",
                cases(240000),
                || (any::<u8>(), prop_oneof![0u32..64, (0u32..1 << 24)], bytes(0..80), any::<bool>()),
                |(t, len, body, tls13): &(u8, u32, Bytes, bool), cx| {
                    // A header that promises more than there is must be refused,
                    // whatever the type, without reading past the end.
                    let mut w = vec![*t];
                    w.extend(&len.to_be_bytes()[1..]);
                    w.extend(&body.0);
                    let short = (*len as usize) > body.len();
                    cx.nontrivial(short);
                    differential(&w, *tls13)?;
                    if short {
                        check!(lib_parse(&w, *tls13).is_none(), "message longer than the input accepted");
                    }
                    Ok(())
                },
            ),
            exhaustive(
                "all_two_byte_bodies_per_type",
                || (0u16..=255).collect::<Vec<u16>>(),
                |t: &u16, cx| {
                    cx.nontrivial(true);
                    for n in 0..3usize {
                        for x in 0..(1u32 << (8 * n)) {
                            if n == 2 && x % 7 != 0 {
                                continue;
                            }
                            let mut w = vec![*t as u8, 0, 0, n as u8];
                            w.extend(&x.to_be_bytes()[4 - n..]);
                            differential(&w, false)?;
                            if n < 2 {
                                differential(&w, true)?;
                            }
                        }
                    }
                    Ok(())
                },
            ),
        ],
    }
}
