//! C13: the answers read out of decoded hello and certificate messages.

use proptest::{
    collection::vec,
    prelude::*,
    sample::select,
};
use serde::{Deserialize, Serialize};
use tls_core::{
    key,
    msgs::{base::PayloadU16, codec::{Codec, Reader}, enums::*, handshake::*},
};
use vpt::{
    cases, check, check_eq, fail,
    gen::{bytes, many, Bytes},
    law, CaseResult, Check, Cx, Failure,
};

use crate::hs_spec::*;

fn decode(h: &Hs) -> Result<HandshakePayload, Failure> {
    let w = h.wire();
    let v = if h.is13() { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };
    let mut r = Reader::init(&w);
    match HandshakeMessagePayload::read_version(&mut r, v) {
        Some(m) if !r.any_left() => Ok(m.payload),
        _ => Err("well-formed message refused".into()),
    }
}

fn repeats<T: PartialEq>(v: &[T]) -> bool {
    v.iter().enumerate().any(|(i, x)| v[..i].contains(x))
}

fn codes16(v: &[u16]) -> Vec<u16> {
    v.to_vec()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ChCase {
    hello: Hs,
    /// Extensions duplicated or moved: (from, to).
    moves: Vec<(u8, u8, bool)>,
    binder: Bytes,
    mode: u8,
    probe: u16,
}

fn rearranged<T: Clone>(mut v: Vec<T>, moves: &[(u8, u8, bool)]) -> Vec<T> {
    for (f, t, copy) in moves {
        if v.is_empty() {
            break;
        }
        let x = v[*f as usize % v.len()].clone();
        if !*copy {
            let i = *f as usize % v.len();
            v.remove(i);
        }
        let i = *t as usize % (v.len() + 1);
        v.insert(i, x);
    }
    v
}

fn moves() -> impl Strategy<Value = Vec<(u8, u8, bool)>> + Clone {
    prop_oneof![2 => Just(vec![]), 3 => many((any::<u8>(), any::<u8>(), any::<bool>()), 1..4, 12)]
}

/// Few distinct small values, so that repetitions happen.
fn share_lists() -> impl Strategy<Value = Vec<(u16, Bytes)>> + Clone {
    many((select(vec![0x17u16, 0x18, 0x1d, 0x1d1d]), bytes(0..6)), 0..5, 12)
}

fn ch_case() -> impl Strategy<Value = ChCase> {
    (
        client_hello(),
        proptest::option::weighted(0.3, share_lists()),
        proptest::option::weighted(0.4, (vec((bytes(0..10), any::<u32>()), 1..3), vec(bytes(0..34), 1..3), any::<bool>())),
        moves(),
        bytes(0..40),
        prop_oneof![0u8..3, any::<u8>()],
        prop_oneof![select(vec![0u16, 5, 10, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 45, 51, 57]), any::<u16>()],
    )
        .prop_map(|(mut hello, shares, psk, moves, binder, mode, probe)| {
            if let Hs::ClientHello { exts, .. } = &mut hello {
                if let Some(s) = shares {
                    exts.push(CExt::KeyShare(s));
                }
                *exts = rearranged(std::mem::take(exts), &moves);
                if let Some((ids, binders, last)) = psk {
                    let p = CExt::Psk(ids, binders);
                    if last { exts.push(p) } else { exts.insert(0, p) }
                }
            }
            ChCase { hello, moves: vec![], binder, mode, probe }
        })
}

macro_rules! first {
    ($exts:expr, $pat:pat => $e:expr, $t:expr) => {
        // The first extension of the type decides.
        $exts.iter().find(|e| e.typ() == $t).and_then(|e| match e {
            $pat => Some($e),
            #[allow(unreachable_patterns)]
            _ => None,
        })
    };
}

fn check_ch(c: &ChCase, cx: &mut Cx) -> CaseResult {
    let Hs::ClientHello { exts, .. } = &c.hello else { fail!("not a ClientHello") };
    let types: Vec<u16> = exts.iter().map(|e| e.typ()).collect();
    cx.nontrivial(exts.len() > 1);
    cx.label(if repeats(&types) { "repeated extension" } else { "no repetition" });
    for direct in [false, true] {
        let mut h = match if direct { c.hello.to_lib().payload } else { decode(&c.hello)? } {
            HandshakePayload::ClientHello(h) => h,
            _ => fail!("not a ClientHello"),
        };
        check_eq!(h.has_duplicate_extension(), repeats(&types), "repetition among {types:?}");
        let at = types.iter().position(|t| *t == c.probe);
        check_eq!(h.find_extension(ExtensionType::from(c.probe)).map(|e| CExt::from_lib(e)), at.map(|i| exts[i].clone()), "first extension of type {}", c.probe);
        let sni = first!(exts, CExt::Sni(v) => v.clone(), 0);
        check_eq!(
            h.get_sni_extension().map(|v| v.iter().map(|n| (n.typ.get_u8(), match &n.payload { ServerNamePayload::HostName((r, _)) => r.0.clone(), ServerNamePayload::Unknown(p) => p.0.clone() })).collect::<Vec<_>>()),
            sni.as_ref().map(|v| v.iter().map(|n| match n { Name::Host(h) => (0, h.as_bytes().to_vec()), Name::Other(t, b) => (*t, b.0.clone()) }).collect::<Vec<_>>()),
            "server names"
        );
        if let (Some(l), Some(m)) = (h.get_sni_extension(), &sni) {
            let kinds: Vec<u8> = m.iter().map(|n| match n { Name::Host(_) => 0, Name::Other(t, _) => *t }).collect();
            check_eq!(l.has_duplicate_names_for_type(), repeats(&kinds), "repeated name types among {kinds:?}");
            let host = m.iter().find_map(|n| match n { Name::Host(h) => Some(h.clone()), _ => None });
            check_eq!(l.get_single_hostname().map(|d| { let s: &str = d.as_ref(); s.to_string() }), host, "host name asked for");
        }
        check_eq!(h.get_sigalgs_extension().map(|v| v.iter().map(|x| x.get_u16()).collect::<Vec<_>>()), first!(exts, CExt::SigAlgs(v) => codes16(v), 13), "signature schemes");
        check_eq!(h.get_namedgroups_extension().map(|v| v.iter().map(|x| x.get_u16()).collect::<Vec<_>>()), first!(exts, CExt::Groups(v) => codes16(v), 10), "groups");
        check_eq!(h.get_ecpoints_extension().map(|v| v.iter().map(|x| x.get_u8()).collect::<Vec<_>>()), first!(exts, CExt::EcPf(v) => v.0.clone(), 11), "point formats");
        let alpn = first!(exts, CExt::Alpn(v) => v.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), 16);
        check_eq!(h.get_alpn_extension().map(|v| v.to_slices().iter().map(|s| s.to_vec()).collect::<Vec<_>>()), alpn, "application protocols");
        if let (Some(l), Some(m)) = (h.get_alpn_extension(), &alpn) {
            check_eq!(l.as_single_slice().map(|s| s.to_vec()), (m.len() == 1).then(|| m[0].clone()), "single protocol");
            let s: Vec<&[u8]> = m.iter().map(|b| &b[..]).collect();
            check_eq!(&ProtocolNameList::from_slices(&s), l, "list made of slices");
        }
        check_eq!(h.get_ticket_extension().map(CExt::from_lib), exts.iter().find(|e| e.typ() == 35).cloned(), "ticket");
        check_eq!(h.get_versions_extension().map(|v| v.iter().map(|x| x.get_u16()).collect::<Vec<_>>()), first!(exts, CExt::Versions(v) => codes16(v), 43), "versions");
        let ks = first!(exts, CExt::KeyShare(v) => v.clone(), 51);
        check_eq!(
            h.get_keyshare_extension().map(|v| v.iter().map(|k| (k.group.get_u16(), Bytes(k.payload.0.clone()))).collect::<Vec<_>>()),
            ks,
            "key shares"
        );
        let groups: Vec<u16> = ks.iter().flatten().map(|(g, _)| *g).collect();
        check_eq!(h.has_keyshare_extension_with_duplicates(), repeats(&groups), "repeated key share among {groups:?}");
        let psk = first!(exts, CExt::Psk(i, b) => (i.clone(), b.clone()), 41);
        check_eq!(
            h.get_psk().map(|o| (
                o.identities.iter().map(|i| (Bytes(i.identity.0.clone()), i.obfuscated_ticket_age)).collect::<Vec<_>>(),
                o.binders.iter().map(|b| Bytes(b.0.clone())).collect::<Vec<_>>()
            )),
            psk,
            "pre-shared keys"
        );
        let last = types.last() == Some(&41);
        check_eq!(h.check_psk_ext_is_last(), last, "pre-shared keys last");
        cx.label_if(last, "pre-shared keys last");
        let modes = first!(exts, CExt::PskModes(v) => v.0.clone(), 45);
        check_eq!(h.get_psk_modes().map(|v| v.iter().map(|m| m.get_u8()).collect::<Vec<_>>()), modes, "pre-shared key modes");
        check_eq!(h.psk_mode_offered(PSKKeyExchangeMode::from(c.mode)), modes.as_ref().is_some_and(|m| m.contains(&c.mode)), "mode {} offered", c.mode);
        check_eq!(h.ems_support_offered(), types.contains(&23), "extended master secret");
        check_eq!(h.early_data_extension_offered(), types.contains(&42), "early data");

        // Binders: what is signed is the hello up to the list of binders, and
        // setting the first binder changes only that binder.
        let binders = match exts.last() {
            Some(CExt::Psk(_, b)) if !b.is_empty() => Some(b.clone()),
            _ => None,
        };
        let w = c.hello.wire();
        let m = HandshakeMessagePayload { typ: HandshakeType::ClientHello, payload: HandshakePayload::ClientHello(c_clone(&c.hello)?) };
        let cut = match exts.last() {
            Some(CExt::Psk(_, b)) => 2 + b.iter().map(|x| 1 + x.len()).sum::<usize>(),
            _ => 0,
        };
        check_eq!(m.get_encoding_for_binder_signing(), w[..w.len() - cut].to_vec(), "part of the hello that binders cover");
        let mut want = c.hello.clone();
        if let (Some(_), Hs::ClientHello { exts, .. }) = (&binders, &mut want) {
            if let Some(CExt::Psk(_, b)) = exts.last_mut() {
                b[0] = c.binder.clone();
            }
        }
        if binders.is_some() || !last {
            h.set_psk_binder(c.binder.0.clone());
            let m = HandshakeMessagePayload { typ: HandshakeType::ClientHello, payload: HandshakePayload::ClientHello(h) };
            check_eq!(m.get_encoding(), want.wire(), "hello with its binder set");
            if binders.is_some() {
                // The signed part does not depend on the binder's content.
                if c.binder.len() == binders.as_ref().unwrap()[0].len() {
                    check_eq!(m.get_encoding_for_binder_signing(), w[..w.len() - cut].to_vec());
                }
            }
        }
    }
    Ok(())
}

fn c_clone(h: &Hs) -> Result<ClientHelloPayload, Failure> {
    match h.to_lib().payload {
        HandshakePayload::ClientHello(h) => Ok(h),
        _ => Err("not a ClientHello".into()),
    }
}

fn with_moves(s: BoxedStrategy<Hs>) -> BoxedStrategy<(Hs, u16)> {
    (s, moves(), prop_oneof![select(vec![0u16, 5, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 47, 51]), any::<u16>()])
        .prop_map(|(mut h, m, p)| {
            match &mut h {
                Hs::ServerHello { exts, .. } => *exts = rearranged(std::mem::take(exts), &m),
                Hs::EncryptedExtensions(exts) => *exts = rearranged(std::mem::take(exts), &m),
                Hs::HelloRetryRequest { exts, .. } => *exts = rearranged(std::mem::take(exts), &m),
                Hs::Certificate13 { entries, .. } => {
                    if let Some((i, _, _)) = m.first() {
                        if !entries.is_empty() {
                            let k = *i as usize % entries.len();
                            let e = &mut entries[k].1;
                            *e = rearranged(std::mem::take(e), &m);
                        }
                    }
                }
                Hs::CertificateRequest13 { exts, .. } => *exts = rearranged(std::mem::take(exts), &m),
                Hs::NewSessionTicket13 { exts, .. } => *exts = rearranged(std::mem::take(exts), &m),
                _ => {}
            }
            (h, p)
        })
        .boxed()
}

fn server_exts(x: &dyn Query, exts: &[SExt], probe: u16) -> CaseResult {
    let types: Vec<u16> = exts.iter().map(|e| e.typ()).collect();
    check_eq!(x.dup(), repeats(&types), "repetition among {types:?}");
    check_eq!(x.find(probe), exts.iter().find(|e| e.typ() == probe).cloned(), "first extension of type {probe}");
    let alpn = first!(exts, SExt::Alpn(v) => v.clone(), 16);
    check_eq!(x.alpn(), alpn.filter(|v| v.len() == 1).map(|v| v[0].0.clone()), "protocol selected");
    check_eq!(x.early(), types.contains(&42), "early data");
    Ok(())
}

trait Query {
    fn dup(&self) -> bool;
    fn find(&self, t: u16) -> Option<SExt>;
    fn alpn(&self) -> Option<Vec<u8>>;
    fn early(&self) -> bool;
}
impl<T: HasServerExtensions> Query for T {
    fn dup(&self) -> bool {
        self.has_duplicate_extension()
    }
    fn find(&self, t: u16) -> Option<SExt> {
        self.find_extension(ExtensionType::from(t)).map(SExt::from_lib)
    }
    fn alpn(&self) -> Option<Vec<u8>> {
        self.get_alpn_protocol().map(|s| s.to_vec())
    }
    fn early(&self) -> bool {
        self.early_data_extension_offered()
    }
}

fn b16s(v: Option<&Vec<PayloadU16>>) -> Option<Vec<Bytes>> {
    v.map(|v| v.iter().map(|x| Bytes(x.0.clone())).collect())
}

fn check_server((h, probe): &(Hs, u16), cx: &mut Cx) -> CaseResult {
    for direct in [false, true] {
        let p = if direct { h.to_lib().payload } else { decode(h)? };
        match (h, p) {
            (Hs::ServerHello { exts, .. }, HandshakePayload::ServerHello(x)) => {
                cx.nontrivial(exts.len() > 1);
                server_exts(&x, exts, *probe)?;
                check_eq!(x.get_key_share().map(|k| (k.group.get_u16(), Bytes(k.payload.0.clone()))), first!(exts, SExt::KeyShare(g, k) => (*g, k.clone()), 51), "key share");
                check_eq!(x.get_psk_index(), first!(exts, SExt::Psk(i) => *i, 41), "pre-shared key chosen");
                check_eq!(x.get_ecpoints_extension().map(|v| v.iter().map(|x| x.get_u8()).collect::<Vec<_>>()), first!(exts, SExt::EcPf(v) => v.0.clone(), 11), "point formats");
                check_eq!(x.ems_support_acked(), exts.iter().any(|e| e.typ() == 23), "extended master secret");
                check_eq!(b16s(x.get_sct_list()), first!(exts, SExt::Scts(v) => v.clone(), 18), "timestamps");
                check_eq!(x.get_supported_versions().map(|v| v.get_u16()), first!(exts, SExt::Version(v) => *v, 43), "version chosen");
            }
            (Hs::EncryptedExtensions(exts), HandshakePayload::EncryptedExtensions(x)) => {
                cx.nontrivial(exts.len() > 1);
                server_exts(&x, exts, *probe)?;
            }
            (Hs::HelloRetryRequest { exts, .. }, HandshakePayload::HelloRetryRequest(x)) => {
                cx.nontrivial(exts.len() > 1);
                let types: Vec<u16> = exts.iter().map(|e| e.typ()).collect();
                check_eq!(x.has_duplicate_extension(), repeats(&types), "repetition among {types:?}");
                check_eq!(x.has_unknown_extension(), types.iter().any(|t| ![51, 44, 43].contains(t)), "extension not allowed here among {types:?}");
                check_eq!(x.get_requested_key_share_group().map(|g| g.get_u16()), first!(exts, HExt::KeyShare(g) => *g, 51), "group asked for");
                check_eq!(x.get_cookie().map(|c| c.0.clone()), first!(exts, HExt::Cookie(c) => c.0.clone(), 44), "cookie");
                check_eq!(x.get_supported_versions().map(|v| v.get_u16()), first!(exts, HExt::Version(v) => *v, 43), "version");
            }
            (Hs::Certificate13 { entries, .. }, HandshakePayload::CertificateTLS13(x)) => {
                cx.nontrivial(entries.iter().any(|e| !e.1.is_empty()));
                let types: Vec<Vec<u16>> = entries.iter().map(|e| e.1.iter().map(|e| e.typ()).collect()).collect();
                check_eq!(x.any_entry_has_duplicate_extension(), types.iter().any(|t| repeats(t)), "repetition in {types:?}");
                let odd = |t: &Vec<u16>| t.iter().any(|t| ![5, 18].contains(t));
                check_eq!(x.any_entry_has_unknown_extension(), types.iter().any(odd), "extension not allowed in {types:?}");
                check_eq!(x.any_entry_has_extension(), types.iter().any(|t| !t.is_empty()), "any extension in {types:?}");
                let empty = vec![];
                let first_exts = entries.first().map(|e| &e.1).unwrap_or(&empty);
                check_eq!(Bytes(x.get_end_entity_ocsp()), first!(first_exts, CertExt::Ocsp(b) => b.clone(), 5).unwrap_or(Bytes(vec![])), "OCSP response of the leaf");
                check_eq!(b16s(x.get_end_entity_scts().as_ref()), first!(first_exts, CertExt::Scts(v) => v.clone(), 18), "timestamps of the leaf");
                check_eq!(x.convert().iter().map(|c| Bytes(c.0.clone())).collect::<Vec<_>>(), entries.iter().map(|e| e.0.clone()).collect::<Vec<_>>(), "chain");
                check_eq!(x.entries.len(), entries.len());
                for (l, (t, m)) in x.entries.iter().zip(types.iter().zip(entries)) {
                    check_eq!(l.has_duplicate_extension(), repeats(t));
                    check_eq!(l.has_unknown_extension(), odd(t));
                    check_eq!(l.get_ocsp_response().cloned(), first!(m.1, CertExt::Ocsp(b) => b.0.clone(), 5));
                    check_eq!(b16s(l.get_scts()), first!(m.1, CertExt::Scts(v) => v.clone(), 18));
                    for (le, me) in l.exts.iter().zip(&m.1) {
                        check_eq!(le.get_cert_status().cloned(), if let CertExt::Ocsp(b) = me { Some(b.0.clone()) } else { None });
                        check_eq!(b16s(le.get_sct_list()), if let CertExt::Scts(b) = me { Some(b.clone()) } else { None });
                    }
                }
                let fresh = CertificatePayloadTLS13::new(entries.iter().map(|e| CertificateEntry::new(key::Certificate(e.0 .0.clone()))).collect());
                check!(!fresh.any_entry_has_extension(), "a new entry has extensions");
                check_eq!(fresh.convert(), x.convert());
            }
            (Hs::CertificateRequest13 { exts, .. }, HandshakePayload::CertificateRequestTLS13(x)) => {
                cx.nontrivial(exts.len() > 1);
                check_eq!(x.find_extension(ExtensionType::from(*probe)).map(|e| e.get_type().get_u16()), exts.iter().map(|e| e.typ()).find(|t| t == probe));
                check_eq!(x.get_sigalgs_extension().map(|v| v.iter().map(|x| x.get_u16()).collect::<Vec<_>>()), first!(exts, ReqExt::SigAlgs(v) => codes16(v), 13), "schemes");
                check_eq!(b16s(x.get_authorities_extension()), first!(exts, ReqExt::Authorities(v) => v.clone(), 47), "authorities");
            }
            (Hs::NewSessionTicket13 { exts, .. }, HandshakePayload::NewSessionTicketTLS13(x)) => {
                cx.nontrivial(exts.len() > 1);
                let types: Vec<u16> = exts.iter().map(|e| e.typ()).collect();
                check_eq!(x.has_duplicate_extension(), repeats(&types), "repetition among {types:?}");
                check_eq!(x.find_extension(ExtensionType::from(*probe)).map(|e| e.get_type().get_u16()), types.iter().copied().find(|t| t == probe));
                check_eq!(x.get_max_early_data_size(), first!(exts, TicketExt::EarlyData(n) => *n, 42), "early data limit");
            }
            _ => fail!("decoded to another kind of message"),
        }
    }
    cx.label(h.kind());
    Ok(())
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "A case is a generated hello, retry request, encrypted extensions, TLS 1.3 certificate, certificate request or ticket message, with extensions \
               repeated and moved, decoded from the wire and also built directly. Non-trivial: more than one extension (a certificate entry with one).",
        assumptions: &["Messages come from the model of C01.", "When an extension is repeated the first one counts."],
        laws: vec![
            law("client_hello_answers", cases(400_000), ch_case, check_ch),
            law(
                "server_message_answers",
                cases(900_000),
                || {
                    prop_oneof![
                        3 => with_moves(server_hello()),
                        1 => with_moves(many(sext(), 0..6, 20).prop_map(Hs::EncryptedExtensions).boxed()),
                        2 => with_moves(hrr()),
                        2 => with_moves(cert13()),
                        2 => with_moves(certreq13()),
                        2 => with_moves(ticket13()),
                    ]
                },
                check_server,
            ),
        ],
    }
}
