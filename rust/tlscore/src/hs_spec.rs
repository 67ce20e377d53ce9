//! Independent model of TLS handshake messages: a plain-data description, an
//! encoder and a strict parser written from RFC 5246, 8446, 6066, 7301, 8422,
//! and conversions to and from the types of the code under test.

use proptest::{collection::vec, option, prelude::*};
use serde::{Deserialize, Serialize};
use tls_core::{
    key,
    msgs::{
        base::{Payload, PayloadU16, PayloadU24, PayloadU8},
        codec::Codec,
        enums::*,
        handshake::*,
    },
};
use vpt::gen::{bytes, many, Bytes};

pub const HRR_RANDOM: [u8; 32] = [
    0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91, 0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB,
    0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
];

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Name {
    Host(String),
    /// Consumes the rest of the list.
    Other(u8, Bytes),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum CExt {
    EcPf(Bytes),
    Groups(Vec<u16>),
    SigAlgs(Vec<u16>),
    Sni(Vec<Name>),
    Ticket(Bytes),
    Alpn(Vec<Bytes>),
    Versions(Vec<u16>),
    KeyShare(Vec<(u16, Bytes)>),
    PskModes(Bytes),
    Psk(Vec<(Bytes, u32)>, Vec<Bytes>),
    Cookie(Bytes),
    Ems,
    Ocsp(Vec<Bytes>, Bytes),
    StatusOther(u8, Bytes),
    Sct,
    Tp(Bytes),
    TpDraft(Bytes),
    EarlyData,
    Unknown(u16, Bytes),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum SExt {
    EcPf(Bytes),
    NameAck,
    TicketAck,
    Reneg(Bytes),
    Alpn(Vec<Bytes>),
    KeyShare(u16, Bytes),
    Psk(u16),
    EmsAck,
    StatusAck,
    Scts(Vec<Bytes>),
    Version(u16),
    Tp(Bytes),
    TpDraft(Bytes),
    EarlyData,
    Unknown(u16, Bytes),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum HExt {
    KeyShare(u16),
    Cookie(Bytes),
    Version(u16),
    Unknown(u16, Bytes),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum CertExt {
    Ocsp(Bytes),
    Scts(Vec<Bytes>),
    Unknown(u16, Bytes),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum ReqExt {
    SigAlgs(Vec<u16>),
    Authorities(Vec<Bytes>),
    Unknown(u16, Bytes),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TicketExt {
    EarlyData(u32),
    Unknown(u16, Bytes),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Hs {
    HelloRequest,
    ClientHello { version: u16, random: Bytes, session: Bytes, suites: Vec<u16>, compression: Bytes, exts: Vec<CExt> },
    ServerHello { version: u16, random: Bytes, session: Bytes, suite: u16, compression: u8, exts: Vec<SExt> },
    HelloRetryRequest { version: u16, session: Bytes, suite: u16, exts: Vec<HExt> },
    Certificate(Vec<Bytes>),
    Certificate13 { context: Bytes, entries: Vec<(Bytes, Vec<CertExt>)> },
    ServerKeyExchange(Bytes),
    CertificateRequest { types: Bytes, schemes: Vec<u16>, names: Vec<Bytes> },
    CertificateRequest13 { context: Bytes, exts: Vec<ReqExt> },
    CertificateVerify { scheme: u16, sig: Bytes },
    ServerHelloDone,
    EndOfEarlyData,
    ClientKeyExchange(Bytes),
    NewSessionTicket { hint: u32, ticket: Bytes },
    NewSessionTicket13 { lifetime: u32, age_add: u32, nonce: Bytes, ticket: Bytes, exts: Vec<TicketExt> },
    EncryptedExtensions(Vec<SExt>),
    KeyUpdate(u8),
    Finished(Bytes),
    CertificateStatus(Bytes),
    Unknown(u8, Bytes),
}

// ---------------------------------------------------------------- encoder

type W = Vec<u8>;

fn p8(w: &mut W, f: impl FnOnce(&mut W)) {
    let mut s = vec![];
    f(&mut s);
    assert!(s.len() < 1 << 8);
    w.push(s.len() as u8);
    w.extend(s);
}
fn p16(w: &mut W, f: impl FnOnce(&mut W)) {
    let mut s = vec![];
    f(&mut s);
    assert!(s.len() < 1 << 16);
    w.extend((s.len() as u16).to_be_bytes());
    w.extend(s);
}
fn p24(w: &mut W, f: impl FnOnce(&mut W)) {
    let mut s = vec![];
    f(&mut s);
    assert!(s.len() < 1 << 24);
    w.extend(&(s.len() as u32).to_be_bytes()[1..]);
    w.extend(s);
}
fn u16s(w: &mut W, v: &[u16]) {
    for x in v {
        w.extend(x.to_be_bytes());
    }
}
fn list16(w: &mut W, v: &[Bytes]) {
    p16(w, |w| {
        for x in v {
            p16(w, |w| w.extend(&x.0));
        }
    });
}
fn list8(w: &mut W, v: &[Bytes]) {
    p16(w, |w| {
        for x in v {
            p8(w, |w| w.extend(&x.0));
        }
    });
}
fn ext(w: &mut W, typ: u16, f: impl FnOnce(&mut W)) {
    w.extend(typ.to_be_bytes());
    p16(w, f);
}

impl CExt {
    pub fn typ(&self) -> u16 {
        match self {
            CExt::EcPf(_) => 11,
            CExt::Groups(_) => 10,
            CExt::SigAlgs(_) => 13,
            CExt::Sni(_) => 0,
            CExt::Ticket(_) => 35,
            CExt::Alpn(_) => 16,
            CExt::Versions(_) => 43,
            CExt::KeyShare(_) => 51,
            CExt::PskModes(_) => 45,
            CExt::Psk(..) => 41,
            CExt::Cookie(_) => 44,
            CExt::Ems => 23,
            CExt::Ocsp(..) | CExt::StatusOther(..) => 5,
            CExt::Sct => 18,
            CExt::Tp(_) => 57,
            CExt::TpDraft(_) => 0xffa5,
            CExt::EarlyData => 42,
            CExt::Unknown(t, _) => *t,
        }
    }
    pub fn write(&self, w: &mut W) {
        ext(w, self.typ(), |w| match self {
            CExt::EcPf(b) | CExt::PskModes(b) => p8(w, |w| w.extend(&b.0)),
            CExt::Groups(v) | CExt::SigAlgs(v) => p16(w, |w| u16s(w, v)),
            CExt::Sni(names) => p16(w, |w| {
                for n in names {
                    match n {
                        Name::Host(h) => {
                            w.push(0);
                            p16(w, |w| w.extend(h.as_bytes()));
                        }
                        Name::Other(t, b) => {
                            w.push(*t);
                            w.extend(&b.0);
                        }
                    }
                }
            }),
            CExt::Ticket(b) | CExt::Tp(b) | CExt::TpDraft(b) | CExt::Unknown(_, b) => w.extend(&b.0),
            CExt::Alpn(v) => list8(w, v),
            CExt::Versions(v) => p8(w, |w| u16s(w, v)),
            CExt::KeyShare(v) => p16(w, |w| {
                for (g, k) in v {
                    w.extend(g.to_be_bytes());
                    p16(w, |w| w.extend(&k.0));
                }
            }),
            CExt::Psk(ids, binders) => {
                p16(w, |w| {
                    for (id, age) in ids {
                        p16(w, |w| w.extend(&id.0));
                        w.extend(age.to_be_bytes());
                    }
                });
                list8(w, binders);
            }
            CExt::Cookie(b) => p16(w, |w| w.extend(&b.0)),
            CExt::Ems | CExt::Sct | CExt::EarlyData => {}
            CExt::Ocsp(ids, e) => {
                w.push(1);
                list16(w, ids);
                p16(w, |w| w.extend(&e.0));
            }
            CExt::StatusOther(t, b) => {
                w.push(*t);
                w.extend(&b.0);
            }
        });
    }
}

impl SExt {
    pub fn typ(&self) -> u16 {
        match self {
            SExt::EcPf(_) => 11,
            SExt::NameAck => 0,
            SExt::TicketAck => 35,
            SExt::Reneg(_) => 0xff01,
            SExt::Alpn(_) => 16,
            SExt::KeyShare(..) => 51,
            SExt::Psk(_) => 41,
            SExt::EmsAck => 23,
            SExt::StatusAck => 5,
            SExt::Scts(_) => 18,
            SExt::Version(_) => 43,
            SExt::Tp(_) => 57,
            SExt::TpDraft(_) => 0xffa5,
            SExt::EarlyData => 42,
            SExt::Unknown(t, _) => *t,
        }
    }
    pub fn write(&self, w: &mut W) {
        ext(w, self.typ(), |w| match self {
            SExt::EcPf(b) | SExt::Reneg(b) => p8(w, |w| w.extend(&b.0)),
            SExt::NameAck | SExt::TicketAck | SExt::EmsAck | SExt::StatusAck | SExt::EarlyData => {}
            SExt::Alpn(v) => list8(w, v),
            SExt::KeyShare(g, k) => {
                w.extend(g.to_be_bytes());
                p16(w, |w| w.extend(&k.0));
            }
            SExt::Psk(x) | SExt::Version(x) => w.extend(x.to_be_bytes()),
            SExt::Scts(v) => list16(w, v),
            SExt::Tp(b) | SExt::TpDraft(b) | SExt::Unknown(_, b) => w.extend(&b.0),
        });
    }
}

impl HExt {
    pub fn typ(&self) -> u16 {
        match self {
            HExt::KeyShare(_) => 51,
            HExt::Cookie(_) => 44,
            HExt::Version(_) => 43,
            HExt::Unknown(t, _) => *t,
        }
    }
    fn write(&self, w: &mut W) {
        ext(w, self.typ(), |w| match self {
            HExt::KeyShare(x) | HExt::Version(x) => w.extend(x.to_be_bytes()),
            HExt::Cookie(b) => p16(w, |w| w.extend(&b.0)),
            HExt::Unknown(_, b) => w.extend(&b.0),
        });
    }
}

impl CertExt {
    pub fn typ(&self) -> u16 {
        match self {
            CertExt::Ocsp(_) => 5,
            CertExt::Scts(_) => 18,
            CertExt::Unknown(t, _) => *t,
        }
    }
    fn write(&self, w: &mut W) {
        ext(w, self.typ(), |w| match self {
            CertExt::Ocsp(b) => {
                w.push(1);
                p24(w, |w| w.extend(&b.0));
            }
            CertExt::Scts(v) => list16(w, v),
            CertExt::Unknown(_, b) => w.extend(&b.0),
        });
    }
}

impl ReqExt {
    pub fn typ(&self) -> u16 {
        match self {
            ReqExt::SigAlgs(_) => 13,
            ReqExt::Authorities(_) => 47,
            ReqExt::Unknown(t, _) => *t,
        }
    }
    fn write(&self, w: &mut W) {
        ext(w, self.typ(), |w| match self {
            ReqExt::SigAlgs(v) => p16(w, |w| u16s(w, v)),
            ReqExt::Authorities(v) => list16(w, v),
            ReqExt::Unknown(_, b) => w.extend(&b.0),
        });
    }
}

impl TicketExt {
    pub fn typ(&self) -> u16 {
        match self {
            TicketExt::EarlyData(_) => 42,
            TicketExt::Unknown(t, _) => *t,
        }
    }
    fn write(&self, w: &mut W) {
        ext(w, self.typ(), |w| match self {
            TicketExt::EarlyData(x) => w.extend(x.to_be_bytes()),
            TicketExt::Unknown(_, b) => w.extend(&b.0),
        });
    }
}

impl Hs {
    /// Type byte on the wire.
    pub fn wire_type(&self) -> u8 {
        match self {
            Hs::HelloRequest => 0,
            Hs::ClientHello { .. } => 1,
            Hs::ServerHello { .. } | Hs::HelloRetryRequest { .. } => 2,
            Hs::NewSessionTicket { .. } | Hs::NewSessionTicket13 { .. } => 4,
            Hs::EndOfEarlyData => 5,
            Hs::EncryptedExtensions(_) => 8,
            Hs::Certificate(_) | Hs::Certificate13 { .. } => 11,
            Hs::ServerKeyExchange(_) => 12,
            Hs::CertificateRequest { .. } | Hs::CertificateRequest13 { .. } => 13,
            Hs::ServerHelloDone => 14,
            Hs::CertificateVerify { .. } => 15,
            Hs::ClientKeyExchange(_) => 16,
            Hs::Finished(_) => 20,
            Hs::CertificateStatus(_) => 22,
            Hs::KeyUpdate(_) => 24,
            Hs::Unknown(t, _) => *t,
        }
    }

    /// Type as the library reports it.
    pub fn lib_type(&self) -> u8 {
        match self {
            Hs::HelloRetryRequest { .. } => 6,
            _ => self.wire_type(),
        }
    }

    /// Whether this message only exists in TLS 1.3 framing of its type.
    pub fn is13(&self) -> bool {
        matches!(self, Hs::Certificate13 { .. } | Hs::CertificateRequest13 { .. } | Hs::NewSessionTicket13 { .. })
    }
    pub fn is12(&self) -> bool {
        matches!(self, Hs::Certificate(_) | Hs::CertificateRequest { .. } | Hs::NewSessionTicket { .. })
    }

    pub fn body(&self) -> Vec<u8> {
        let mut out = vec![];
        let w = &mut out;
        match self {
            Hs::HelloRequest | Hs::ServerHelloDone | Hs::EndOfEarlyData => {}
            Hs::ClientHello { version, random, session, suites, compression, exts } => {
                w.extend(version.to_be_bytes());
                w.extend(&random.0);
                p8(w, |w| w.extend(&session.0));
                p16(w, |w| u16s(w, suites));
                p8(w, |w| w.extend(&compression.0));
                if !exts.is_empty() {
                    p16(w, |w| exts.iter().for_each(|e| e.write(w)));
                }
            }
            Hs::ServerHello { version, random, session, suite, compression, exts } => {
                w.extend(version.to_be_bytes());
                w.extend(&random.0);
                p8(w, |w| w.extend(&session.0));
                w.extend(suite.to_be_bytes());
                w.push(*compression);
                p16(w, |w| exts.iter().for_each(|e| e.write(w)));
            }
            Hs::HelloRetryRequest { version, session, suite, exts } => {
                w.extend(version.to_be_bytes());
                w.extend(HRR_RANDOM);
                p8(w, |w| w.extend(&session.0));
                w.extend(suite.to_be_bytes());
                w.push(0);
                p16(w, |w| exts.iter().for_each(|e| e.write(w)));
            }
            Hs::Certificate(certs) => p24(w, |w| {
                for c in certs {
                    p24(w, |w| w.extend(&c.0));
                }
            }),
            Hs::Certificate13 { context, entries } => {
                p8(w, |w| w.extend(&context.0));
                p24(w, |w| {
                    for (c, exts) in entries {
                        p24(w, |w| w.extend(&c.0));
                        p16(w, |w| exts.iter().for_each(|e| e.write(w)));
                    }
                });
            }
            Hs::ServerKeyExchange(b) | Hs::ClientKeyExchange(b) | Hs::Finished(b) | Hs::Unknown(_, b) => w.extend(&b.0),
            Hs::CertificateRequest { types, schemes, names } => {
                p8(w, |w| w.extend(&types.0));
                p16(w, |w| u16s(w, schemes));
                list16(w, names);
            }
            Hs::CertificateRequest13 { context, exts } => {
                p8(w, |w| w.extend(&context.0));
                p16(w, |w| exts.iter().for_each(|e| e.write(w)));
            }
            Hs::CertificateVerify { scheme, sig } => {
                w.extend(scheme.to_be_bytes());
                p16(w, |w| w.extend(&sig.0));
            }
            Hs::NewSessionTicket { hint, ticket } => {
                w.extend(hint.to_be_bytes());
                p16(w, |w| w.extend(&ticket.0));
            }
            Hs::NewSessionTicket13 { lifetime, age_add, nonce, ticket, exts } => {
                w.extend(lifetime.to_be_bytes());
                w.extend(age_add.to_be_bytes());
                p8(w, |w| w.extend(&nonce.0));
                p16(w, |w| w.extend(&ticket.0));
                p16(w, |w| exts.iter().for_each(|e| e.write(w)));
            }
            Hs::EncryptedExtensions(exts) => p16(w, |w| exts.iter().for_each(|e| e.write(w))),
            Hs::KeyUpdate(x) => w.push(*x),
            Hs::CertificateStatus(b) => {
                w.push(1);
                p24(w, |w| w.extend(&b.0));
            }
        }
        out
    }

    pub fn wire(&self) -> Vec<u8> {
        let mut w = vec![self.wire_type()];
        let b = self.body();
        p24(&mut w, |w| w.extend(b));
        w
    }
}

// ---------------------------------------------------------------- parser

/// Strict cursor.
pub struct C<'a>(&'a [u8]);

impl<'a> C<'a> {
    fn empty(&self) -> bool {
        self.0.is_empty()
    }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn uint(&mut self, n: usize) -> Option<usize> {
        Some(self.take(n)?.iter().fold(0usize, |a, b| a << 8 | *b as usize))
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.uint(1)? as u8)
    }
    fn u16(&mut self) -> Option<u16> {
        Some(self.uint(2)? as u16)
    }
    fn u32(&mut self) -> Option<u32> {
        Some(self.uint(4)? as u32)
    }
    /// A vector with an `n`-byte length.
    fn opaque(&mut self, n: usize) -> Option<Bytes> {
        let len = self.uint(n)?;
        Some(Bytes(self.take(len)?.to_vec()))
    }
    fn sub(&mut self, n: usize) -> Option<C<'a>> {
        let len = self.uint(n)?;
        Some(C(self.take(len)?))
    }
    fn rest(&mut self) -> Bytes {
        Bytes(std::mem::take(&mut self.0).to_vec())
    }
    fn many<T>(&mut self, n: usize, mut f: impl FnMut(&mut C<'a>) -> Option<T>) -> Option<Vec<T>> {
        let mut s = self.sub(n)?;
        let mut out = vec![];
        while !s.empty() {
            out.push(f(&mut s)?);
        }
        Some(out)
    }
}

fn whole<'a, T>(mut s: C<'a>, f: impl FnOnce(&mut C<'a>) -> Option<T>) -> Option<T> {
    let r = f(&mut s)?;
    s.empty().then_some(r)
}

fn pext<'a, T>(c: &mut C<'a>, f: impl FnOnce(u16, &mut C<'a>) -> Option<T>) -> Option<T> {
    let t = c.u16()?;
    let s = c.sub(2)?;
    whole(s, |s| f(t, s))
}

fn valid_host(b: &[u8]) -> Option<String> {
    rustls_pki_types::DnsName::try_from(b).ok()?;
    String::from_utf8(b.to_vec()).ok()
}

fn parse_cext(c: &mut C) -> Option<CExt> {
    pext(c, |t, s| {
        Some(match t {
            11 => CExt::EcPf(s.opaque(1)?),
            10 => CExt::Groups(s.many(2, |s| s.u16())?),
            13 => CExt::SigAlgs(s.many(2, |s| s.u16())?),
            0 => CExt::Sni(s.many(2, |s| {
                Some(match s.u8()? {
                    0 => Name::Host(valid_host(&s.opaque(2)?)?),
                    t => Name::Other(t, s.rest()),
                })
            })?),
            35 => CExt::Ticket(s.rest()),
            16 => CExt::Alpn(s.many(2, |s| s.opaque(1))?),
            43 => CExt::Versions(s.many(1, |s| s.u16())?),
            51 => CExt::KeyShare(s.many(2, |s| Some((s.u16()?, s.opaque(2)?)))?),
            45 => CExt::PskModes(s.opaque(1)?),
            41 => CExt::Psk(s.many(2, |s| Some((s.opaque(2)?, s.u32()?)))?, s.many(2, |s| s.opaque(1))?),
            44 => CExt::Cookie(s.opaque(2)?),
            23 if s.empty() => CExt::Ems,
            5 => match s.u8()? {
                1 => CExt::Ocsp(s.many(2, |s| s.opaque(2))?, s.opaque(2)?),
                t => CExt::StatusOther(t, s.rest()),
            },
            18 if s.empty() => CExt::Sct,
            57 => CExt::Tp(s.rest()),
            0xffa5 => CExt::TpDraft(s.rest()),
            42 if s.empty() => CExt::EarlyData,
            t => CExt::Unknown(t, s.rest()),
        })
    })
}

fn parse_sext(c: &mut C) -> Option<SExt> {
    pext(c, |t, s| {
        Some(match t {
            11 => SExt::EcPf(s.opaque(1)?),
            0 => SExt::NameAck,
            35 => SExt::TicketAck,
            5 => SExt::StatusAck,
            0xff01 => SExt::Reneg(s.opaque(1)?),
            16 => SExt::Alpn(s.many(2, |s| s.opaque(1))?),
            51 => SExt::KeyShare(s.u16()?, s.opaque(2)?),
            41 => SExt::Psk(s.u16()?),
            23 => SExt::EmsAck,
            18 => SExt::Scts(s.many(2, |s| s.opaque(2))?),
            43 => SExt::Version(s.u16()?),
            57 => SExt::Tp(s.rest()),
            0xffa5 => SExt::TpDraft(s.rest()),
            42 => SExt::EarlyData,
            t => SExt::Unknown(t, s.rest()),
        })
    })
}

fn parse_hext(c: &mut C) -> Option<HExt> {
    pext(c, |t, s| {
        Some(match t {
            51 => HExt::KeyShare(s.u16()?),
            44 => HExt::Cookie(s.opaque(2)?),
            43 => HExt::Version(s.u16()?),
            t => HExt::Unknown(t, s.rest()),
        })
    })
}

fn parse_certext(c: &mut C) -> Option<CertExt> {
    pext(c, |t, s| {
        Some(match t {
            5 => {
                if s.u8()? != 1 {
                    return None;
                }
                CertExt::Ocsp(s.opaque(3)?)
            }
            18 => CertExt::Scts(s.many(2, |s| s.opaque(2))?),
            t => CertExt::Unknown(t, s.rest()),
        })
    })
}

fn parse_reqext(c: &mut C) -> Option<ReqExt> {
    pext(c, |t, s| {
        Some(match t {
            13 => {
                let v = s.many(2, |s| s.u16())?;
                if v.is_empty() {
                    return None;
                }
                ReqExt::SigAlgs(v)
            }
            47 => ReqExt::Authorities(s.many(2, |s| s.opaque(2))?),
            t => ReqExt::Unknown(t, s.rest()),
        })
    })
}

fn parse_ticketext(c: &mut C) -> Option<TicketExt> {
    pext(c, |t, s| {
        Some(match t {
            42 => TicketExt::EarlyData(s.u32()?),
            t => TicketExt::Unknown(t, s.rest()),
        })
    })
}

const MAX_CERTS: usize = 0x10000;

impl Hs {
    /// Parses one message from the front; returns it and the bytes used.
    pub fn parse(b: &[u8], tls13: bool) -> Option<(Hs, usize)> {
        let mut c = C(b);
        let t = c.u8()?;
        let s = c.sub(3)?;
        let used = b.len() - c.0.len();
        let hs = whole(s, |s| {
            Some(match t {
                0 if s.empty() => Hs::HelloRequest,
                1 => {
                    let version = s.u16()?;
                    let random = Bytes(s.take(32)?.to_vec());
                    let session = s.opaque(1)?;
                    if session.len() > 32 {
                        return None;
                    }
                    let suites = s.many(2, |s| s.u16())?;
                    let compression = s.opaque(1)?;
                    let exts = s.many(2, parse_cext)?;
                    // Every client hello this library deals with has extensions.
                    if exts.is_empty() {
                        return None;
                    }
                    Hs::ClientHello { version, random, session, suites, compression, exts }
                }
                2 => {
                    let version = s.u16()?;
                    let random = Bytes(s.take(32)?.to_vec());
                    let session = s.opaque(1)?;
                    if session.len() > 32 {
                        return None;
                    }
                    let suite = s.u16()?;
                    let compression = s.u8()?;
                    if random.0 == HRR_RANDOM {
                        if compression != 0 {
                            return None;
                        }
                        Hs::HelloRetryRequest { version, session, suite, exts: s.many(2, parse_hext)? }
                    } else {
                        Hs::ServerHello { version, random, session, suite, compression, exts: s.many(2, parse_sext)? }
                    }
                }
                4 if tls13 => Hs::NewSessionTicket13 {
                    lifetime: s.u32()?,
                    age_add: s.u32()?,
                    nonce: s.opaque(1)?,
                    ticket: s.opaque(2)?,
                    exts: s.many(2, parse_ticketext)?,
                },
                4 => Hs::NewSessionTicket { hint: s.u32()?, ticket: s.opaque(2)? },
                5 => Hs::EndOfEarlyData,
                6 | 0xfe => return None,
                8 => Hs::EncryptedExtensions(s.many(2, parse_sext)?),
                11 if tls13 => {
                    let context = s.opaque(1)?;
                    let mut peek = C(s.0);
                    if peek.uint(3)? > MAX_CERTS {
                        return None;
                    }
                    Hs::Certificate13 { context, entries: s.many(3, |s| Some((s.opaque(3)?, s.many(2, parse_certext)?)))? }
                }
                11 => {
                    let mut peek = C(s.0);
                    if peek.uint(3)? > MAX_CERTS {
                        return None;
                    }
                    Hs::Certificate(s.many(3, |s| s.opaque(3))?)
                }
                12 => Hs::ServerKeyExchange(s.rest()),
                13 if tls13 => Hs::CertificateRequest13 { context: s.opaque(1)?, exts: s.many(2, parse_reqext)? },
                13 => {
                    let types = s.opaque(1)?;
                    let schemes = s.many(2, |s| s.u16())?;
                    let names = s.many(2, |s| s.opaque(2))?;
                    if schemes.is_empty() {
                        return None;
                    }
                    Hs::CertificateRequest { types, schemes, names }
                }
                14 => Hs::ServerHelloDone,
                15 => Hs::CertificateVerify { scheme: s.u16()?, sig: s.opaque(2)? },
                16 => Hs::ClientKeyExchange(s.rest()),
                20 => Hs::Finished(s.rest()),
                22 => {
                    if s.u8()? != 1 {
                        return None;
                    }
                    Hs::CertificateStatus(s.opaque(3)?)
                }
                24 => Hs::KeyUpdate(s.u8()?),
                t => Hs::Unknown(t, s.rest()),
            })
        })?;
        Some((hs, used))
    }
}

// ------------------------------------------------------------ to / from lib

pub fn b(x: &Payload) -> Bytes {
    Bytes(x.0.clone())
}
fn b8(x: &PayloadU8) -> Bytes {
    Bytes(x.0.clone())
}
fn b16(x: &PayloadU16) -> Bytes {
    Bytes(x.0.clone())
}
pub fn session_to_lib(s: &[u8]) -> SessionID {
    let mut v = vec![s.len() as u8];
    v.extend(s);
    SessionID::read_bytes(&v).expect("session id of at most 32 bytes")
}
fn session_from_lib(s: &SessionID) -> Bytes {
    let e = s.get_encoding();
    Bytes(e[1..].to_vec())
}
fn random_to_lib(r: &[u8]) -> Random {
    Random(r.try_into().expect("32 bytes"))
}
fn unk(t: u16, b: &Bytes) -> UnknownExtension {
    UnknownExtension { typ: ExtensionType::from(t), payload: Payload::new(b.0.clone()) }
}
fn v16(v: &[Bytes]) -> Vec<PayloadU16> {
    v.iter().map(|x| PayloadU16::new(x.0.clone())).collect()
}
fn v8(v: &[Bytes]) -> Vec<PayloadU8> {
    v.iter().map(|x| PayloadU8::new(x.0.clone())).collect()
}
pub fn host(s: &str) -> rustls_pki_types::DnsName<'static> {
    rustls_pki_types::DnsName::try_from(s.to_string()).expect("valid host name")
}

impl CExt {
    pub fn to_lib(&self) -> ClientExtension {
        use ClientExtension as X;
        match self {
            CExt::EcPf(v) => X::ECPointFormats(v.iter().map(|x| ECPointFormat::from(*x)).collect()),
            CExt::Groups(v) => X::NamedGroups(v.iter().map(|x| NamedGroup::from(*x)).collect()),
            CExt::SigAlgs(v) => X::SignatureAlgorithms(v.iter().map(|x| SignatureScheme::from(*x)).collect()),
            CExt::Sni(v) => X::ServerName(
                v.iter()
                    .map(|n| match n {
                        Name::Host(h) => ServerName {
                            typ: ServerNameType::HostName,
                            payload: ServerNamePayload::new_hostname(host(h)),
                        },
                        Name::Other(t, p) => ServerName {
                            typ: ServerNameType::from(*t),
                            payload: ServerNamePayload::Unknown(Payload::new(p.0.clone())),
                        },
                    })
                    .collect(),
            ),
            CExt::Ticket(p) if p.is_empty() => X::SessionTicket(ClientSessionTicket::Request),
            CExt::Ticket(p) => X::SessionTicket(ClientSessionTicket::Offer(Payload::new(p.0.clone()))),
            CExt::Alpn(v) => X::Protocols(v8(v)),
            CExt::Versions(v) => X::SupportedVersions(v.iter().map(|x| ProtocolVersion::from(*x)).collect()),
            CExt::KeyShare(v) => X::KeyShare(v.iter().map(|(g, k)| KeyShareEntry::new(NamedGroup::from(*g), k)).collect()),
            CExt::PskModes(v) => X::PresharedKeyModes(v.iter().map(|x| PSKKeyExchangeMode::from(*x)).collect()),
            CExt::Psk(ids, binders) => X::PresharedKey(PresharedKeyOffer {
                identities: ids.iter().map(|(i, a)| PresharedKeyIdentity::new(i.0.clone(), *a)).collect(),
                binders: v8(binders),
            }),
            CExt::Cookie(c) => X::Cookie(PayloadU16::new(c.0.clone())),
            CExt::Ems => X::ExtendedMasterSecretRequest,
            CExt::Ocsp(ids, e) => X::CertificateStatusRequest(CertificateStatusRequest::OCSP(OCSPCertificateStatusRequest {
                responder_ids: v16(ids),
                extensions: PayloadU16::new(e.0.clone()),
            })),
            CExt::StatusOther(t, p) => {
                X::CertificateStatusRequest(CertificateStatusRequest::Unknown((CertificateStatusType::from(*t), Payload::new(p.0.clone()))))
            }
            CExt::Sct => X::SignedCertificateTimestampRequest,
            CExt::Tp(p) => X::TransportParameters(p.0.clone()),
            CExt::TpDraft(p) => X::TransportParametersDraft(p.0.clone()),
            CExt::EarlyData => X::EarlyData,
            CExt::Unknown(t, p) => X::Unknown(unk(*t, p)),
        }
    }
    pub fn from_lib(x: &ClientExtension) -> CExt {
        use ClientExtension as X;
        match x {
            X::ECPointFormats(v) => CExt::EcPf(Bytes(v.iter().map(|x| x.get_u8()).collect())),
            X::NamedGroups(v) => CExt::Groups(v.iter().map(|x| x.get_u16()).collect()),
            X::SignatureAlgorithms(v) => CExt::SigAlgs(v.iter().map(|x| x.get_u16()).collect()),
            X::ServerName(v) => CExt::Sni(
                v.iter()
                    .map(|n| match &n.payload {
                        ServerNamePayload::HostName((raw, d)) => {
                            let s: &str = d.as_ref();
                            assert_eq!(s.as_bytes(), &raw.0[..], "raw and parsed host name differ");
                            Name::Host(s.to_string())
                        }
                        ServerNamePayload::Unknown(p) => Name::Other(n.typ.get_u8(), b(p)),
                    })
                    .collect(),
            ),
            X::SessionTicket(ClientSessionTicket::Request) => CExt::Ticket(Bytes(vec![])),
            X::SessionTicket(ClientSessionTicket::Offer(p)) => CExt::Ticket(b(p)),
            X::Protocols(v) => CExt::Alpn(v.iter().map(b8).collect()),
            X::SupportedVersions(v) => CExt::Versions(v.iter().map(|x| x.get_u16()).collect()),
            X::KeyShare(v) => CExt::KeyShare(v.iter().map(|k| (k.group.get_u16(), b16(&k.payload))).collect()),
            X::PresharedKeyModes(v) => CExt::PskModes(Bytes(v.iter().map(|x| x.get_u8()).collect())),
            X::PresharedKey(o) => CExt::Psk(
                o.identities.iter().map(|i| (b16(&i.identity), i.obfuscated_ticket_age)).collect(),
                o.binders.iter().map(b8).collect(),
            ),
            X::Cookie(c) => CExt::Cookie(b16(c)),
            X::ExtendedMasterSecretRequest => CExt::Ems,
            X::CertificateStatusRequest(CertificateStatusRequest::OCSP(o)) => {
                CExt::Ocsp(o.responder_ids.iter().map(b16).collect(), b16(&o.extensions))
            }
            X::CertificateStatusRequest(CertificateStatusRequest::Unknown((t, p))) => CExt::StatusOther(t.get_u8(), b(p)),
            X::SignedCertificateTimestampRequest => CExt::Sct,
            X::TransportParameters(p) => CExt::Tp(Bytes(p.clone())),
            X::TransportParametersDraft(p) => CExt::TpDraft(Bytes(p.clone())),
            X::EarlyData => CExt::EarlyData,
            X::Unknown(u) => CExt::Unknown(u.typ.get_u16(), b(&u.payload)),
        }
    }
}

impl SExt {
    pub fn to_lib(&self) -> ServerExtension {
        use ServerExtension as X;
        match self {
            SExt::EcPf(v) => X::ECPointFormats(v.iter().map(|x| ECPointFormat::from(*x)).collect()),
            SExt::NameAck => X::ServerNameAck,
            SExt::TicketAck => X::SessionTicketAck,
            SExt::Reneg(v) => X::RenegotiationInfo(PayloadU8::new(v.0.clone())),
            SExt::Alpn(v) => X::Protocols(v8(v)),
            SExt::KeyShare(g, k) => X::KeyShare(KeyShareEntry::new(NamedGroup::from(*g), k)),
            SExt::Psk(x) => X::PresharedKey(*x),
            SExt::EmsAck => X::ExtendedMasterSecretAck,
            SExt::StatusAck => X::CertificateStatusAck,
            SExt::Scts(v) => X::SignedCertificateTimestamp(v16(v)),
            SExt::Version(v) => X::SupportedVersions(ProtocolVersion::from(*v)),
            SExt::Tp(p) => X::TransportParameters(p.0.clone()),
            SExt::TpDraft(p) => X::TransportParametersDraft(p.0.clone()),
            SExt::EarlyData => X::EarlyData,
            SExt::Unknown(t, p) => X::Unknown(unk(*t, p)),
        }
    }
    pub fn from_lib(x: &ServerExtension) -> SExt {
        use ServerExtension as X;
        match x {
            X::ECPointFormats(v) => SExt::EcPf(Bytes(v.iter().map(|x| x.get_u8()).collect())),
            X::ServerNameAck => SExt::NameAck,
            X::SessionTicketAck => SExt::TicketAck,
            X::RenegotiationInfo(p) => SExt::Reneg(b8(p)),
            X::Protocols(v) => SExt::Alpn(v.iter().map(b8).collect()),
            X::KeyShare(k) => SExt::KeyShare(k.group.get_u16(), b16(&k.payload)),
            X::PresharedKey(x) => SExt::Psk(*x),
            X::ExtendedMasterSecretAck => SExt::EmsAck,
            X::CertificateStatusAck => SExt::StatusAck,
            X::SignedCertificateTimestamp(v) => SExt::Scts(v.iter().map(b16).collect()),
            X::SupportedVersions(v) => SExt::Version(v.get_u16()),
            X::TransportParameters(p) => SExt::Tp(Bytes(p.clone())),
            X::TransportParametersDraft(p) => SExt::TpDraft(Bytes(p.clone())),
            X::EarlyData => SExt::EarlyData,
            X::Unknown(u) => SExt::Unknown(u.typ.get_u16(), b(&u.payload)),
        }
    }
}

impl Hs {
    pub fn to_lib(&self) -> HandshakeMessagePayload {
        use HandshakePayload as P;
        let pay = |x: &Bytes| Payload::new(x.0.clone());
        let payload = match self {
            Hs::HelloRequest => P::HelloRequest,
            Hs::ClientHello { version, random, session, suites, compression, exts } => P::ClientHello(ClientHelloPayload {
                client_version: ProtocolVersion::from(*version),
                random: random_to_lib(random),
                session_id: session_to_lib(session),
                cipher_suites: suites.iter().map(|x| CipherSuite::from(*x)).collect(),
                compression_methods: compression.iter().map(|x| Compression::from(*x)).collect(),
                extensions: exts.iter().map(|e| e.to_lib()).collect(),
            }),
            Hs::ServerHello { version, random, session, suite, compression, exts } => P::ServerHello(ServerHelloPayload {
                legacy_version: ProtocolVersion::from(*version),
                random: random_to_lib(random),
                session_id: session_to_lib(session),
                cipher_suite: CipherSuite::from(*suite),
                compression_method: Compression::from(*compression),
                extensions: exts.iter().map(|e| e.to_lib()).collect(),
            }),
            Hs::HelloRetryRequest { version, session, suite, exts } => P::HelloRetryRequest(HelloRetryRequest {
                legacy_version: ProtocolVersion::from(*version),
                session_id: session_to_lib(session),
                cipher_suite: CipherSuite::from(*suite),
                extensions: exts
                    .iter()
                    .map(|e| match e {
                        HExt::KeyShare(g) => HelloRetryExtension::KeyShare(NamedGroup::from(*g)),
                        HExt::Cookie(c) => HelloRetryExtension::Cookie(PayloadU16::new(c.0.clone())),
                        HExt::Version(v) => HelloRetryExtension::SupportedVersions(ProtocolVersion::from(*v)),
                        HExt::Unknown(t, p) => HelloRetryExtension::Unknown(unk(*t, p)),
                    })
                    .collect(),
            }),
            Hs::Certificate(v) => P::Certificate(v.iter().map(|c| key::Certificate(c.0.clone())).collect()),
            Hs::Certificate13 { context, entries } => P::CertificateTLS13(CertificatePayloadTLS13 {
                context: PayloadU8::new(context.0.clone()),
                entries: entries
                    .iter()
                    .map(|(c, exts)| CertificateEntry {
                        cert: key::Certificate(c.0.clone()),
                        exts: exts
                            .iter()
                            .map(|e| match e {
                                CertExt::Ocsp(b) => CertificateExtension::CertificateStatus(CertificateStatus::new(b.0.clone())),
                                CertExt::Scts(v) => CertificateExtension::SignedCertificateTimestamp(v16(v)),
                                CertExt::Unknown(t, p) => CertificateExtension::Unknown(unk(*t, p)),
                            })
                            .collect(),
                    })
                    .collect(),
            }),
            Hs::ServerKeyExchange(x) => P::ServerKeyExchange(ServerKeyExchangePayload::Unknown(pay(x))),
            Hs::CertificateRequest { types, schemes, names } => P::CertificateRequest(CertificateRequestPayload {
                certtypes: types.iter().map(|x| ClientCertificateType::from(*x)).collect(),
                sigschemes: schemes.iter().map(|x| SignatureScheme::from(*x)).collect(),
                canames: v16(names),
            }),
            Hs::CertificateRequest13 { context, exts } => P::CertificateRequestTLS13(CertificateRequestPayloadTLS13 {
                context: PayloadU8::new(context.0.clone()),
                extensions: exts
                    .iter()
                    .map(|e| match e {
                        ReqExt::SigAlgs(v) => CertReqExtension::SignatureAlgorithms(v.iter().map(|x| SignatureScheme::from(*x)).collect()),
                        ReqExt::Authorities(v) => CertReqExtension::AuthorityNames(v16(v)),
                        ReqExt::Unknown(t, p) => CertReqExtension::Unknown(unk(*t, p)),
                    })
                    .collect(),
            }),
            Hs::CertificateVerify { scheme, sig } => {
                P::CertificateVerify(DigitallySignedStruct::new(SignatureScheme::from(*scheme), sig.0.clone()))
            }
            Hs::ServerHelloDone => P::ServerHelloDone,
            Hs::EndOfEarlyData => P::EndOfEarlyData,
            Hs::ClientKeyExchange(x) => P::ClientKeyExchange(pay(x)),
            Hs::NewSessionTicket { hint, ticket } => P::NewSessionTicket(NewSessionTicketPayload::new(*hint, ticket.0.clone())),
            Hs::NewSessionTicket13 { lifetime, age_add, nonce, ticket, exts } => {
                let mut p = NewSessionTicketPayloadTLS13::new(*lifetime, *age_add, nonce.0.clone(), ticket.0.clone());
                p.exts = exts
                    .iter()
                    .map(|e| match e {
                        TicketExt::EarlyData(x) => NewSessionTicketExtension::EarlyData(*x),
                        TicketExt::Unknown(t, p) => NewSessionTicketExtension::Unknown(unk(*t, p)),
                    })
                    .collect();
                P::NewSessionTicketTLS13(p)
            }
            Hs::EncryptedExtensions(e) => P::EncryptedExtensions(e.iter().map(|e| e.to_lib()).collect()),
            Hs::KeyUpdate(x) => P::KeyUpdate(KeyUpdateRequest::from(*x)),
            Hs::Finished(x) => P::Finished(pay(x)),
            Hs::CertificateStatus(x) => P::CertificateStatus(CertificateStatus::new(x.0.clone())),
            Hs::Unknown(_, x) => P::Unknown(pay(x)),
        };
        HandshakeMessagePayload { typ: HandshakeType::from(self.lib_type()), payload }
    }

    pub fn from_lib(m: &HandshakeMessagePayload) -> Hs {
        use HandshakePayload as P;
        match &m.payload {
            P::HelloRequest => Hs::HelloRequest,
            P::ClientHello(x) => Hs::ClientHello {
                version: x.client_version.get_u16(),
                random: Bytes(x.random.0.to_vec()),
                session: session_from_lib(&x.session_id),
                suites: x.cipher_suites.iter().map(|x| x.get_u16()).collect(),
                compression: Bytes(x.compression_methods.iter().map(|x| x.get_u8()).collect()),
                exts: x.extensions.iter().map(CExt::from_lib).collect(),
            },
            P::ServerHello(x) => Hs::ServerHello {
                version: x.legacy_version.get_u16(),
                random: Bytes(x.random.0.to_vec()),
                session: session_from_lib(&x.session_id),
                suite: x.cipher_suite.get_u16(),
                compression: x.compression_method.get_u8(),
                exts: x.extensions.iter().map(SExt::from_lib).collect(),
            },
            P::HelloRetryRequest(x) => Hs::HelloRetryRequest {
                version: x.legacy_version.get_u16(),
                session: session_from_lib(&x.session_id),
                suite: x.cipher_suite.get_u16(),
                exts: x
                    .extensions
                    .iter()
                    .map(|e| match e {
                        HelloRetryExtension::KeyShare(g) => HExt::KeyShare(g.get_u16()),
                        HelloRetryExtension::Cookie(c) => HExt::Cookie(b16(c)),
                        HelloRetryExtension::SupportedVersions(v) => HExt::Version(v.get_u16()),
                        HelloRetryExtension::Unknown(u) => HExt::Unknown(u.typ.get_u16(), b(&u.payload)),
                    })
                    .collect(),
            },
            P::Certificate(v) => Hs::Certificate(v.iter().map(|c| Bytes(c.0.clone())).collect()),
            P::CertificateTLS13(x) => Hs::Certificate13 {
                context: b8(&x.context),
                entries: x
                    .entries
                    .iter()
                    .map(|e| {
                        (
                            Bytes(e.cert.0.clone()),
                            e.exts
                                .iter()
                                .map(|e| match e {
                                    CertificateExtension::CertificateStatus(s) => CertExt::Ocsp(Bytes(s.ocsp_response.0.clone())),
                                    CertificateExtension::SignedCertificateTimestamp(v) => CertExt::Scts(v.iter().map(b16).collect()),
                                    CertificateExtension::Unknown(u) => CertExt::Unknown(u.typ.get_u16(), b(&u.payload)),
                                })
                                .collect(),
                        )
                    })
                    .collect(),
            },
            P::ServerKeyExchange(ServerKeyExchangePayload::Unknown(x)) => Hs::ServerKeyExchange(b(x)),
            P::ServerKeyExchange(ServerKeyExchangePayload::ECDHE(x)) => Hs::ServerKeyExchange(Bytes(x.get_encoding())),
            P::CertificateRequest(x) => Hs::CertificateRequest {
                types: Bytes(x.certtypes.iter().map(|x| x.get_u8()).collect()),
                schemes: x.sigschemes.iter().map(|x| x.get_u16()).collect(),
                names: x.canames.iter().map(b16).collect(),
            },
            P::CertificateRequestTLS13(x) => Hs::CertificateRequest13 {
                context: b8(&x.context),
                exts: x
                    .extensions
                    .iter()
                    .map(|e| match e {
                        CertReqExtension::SignatureAlgorithms(v) => ReqExt::SigAlgs(v.iter().map(|x| x.get_u16()).collect()),
                        CertReqExtension::AuthorityNames(v) => ReqExt::Authorities(v.iter().map(b16).collect()),
                        CertReqExtension::Unknown(u) => ReqExt::Unknown(u.typ.get_u16(), b(&u.payload)),
                    })
                    .collect(),
            },
            P::CertificateVerify(x) => Hs::CertificateVerify { scheme: x.scheme.get_u16(), sig: b16(&x.sig) },
            P::ServerHelloDone => Hs::ServerHelloDone,
            P::EndOfEarlyData => Hs::EndOfEarlyData,
            P::ClientKeyExchange(x) => Hs::ClientKeyExchange(b(x)),
            P::NewSessionTicket(x) => Hs::NewSessionTicket { hint: x.lifetime_hint, ticket: b16(&x.ticket) },
            P::NewSessionTicketTLS13(x) => Hs::NewSessionTicket13 {
                lifetime: x.lifetime,
                age_add: x.age_add,
                nonce: b8(&x.nonce),
                ticket: b16(&x.ticket),
                exts: x
                    .exts
                    .iter()
                    .map(|e| match e {
                        NewSessionTicketExtension::EarlyData(x) => TicketExt::EarlyData(*x),
                        NewSessionTicketExtension::Unknown(u) => TicketExt::Unknown(u.typ.get_u16(), b(&u.payload)),
                    })
                    .collect(),
            },
            P::EncryptedExtensions(e) => Hs::EncryptedExtensions(e.iter().map(SExt::from_lib).collect()),
            P::KeyUpdate(x) => Hs::KeyUpdate(x.get_u8()),
            P::Finished(x) => Hs::Finished(b(x)),
            P::CertificateStatus(x) => Hs::CertificateStatus(Bytes(x.ocsp_response.0.clone())),
            P::MessageHash(x) => Hs::Unknown(0xfe, b(x)),
            P::Unknown(x) => Hs::Unknown(m.typ.get_u8(), b(x)),
        }
    }
}

#[allow(unused)]
fn _u24(_: PayloadU24) {}

// ---------------------------------------------------------------- generators

pub fn code16() -> impl Strategy<Value = u16> + Clone {
    prop_oneof![
        3 => any::<u16>(),
        2 => proptest::sample::select(vec![0u16, 1, 0x17, 0x18, 0x1d, 0x0301, 0x0303, 0x0304, 0x0403, 0x0503, 0x0804, 0x0401, 0xc02b, 0xc02f, 0x1301, 0xffff]),
    ]
}
fn code8() -> impl Strategy<Value = u8> + Clone {
    prop_oneof![any::<u8>(), 0u8..4]
}
/// Opaque data, mostly short, sometimes around a length-field boundary.
fn opq(max: usize) -> impl Strategy<Value = Bytes> + Clone {
    prop_oneof![
        12 => bytes(0..20usize.min(max + 1)),
        3 => bytes(0..=max.min(300)),
        1 => (any::<u64>(), vpt::gen::near(&[127, 255, 256, 1000], 2, max)).prop_map(|(t, n)| Bytes(vpt::gen::filler(t, n))),
    ]
}
fn small() -> impl Strategy<Value = Bytes> + Clone {
    opq(400)
}
fn small8() -> impl Strategy<Value = Bytes> + Clone {
    opq(255)
}
fn items(n: usize) -> impl Strategy<Value = Vec<Bytes>> + Clone {
    many(bytes(0..12), 0..n, 12)
}
pub use crate::names::hostname;
fn sni() -> impl Strategy<Value = Vec<Name>> + Clone {
    (many(hostname().prop_map(Name::Host), 0..3, 12), option::weighted(0.3, (1u8.., bytes(0..6))))
        .prop_map(|(mut v, o)| {
            if let Some((t, p)) = o {
                v.push(Name::Other(t, p));
            }
            v
        })
}
/// Extension types for which no structured client form exists (or whose body
/// cannot be the structured form).
fn unknown_cext() -> impl Strategy<Value = CExt> + Clone {
    prop_oneof![
        3 => (any::<u16>(), bytes(0..10)).prop_map(|(t, p)| {
            let structured = [0u16, 5, 10, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 45, 51, 57, 0xffa5];
            let t = if structured.contains(&t) { 0x0a0a } else { t };
            CExt::Unknown(t, p)
        }),
        // Known flags with a body are kept as opaque data.
        1 => (proptest::sample::select(vec![18u16, 23, 42]), bytes(1..6)).prop_map(|(t, p)| CExt::Unknown(t, p)),
        1 => (proptest::sample::select(vec![1u16, 2, 3, 4, 9, 14, 15, 21, 46, 47, 48, 49, 50, 0x3374, 0xff01]), bytes(0..10)).prop_map(|(t, p)| CExt::Unknown(t, p)),
    ]
}
pub fn cext() -> BoxedStrategy<CExt> {
    prop_oneof![
        small8().prop_map(CExt::EcPf),
        many(code16(), 0..10, 150).prop_map(CExt::Groups),
        many(code16(), 0..10, 150).prop_map(CExt::SigAlgs),
        sni().prop_map(CExt::Sni),
        small().prop_map(CExt::Ticket),
        many(small8(), 0..4, 40).prop_map(CExt::Alpn),
        many(code16(), 0..6, 127).prop_map(CExt::Versions),
        many((code16(), bytes(0..40)), 0..4, 12).prop_map(CExt::KeyShare),
        small8().prop_map(CExt::PskModes),
        (many((bytes(0..20), any::<u32>()), 0..3, 12), many(bytes(0..34), 0..3, 12)).prop_map(|(i, b)| CExt::Psk(i, b)),
        small().prop_map(CExt::Cookie),
        Just(CExt::Ems),
        (items(4), small()).prop_map(|(i, e)| CExt::Ocsp(i, e)),
        (prop_oneof![Just(0u8), 2u8..], bytes(0..8)).prop_map(|(t, p)| CExt::StatusOther(t, p)),
        Just(CExt::Sct),
        small().prop_map(CExt::Tp),
        small().prop_map(CExt::TpDraft),
        Just(CExt::EarlyData),
        unknown_cext(),
    ]
    .boxed()
}
pub fn sext() -> BoxedStrategy<SExt> {
    prop_oneof![
        small8().prop_map(SExt::EcPf),
        Just(SExt::NameAck),
        Just(SExt::TicketAck),
        small8().prop_map(SExt::Reneg),
        many(small8(), 0..4, 40).prop_map(SExt::Alpn),
        (code16(), small()).prop_map(|(g, k)| SExt::KeyShare(g, k)),
        any::<u16>().prop_map(SExt::Psk),
        Just(SExt::EmsAck),
        Just(SExt::StatusAck),
        items(4).prop_map(SExt::Scts),
        code16().prop_map(SExt::Version),
        small().prop_map(SExt::Tp),
        small().prop_map(SExt::TpDraft),
        Just(SExt::EarlyData),
        (any::<u16>(), bytes(0..10)).prop_map(|(t, p)| {
            let structured = [0u16, 5, 11, 16, 18, 23, 35, 41, 42, 43, 51, 57, 0xff01, 0xffa5];
            SExt::Unknown(if structured.contains(&t) { 0x0a0a } else { t }, p)
        }),
    ]
    .boxed()
}
fn ext_unknown(structured: &'static [u16]) -> impl Strategy<Value = (u16, Bytes)> + Clone {
    (any::<u16>(), bytes(0..10)).prop_map(move |(t, p)| (if structured.contains(&t) { 0x0a0a } else { t }, p))
}
fn random32() -> impl Strategy<Value = Bytes> + Clone {
    prop_oneof![6 => bytes(32..=32), 1 => Just(Bytes(vec![0; 32]))]
}
fn session() -> impl Strategy<Value = Bytes> + Clone {
    prop_oneof![bytes(0..=32usize), Just(Bytes(vec![])), bytes(32..=32)]
}

pub fn client_hello() -> BoxedStrategy<Hs> {
    (code16(), random32(), session(), many(code16(), 0..12, 150), many(code8(), 0..4, 255), many(cext(), 1..7, 30))
        .prop_map(|(version, random, session, suites, c, exts)| Hs::ClientHello { version, random, session, suites, compression: Bytes(c), exts })
        .boxed()
}
pub fn server_hello() -> BoxedStrategy<Hs> {
    (code16(), random32(), session(), code16(), code8(), many(sext(), 0..6, 30))
        .prop_map(|(version, random, session, suite, compression, exts)| Hs::ServerHello { version, random, session, suite, compression, exts })
        .boxed()
}
pub fn hrr() -> BoxedStrategy<Hs> {
    let h = prop_oneof![
        code16().prop_map(HExt::KeyShare),
        small().prop_map(HExt::Cookie),
        code16().prop_map(HExt::Version),
        ext_unknown(&[51, 44, 43]).prop_map(|(t, p)| HExt::Unknown(t, p)),
    ];
    (code16(), session(), code16(), many(h, 0..5, 20)).prop_map(|(version, session, suite, exts)| Hs::HelloRetryRequest { version, session, suite, exts }).boxed()
}
pub fn cert13() -> BoxedStrategy<Hs> {
    let e = prop_oneof![
        small().prop_map(CertExt::Ocsp),
        items(4).prop_map(CertExt::Scts),
        ext_unknown(&[5, 18]).prop_map(|(t, p)| CertExt::Unknown(t, p)),
    ];
    (small8(), vec((small(), many(e, 0..4, 20)), 0..4)).prop_map(|(context, entries)| Hs::Certificate13 { context, entries }).boxed()
}
pub fn certreq13() -> BoxedStrategy<Hs> {
    let e = prop_oneof![
        many(code16(), 1..6, 150).prop_map(ReqExt::SigAlgs),
        items(4).prop_map(ReqExt::Authorities),
        ext_unknown(&[13, 47]).prop_map(|(t, p)| ReqExt::Unknown(t, p)),
    ];
    (small8(), many(e, 0..4, 20)).prop_map(|(context, exts)| Hs::CertificateRequest13 { context, exts }).boxed()
}
pub fn ticket13() -> BoxedStrategy<Hs> {
    let e = prop_oneof![any::<u32>().prop_map(TicketExt::EarlyData), ext_unknown(&[42]).prop_map(|(t, p)| TicketExt::Unknown(t, p))];
    (any::<u32>(), any::<u32>(), small8(), small(), many(e, 0..4, 20))
        .prop_map(|(lifetime, age_add, nonce, ticket, exts)| Hs::NewSessionTicket13 { lifetime, age_add, nonce, ticket, exts })
        .boxed()
}
fn ske() -> BoxedStrategy<Bytes> {
    prop_oneof![
        small(),
        (code16(), small8(), code16(), small()).prop_map(|(g, k, s, sig)| {
            let mut w = vec![3u8];
            w.extend(g.to_be_bytes());
            p8(&mut w, |w| w.extend(&k.0));
            w.extend(s.to_be_bytes());
            p16(&mut w, |w| w.extend(&sig.0));
            Bytes(w)
        }),
    ]
    .boxed()
}

/// Any well-formed handshake message.
pub fn hs() -> BoxedStrategy<Hs> {
    prop_oneof![
        1 => Just(Hs::HelloRequest),
        6 => client_hello(),
        6 => server_hello(),
        3 => hrr(),
        2 => many(small(), 0..5, 12).prop_map(Hs::Certificate),
        3 => cert13(),
        2 => ske().prop_map(Hs::ServerKeyExchange),
        2 => (small8(), many(code16(), 1..8, 150), items(5)).prop_map(|(types, schemes, names)| Hs::CertificateRequest { types, schemes, names }),
        2 => certreq13(),
        1 => (code16(), small()).prop_map(|(scheme, sig)| Hs::CertificateVerify { scheme, sig }),
        1 => Just(Hs::ServerHelloDone),
        1 => Just(Hs::EndOfEarlyData),
        1 => small().prop_map(Hs::ClientKeyExchange),
        1 => (any::<u32>(), small()).prop_map(|(hint, ticket)| Hs::NewSessionTicket { hint, ticket }),
        2 => ticket13(),
        2 => many(sext(), 0..6, 30).prop_map(Hs::EncryptedExtensions),
        1 => code8().prop_map(Hs::KeyUpdate),
        1 => small().prop_map(Hs::Finished),
        1 => small().prop_map(Hs::CertificateStatus),
        1 => (any::<u8>(), small()).prop_map(|(t, p)| {
            let known = [1u8, 2, 4, 5, 6, 8, 11, 12, 13, 14, 15, 16, 20, 22, 24, 0xfe];
            if known.contains(&t) || (t == 0 && p.is_empty()) { Hs::Unknown(3, p) } else { Hs::Unknown(t, p) }
        }),
    ]
    .boxed()
}

impl Hs {
    pub fn kind(&self) -> String {
        let s = format!("{self:?}");
        s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
    }
    /// Has something a decoder could get wrong.
    pub fn interesting(&self) -> bool {
        self.body().len() > 1
    }
}
