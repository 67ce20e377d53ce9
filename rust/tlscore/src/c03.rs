//! C03: record framing. C04: deframing independent of read boundaries.
//! C05: fragmentation. C06: handshake reassembly.

use crate::hs_spec::*;
use futures::io::AsyncRead;
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    collections::VecDeque,
    io,
    pin::Pin,
    task::{Context, Poll},
};
use tls_core::msgs::{
    base::Payload,
    codec::{Codec, Reader},
    deframer::MessageDeframer,
    enums::*,
    fragmenter::*,
    handshake::HandshakeMessagePayload,
    hsjoiner::HandshakeJoiner,
    message::*,
};
use vpt::{cases, check, check_eq, exhaustive, fail, gen::*, law, Check};

/// A record: type, version, body.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub typ: u8,
    pub version: u16,
    pub body: Bytes,
}

impl Rec {
    pub fn wire(&self) -> Vec<u8> {
        let mut w = vec![self.typ];
        w.extend(self.version.to_be_bytes());
        w.extend((self.body.len() as u16).to_be_bytes());
        w.extend(&self.body.0);
        w
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Parsed {
    Rec(Rec, usize),
    NeedHeader,
    NeedBody,
    BadLength,
    BadType,
    BadVersion,
}

const LIMIT: usize = 16384 + 2048;

fn ref_record(b: &[u8]) -> Parsed {
    if b.len() < 5 {
        return Parsed::NeedHeader;
    }
    let (typ, version, len) = (b[0], u16::from_be_bytes([b[1], b[2]]), u16::from_be_bytes([b[3], b[4]]) as usize);
    if (len == 0 && typ != 23) || len >= LIMIT {
        return Parsed::BadLength;
    }
    if !(20..=24).contains(&typ) {
        return Parsed::BadType;
    }
    if version >> 8 != 3 {
        return Parsed::BadVersion;
    }
    match b.get(5..5 + len) {
        Some(x) => Parsed::Rec(Rec { typ, version, body: Bytes(x.to_vec()) }, 5 + len),
        None => Parsed::NeedBody,
    }
}

fn lib_record(b: &[u8]) -> Parsed {
    let mut r = Reader::init(b);
    match OpaqueMessage::read(&mut r) {
        Ok(m) => Parsed::Rec(to_rec(&m), r.used()),
        Err(MessageError::TooShortForHeader) => Parsed::NeedHeader,
        Err(MessageError::TooShortForLength) => Parsed::NeedBody,
        Err(MessageError::IllegalLength) => Parsed::BadLength,
        Err(MessageError::IllegalContentType) => Parsed::BadType,
        Err(MessageError::IllegalProtocolVersion) => Parsed::BadVersion,
    }
}

fn to_rec(m: &OpaqueMessage) -> Rec {
    Rec { typ: m.typ.get_u8(), version: m.version.get_u16(), body: Bytes(m.payload.0.clone()) }
}
fn to_opaque(r: &Rec) -> OpaqueMessage {
    OpaqueMessage { typ: ContentType::from(r.typ), version: ProtocolVersion::from(r.version), payload: Payload::new(r.body.0.clone()) }
}

fn body(max: usize) -> impl Strategy<Value = Bytes> + Clone {
    prop_oneof![
        10 => bytes(1..40),
        2 => bytes(1..300),
        1 => (any::<u64>(), near(&[255, 256, 4096, 16384, 18431], 2, max)).prop_map(|(t, n)| Bytes(filler(t, n.max(1)))),
    ]
}
pub fn rec() -> impl Strategy<Value = Rec> + Clone {
    (20u8..=24, prop_oneof![3 => Just(0x0303u16), 2 => 0x0300u16..=0x03ff], body(LIMIT - 1), prop::bool::weighted(0.1)).prop_map(|(typ, version, body, empty)| {
        if empty {
            Rec { typ: 23, version, body: Bytes(vec![]) }
        } else {
            Rec { typ, version, body }
        }
    })
}

/// Interesting header values, legal and not.
fn header() -> impl Strategy<Value = (u8, u16, u16)> {
    (
        prop_oneof![4 => 20u8..=24, 1 => 19u8..=25, 1 => any::<u8>()],
        prop_oneof![4 => 0x0300u16..=0x0304, 2 => any::<u16>(), 2 => proptest::sample::select(vec![0x0200u16, 0xfeff, 0xfefd, 0x02ff, 0x0400, 0x0303, 0x03ff, 0x0002])],
        prop_oneof![3 => 0u16..20, 2 => near(&[16384, 18432, 65535], 3, 65535).prop_map(|x| x as u16), 1 => any::<u16>()],
    )
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "A case is a record header (legal and illegal types, versions and lengths, including every boundary of the length limits) with a body of which \
               a generated part is present, or a record to encode. Non-trivial: at least a full header is present.",
        assumptions: &["The reference record parser in the harness is written from RFC 5246 6.2 and the library's documented limits."],
        laws: vec![
            law(
                "header_acceptance",
                cases(2_000_000),
                || (header(), 0usize..=24, -3i32..4, any::<bool>()),
                |((typ, ver, len), have, delta, near): &((u8, u16, u16), usize, i32, bool), cx| {
                    let mut w = vec![*typ];
                    w.extend(ver.to_be_bytes());
                    w.extend(len.to_be_bytes());
                    let want = if *near { (*len as i32 + delta).max(0) as usize } else { *have };
                    w.extend(filler(*len as u64, want));
                    cx.nontrivial(true);
                    let (want, got) = (ref_record(&w), lib_record(&w));
                    cx.label(match &want {
                        Parsed::Rec(..) => "accepted",
                        Parsed::NeedBody => "needs body",
                        Parsed::BadLength => "bad length",
                        Parsed::BadType => "bad type",
                        Parsed::BadVersion => "bad version",
                        Parsed::NeedHeader => "needs header",
                    });
                    check_eq!(got, want, "record type {typ} version {ver:#06x} length {len}");
                    Ok(())
                },
            ),
            exhaustive(
                "every_version_and_type",
                || (0u32..0x10000).step_by(256).map(|x| x as u16).collect::<Vec<u16>>(),
                |hi: &u16, cx| {
                    cx.nontrivial(true);
                    for lo in 0..256u16 {
                        let v = hi | lo;
                        let w = [23, (v >> 8) as u8, v as u8, 0, 1, 42];
                        check_eq!(lib_record(&w), ref_record(&w), "version {v:#06x}");
                        // Same bytes read as a type.
                        let w = [lo as u8, 3, 3, 0, 1, 42];
                        check_eq!(lib_record(&w), ref_record(&w), "type {lo}");
                        // And every declared length, with nothing there.
                        for typ in [22u8, 23] {
                            let w = [typ, 3, 3, (v >> 8) as u8, v as u8];
                            check_eq!(lib_record(&w), ref_record(&w), "length {v} type {typ}");
                        }
                    }
                    Ok(())
                },
            ),
            law("prefixes_are_distinguished", cases(60_000), rec, |r: &Rec, cx| {
                let w = r.wire();
                cx.nontrivial(true);
                let step = 1 + w.len() / 40;
                for n in (0..w.len()).step_by(step).chain(w.len().saturating_sub(2)..w.len()) {
                    check_eq!(lib_record(&w[..n]), if n < 5 { Parsed::NeedHeader } else { Parsed::NeedBody }, "prefix of {n} bytes");
                }
                check_eq!(lib_record(&w), Parsed::Rec(r.clone(), w.len()));
                Ok(())
            }),
            law("encode_decode", cases(400_000), || (rec(), bytes(0..7)), |(r, tail): &(Rec, Bytes), cx| {
                cx.nontrivial(true);
                let enc = to_opaque(r).encode();
                check_eq!(Bytes(enc.clone()), Bytes(r.wire()), "record encoding");
                check!(enc.len() <= OpaqueMessage::MAX_WIRE_SIZE, "record exceeds the maximum wire size");
                let mut w = enc;
                let n = w.len();
                w.extend(&tail.0);
                check_eq!(lib_record(&w), Parsed::Rec(r.clone(), n));
                let p = to_opaque(r).into_plain_message();
                check_eq!((p.typ.get_u8(), p.version.get_u16(), Bytes(p.payload.0.clone())), (r.typ, r.version, r.body.clone()));
                let bp = p.borrow();
                check_eq!((bp.typ.get_u8(), bp.version.get_u16(), bp.payload), (r.typ, r.version, &r.body.0[..]));
                check_eq!(to_rec(&p.into_unencrypted_opaque()), *r);
                Ok(())
            }),
            law("stream_of_records", cases(80_000), || vec(rec(), 0..8), |v: &Vec<Rec>, cx| {
                cx.nontrivial(v.len() > 1);
                let w: Vec<u8> = v.iter().flat_map(|r| r.wire()).collect();
                let mut r = Reader::init(&w);
                for want in v {
                    match OpaqueMessage::read(&mut r) {
                        Ok(m) => check_eq!(to_rec(&m), *want),
                        Err(e) => fail!("legal record refused: {e:?}"),
                    }
                }
                check!(!r.any_left(), "bytes left over");
                Ok(())
            }),
        ],
    }
}

// ---------------------------------------------------------------- C04

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// Offer up to this many bytes.
    Read(u32),
    /// The transport reports an error.
    Fail(bool),
    /// The transport is not ready; the pending read is dropped if set.
    Pending(bool),
    /// The consumer takes up to this many frames.
    Drain(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stream {
    records: Vec<Rec>,
    damage: Option<(u32, Mutation)>,
    cut: Option<u32>,
    steps: Vec<Step>,
    is_async: bool,
}

struct Src<'a> {
    data: &'a [u8],
    offer: usize,
    err: Option<io::ErrorKind>,
    pending: bool,
}
impl io::Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(k) = self.err.take() {
            return Err(k.into());
        }
        let n = self.offer.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
impl AsyncRead for Src<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if std::mem::take(&mut self.pending) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(io::Read::read(&mut *self, buf))
    }
}

fn steps() -> impl Strategy<Value = Vec<Step>> + Clone {
    vec(
        prop_oneof![
            6 => prop_oneof![3 => 1u32..12, 2 => 1u32..200, 1 => 1u32..40_000, 1 => Just(0u32)].prop_map(Step::Read),
            1 => any::<bool>().prop_map(Step::Fail),
            1 => any::<bool>().prop_map(Step::Pending),
            2 => (0u8..4).prop_map(Step::Drain),
        ],
        0..60,
    )
}

fn stream() -> impl Strategy<Value = Stream> {
    (
        vec(rec(), 0..7),
        proptest::option::weighted(0.35, (any::<u32>(), mutation())),
        proptest::option::weighted(0.3, any::<u32>()),
        steps(),
        any::<bool>(),
    )
        .prop_map(|(records, damage, cut, steps, is_async)| Stream { records, damage, cut, steps, is_async })
}

fn run_stream(s: &Stream, cx: &mut vpt::Cx) -> vpt::CaseResult {
    let mut data = vec![];
    for (i, r) in s.records.iter().enumerate() {
        let mut w = r.wire();
        if let Some((at, m)) = &s.damage {
            if *at as usize % s.records.len() == i {
                // Headers are where framing decisions are made.
                let body = w.split_off(5);
                m.apply(&mut w);
                w.extend(body);
            }
        }
        data.extend(w);
    }
    if let Some(c) = s.cut {
        data.truncate(c as usize % (data.len() + 1));
    }

    // Expected frames and where each ends, and where the stream breaks.
    let mut expect: Vec<(usize, Rec)> = vec![];
    let mut pos = 0;
    let mut broken_at: Option<usize> = None;
    loop {
        match ref_record(&data[pos..]) {
            Parsed::Rec(r, n) => {
                pos += n;
                expect.push((pos, r));
            }
            Parsed::NeedHeader | Parsed::NeedBody => break,
            _ => {
                broken_at = Some(pos + 5);
                break;
            }
        }
    }
    cx.label(if broken_at.is_some() { "desynchronised" } else { "clean" });
    cx.label(if s.is_async { "async" } else { "sync" });

    let mut d = MessageDeframer::new();
    let mut fed = 0usize;
    let mut got: Vec<Rec> = vec![];
    let waker = futures::task::noop_waker();
    let mut tcx = Context::from_waker(&waker);
    let all = s.steps.iter().cloned().chain(std::iter::repeat_with(|| Step::Read(5000)).take(200_000));
    let mut idle = 0;
    let mut reads = 0;
    for (i, st) in all.enumerate() {
        let scripted = i < s.steps.len();
        if !scripted && (fed == data.len() || idle > 3) {
            break;
        }
        match st {
            Step::Drain(n) => {
                for _ in 0..n {
                    if let Some(m) = d.frames.pop_front() {
                        got.push(to_rec(&m));
                    }
                }
            }
            Step::Read(_) | Step::Fail(_) | Step::Pending(_) => {
                let mut src = Src { data: &data[fed..], offer: 64, err: None, pending: false };
                let mut drop_pending = false;
                match st {
                    Step::Read(n) => src.offer = n as usize,
                    Step::Fail(intr) => src.err = Some(if intr { io::ErrorKind::Interrupted } else { io::ErrorKind::ConnectionReset }),
                    Step::Pending(drop) => {
                        src.pending = true;
                        drop_pending = drop;
                    }
                    _ => {}
                }
                let failing = src.err.is_some();
                let before = (d.frames.len(), d.desynced, d.has_pending());
                let res = if s.is_async {
                    let mut fut = Box::pin(d.read_async(&mut src));
                    let mut out = None;
                    for _ in 0..4 {
                        match std::future::Future::poll(fut.as_mut(), &mut tcx) {
                            Poll::Ready(r) => {
                                out = Some(r);
                                break;
                            }
                            Poll::Pending if drop_pending => break,
                            Poll::Pending => {}
                        }
                    }
                    out
                } else {
                    Some(d.read(&mut src))
                };
                let taken = data.len() - fed - src.data.len();
                match res {
                    None => {
                        check_eq!((d.frames.len(), d.desynced, d.has_pending()), before, "a dropped read changed the state");
                        check_eq!(taken, 0, "bytes lost in a dropped read");
                    }
                    Some(Err(_)) => {
                        check!(failing, "read failed although the transport did not");
                        check_eq!((d.frames.len(), d.desynced, d.has_pending()), before, "a failed read changed the state");
                    }
                    Some(Ok(n)) => {
                        check!(!failing, "transport error swallowed");
                        check_eq!(n, taken, "reported byte count");
                        if !scripted {
                            idle = if n == 0 { idle + 1 } else { 0 };
                        }
                        reads += 1;
                    }
                }
                fed += taken;
            }
        }
        // Invariants after every step.
        let due = expect.iter().filter(|(end, _)| *end <= fed).count();
        check_eq!(got.len() + d.frames.len(), due, "frames available after {fed} bytes");
        let broken = broken_at.is_some_and(|b| fed >= b);
        check_eq!(d.desynced, broken, "desynchronised flag after {fed} bytes");
        let consumed = expect[..due].last().map(|e| e.0).unwrap_or(0);
        check_eq!(d.has_pending(), !d.frames.is_empty() || fed > consumed, "has_pending after {fed} bytes");
    }
    cx.nontrivial(reads > 1 && !expect.is_empty());
    cx.label_if(reads > expect.len() && !expect.is_empty(), "split records");
    if broken_at.is_none() {
        check_eq!(fed, data.len(), "the deframer stopped reading");
    }
    got.extend(d.frames.drain(..).map(|m| to_rec(&m)));
    check_eq!(got.len(), expect.len(), "number of frames");
    for (g, (_, e)) in got.iter().zip(&expect) {
        check_eq!(g, e, "frame content");
    }
    Ok(())
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "A case is a history: a generated stream of records (some with a damaged header or cut short) delivered in generated reads - sizes from one \
               byte to several records, zero-length reads, transport errors, not-ready and dropped asynchronous reads - with the consumer draining frames in \
               between. Non-trivial: at least one whole record and more than one successful read.",
        assumptions: &["The reference record parser defines the expected frames; after a desynchronised header nothing more is expected."],
        laws: vec![
            law("any_delivery_same_frames", cases(400_000), stream, run_stream),
            law("one_byte_at_a_time", cases(12_000), || (vec(rec(), 1..4), any::<bool>()), |(v, is_async): &(Vec<Rec>, bool), cx| {
                let records: Vec<Rec> = v.iter().map(|r| Rec { body: Bytes(r.body.iter().copied().take(600).collect()), ..r.clone() }).collect();
                let n: usize = records.iter().map(|r| r.wire().len()).sum();
                run_stream(&Stream { records, damage: None, cut: None, steps: vec![Step::Read(1); n], is_async: *is_async }, cx)
            }),
        ],
    }
}

// ---------------------------------------------------------------- C05

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Frag {
    limit: Option<u32>,
    typ: u8,
    version: u16,
    len: u32,
    tag: u64,
    already: u8,
}

fn frag() -> impl Strategy<Value = Frag> {
    let limit = prop_oneof![
        1 => Just(None),
        3 => (32u32..=16389).prop_map(Some),
        3 => (32u32..200).prop_map(Some),
        1 => proptest::sample::select(vec![32u32, 33, 16388, 16389]).prop_map(Some),
    ];
    (limit, 20u8..24, code16(), 0u32..5, 0u32..=4, any::<u32>(), any::<u64>(), 0u8..3).prop_map(|(limit, typ, version, k, jitter, free, tag, already)| {
        // Lengths at exact multiples of the fragment size and one off.
        let unit = limit.map(|l| l - 5).unwrap_or(16384);
        let len = if free % 3 == 0 { free % 60_000 } else { (k * unit + jitter).saturating_sub(2) };
        Frag { limit, typ, version, len, tag, already }
    })
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "A case is a fragment-size setting and a message whose length is generated around multiples of the fragment size. Non-trivial: the message needs \
               at least two fragments or sits within 2 bytes of a multiple of the limit.",
        assumptions: &[],
        laws: vec![
            law("fragments_partition_message", cases(600_000), frag, |f: &Frag, cx| {
                let unit = f.limit.map(|l| l as usize - 5).unwrap_or(16384);
                let data = filler(f.tag, f.len as usize);
                let fr = match MessageFragmenter::new(f.limit.map(|x| x as usize)) {
                    Ok(f) => f,
                    Err(e) => fail!("fragment size {:?} refused: {e:?}", f.limit),
                };
                cx.nontrivial(data.len() > unit || data.len() % unit <= 2 || data.len() % unit >= unit - 2);
                cx.label(match data.len().div_ceil(unit) {
                    0 => "empty",
                    1 => "one fragment",
                    2..=4 => "2-4 fragments",
                    _ => "more fragments",
                });
                let plain = |d: &[u8]| PlainMessage { typ: ContentType::from(f.typ), version: ProtocolVersion::from(f.version), payload: Payload::new(d) };
                let mut out: VecDeque<PlainMessage> = (0..f.already).map(|i| plain(&[i])).collect();
                fr.fragment(plain(&data), &mut out);
                for i in 0..f.already {
                    check_eq!(out.pop_front().map(|m| m.payload.0), Some(vec![i]), "queued messages disturbed");
                }
                let mut bout = VecDeque::new();
                let ver = ProtocolVersion::from(f.version);
                fr.fragment_borrow(ContentType::from(f.typ), ver, &data, &mut bout);
                let owned: Vec<(u8, u16, Vec<u8>)> = out.iter().map(|m| (m.typ.get_u8(), m.version.get_u16(), m.payload.0.clone())).collect();
                let borrowed: Vec<(u8, u16, Vec<u8>)> = bout.iter().map(|m| (m.typ.get_u8(), m.version.get_u16(), m.payload.to_vec())).collect();
                for frags in [&owned, &borrowed] {
                    let joined: Vec<u8> = frags.iter().flat_map(|x| x.2.clone()).collect();
                    check!(joined == data, "fragments do not add up to the message ({} vs {} bytes)", joined.len(), data.len());
                    for (t, v, p) in frags.iter() {
                        check_eq!((*t, *v), (f.typ, f.version), "type or version changed");
                        check!(p.len() <= unit, "fragment of {} bytes over the limit {unit}", p.len());
                        check!(!p.is_empty() || data.is_empty(), "empty fragment");
                        check!(p.len() + 5 <= f.limit.map(|l| l as usize).unwrap_or(16389), "fragment with header over the configured size");
                    }
                    check_eq!(frags.len(), data.len().div_ceil(unit).max(if data.is_empty() { frags.len() } else { 1 }), "number of fragments");
                }
                if !data.is_empty() {
                    check!(owned == borrowed, "owned and borrowed fragmentation differ");
                }
                Ok(())
            }),
            law(
                "size_setting",
                cases(60_000),
                || vec(proptest::option::of(prop_oneof![near(&[0, 5, 32, 16384, 16389, 65536], 3, 70_000), 0usize..20_000]), 1..6),
                |sizes: &Vec<Option<usize>>, cx| {
                    let legal = |s: &Option<usize>| s.is_none_or(|s| (32..=16389).contains(&s));
                    let mut fr = match MessageFragmenter::new(sizes[0]) {
                        Ok(f) => {
                            check!(legal(&sizes[0]), "illegal size {:?} accepted", sizes[0]);
                            f
                        }
                        Err(_) => {
                            check!(!legal(&sizes[0]), "legal size {:?} refused", sizes[0]);
                            MessageFragmenter::new(None).unwrap()
                        }
                    };
                    let mut cur = if legal(&sizes[0]) { sizes[0] } else { None };
                    for s in &sizes[1..] {
                        let ok = fr.set_max_fragment_size(*s).is_ok();
                        check_eq!(ok, legal(s), "size {s:?}");
                        if ok {
                            cur = *s;
                        }
                        cx.nontrivial(true);
                        let unit = cur.map(|c| c - 5).unwrap_or(16384);
                        let data = vec![7u8; unit + 1];
                        let mut out = VecDeque::new();
                        fr.fragment_borrow(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &data, &mut out);
                        check_eq!(out.iter().map(|m| m.payload.len()).collect::<Vec<_>>(), vec![unit, 1], "limit in force after setting {s:?}");
                    }
                    Ok(())
                },
            ),
            law(
                "survives_the_wire",
                cases(20_000),
                || (vec(hs(), 1..5), prop_oneof![Just(None), (32usize..400).prop_map(Some)], vec(1u32..3000, 1..8)),
                |(msgs, limit, chunks): &(Vec<Hs>, Option<usize>, Vec<u32>), cx| {
                    // message -> fragments -> records -> arbitrary reads -> deframer -> joiner -> message
                    let msgs: Vec<&Hs> = msgs.iter().filter(|m| !m.is13()).collect();
                    let fr = MessageFragmenter::new(*limit).unwrap();
                    let mut q = VecDeque::new();
                    for h in &msgs {
                        let m = Message { version: ProtocolVersion::TLSv1_2, payload: MessagePayload::Handshake(h.to_lib()) };
                        fr.fragment(m.into(), &mut q);
                    }
                    cx.nontrivial(q.len() > msgs.len());
                    let wire: Vec<u8> = q.into_iter().flat_map(|m| m.into_unencrypted_opaque().encode()).collect();
                    let mut d = MessageDeframer::new();
                    let mut j = HandshakeJoiner::new();
                    let (mut pos, mut i, mut out) = (0, 0, vec![]);
                    while pos < wire.len() {
                        let n = (chunks[i % chunks.len()] as usize).min(wire.len() - pos);
                        i += 1;
                        let mut src: &[u8] = &wire[pos..pos + n];
                        let Ok(n) = d.read(&mut src) else { fail!("read failed") };
                        check!(n > 0, "deframer stalled");
                        pos += n;
                        while let Some(f) = d.frames.pop_front() {
                            let p = f.into_plain_message();
                            check!(j.want_message(&p), "handshake record not wanted");
                            check!(j.take_message(p).is_some(), "handshake record refused");
                        }
                        out.extend(j.frames.drain(..));
                    }
                    check!(!d.desynced && !d.has_pending() && j.is_empty(), "state left behind");
                    check_eq!(out.len(), msgs.len(), "number of messages");
                    for (m, h) in out.iter().zip(&msgs) {
                        match &m.payload {
                            MessagePayload::Handshake(x) => check_eq!(Hs::from_lib(x), **h),
                            _ => fail!("not a handshake message"),
                        }
                    }
                    Ok(())
                },
            ),
        ],
    }
}

// ---------------------------------------------------------------- C06

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Flight {
    msgs: Vec<Hs>,
    cuts: Vec<u32>,
    tls13: bool,
    damage: Option<Mutation>,
    /// Append a header announcing this many bytes.
    huge: Option<u32>,
}

fn run_flight(f: &Flight, cx: &mut vpt::Cx) -> vpt::CaseResult {
    let mut data: Vec<u8> = f.msgs.iter().filter(|h| if f.tls13 { !h.is12() } else { !h.is13() }).flat_map(|h| h.wire()).collect();
    if let Some(m) = &f.damage {
        m.apply(&mut data);
    }
    if let Some(n) = f.huge {
        data.push(20);
        data.extend(&n.to_be_bytes()[1..]);
        data.extend(filler(1, (n as usize).min(70_000)));
    }
    let mut at: Vec<usize> = f.cuts.iter().map(|c| *c as usize % (data.len() + 1)).collect();
    at.push(data.len());
    at.sort_unstable();
    let version = if f.tls13 { ProtocolVersion::TLSv1_3 } else { ProtocolVersion::TLSv1_2 };

    let mut j = HandshakeJoiner::new();
    let mut model: Vec<u8> = vec![];
    let mut pos = 0;
    let mut done = 0usize;
    let mut expected: Vec<Hs> = vec![];
    for (k, end) in at.iter().enumerate() {
        let chunk = data[pos..*end].to_vec();
        pos = *end;
        let m = PlainMessage { typ: ContentType::Handshake, version, payload: Payload::new(chunk.clone()) };
        check!(j.want_message(&m), "handshake record not wanted");
        let got = j.take_message(m);
        // Model.
        model.extend(chunk);
        let mut count = 0;
        let mut bad = false;
        while model.len() >= 4 {
            let len = u32::from_be_bytes([0, model[1], model[2], model[3]]) as usize;
            if len > 0xffff {
                bad = true;
                break;
            }
            if model.len() < 4 + len {
                break;
            }
            match Hs::parse(&model, f.tls13) {
                Some((h, n)) => {
                    expected.push(h);
                    model.drain(..n);
                    count += 1;
                }
                None => {
                    bad = true;
                    break;
                }
            }
        }
        if bad {
            cx.label("corrupt");
            check!(got.is_none(), "corrupt or oversized handshake data accepted in record {k}");
        } else {
            check_eq!(got, Some(count), "number of messages completed by record {k}");
        }
        done += count;
        check_eq!(j.frames.len(), done, "frames queued");
        for (m, h) in j.frames.iter().zip(&expected) {
            match &m.payload {
                MessagePayload::Handshake(x) => {
                    check_eq!(Hs::from_lib(x), *h, "reassembled message differs");
                    check_eq!(m.version.get_u16(), version.get_u16());
                }
                _ => fail!("not a handshake message"),
            }
        }
        if bad {
            cx.nontrivial(true);
            return Ok(());
        }
        check_eq!(j.is_empty(), model.is_empty(), "is_empty after record {k}");
    }
    cx.nontrivial(at.len() > 1 && done > 0);
    cx.label("clean");
    cx.label_if(at.len() > done, "split");
    cx.label_if(at.len() < done, "coalesced");
    Ok(())
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "A case is a flight of handshake messages (some damaged, some followed by an oversized header) concatenated and cut into records at generated \
               places, so that messages are split, coalesced and headers themselves are split. Non-trivial: at least two records and one whole message, or \
               corrupt input.",
        assumptions: &["The strict reference parser in the harness defines which handshake messages are well formed."],
        laws: vec![
            law(
                "any_record_boundaries",
                cases(150_000),
                || {
                    (vec(hs(), 0..6), vec(any::<u32>(), 0..14), any::<bool>(), proptest::option::weighted(0.25, mutation()), proptest::option::weighted(0.1, near(&[0xffff, 0x10000, 0xffffff], 2, 0xffffff).prop_map(|x| x as u32)))
                        .prop_map(|(msgs, cuts, tls13, damage, huge)| Flight { msgs, cuts, tls13, damage, huge })
                },
                run_flight,
            ),
            law("cut_everywhere", cases(4_000), || vec(hs(), 1..4), |msgs: &Vec<Hs>, cx| {
                let n: usize = msgs.iter().map(|h| h.wire().len()).sum();
                // One byte per record, then every two-record split.
                run_flight(&Flight { msgs: msgs.clone(), cuts: (0..n as u32 + 1).collect(), tls13: false, damage: None, huge: None }, cx)?;
                for c in (0..n as u32).step_by(1 + n / 60) {
                    run_flight(&Flight { msgs: msgs.clone(), cuts: vec![c], tls13: false, damage: None, huge: None }, cx)?;
                }
                Ok(())
            }),
            exhaustive(
                "size_limit",
                || vec![0xfffeu32, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000, 0xff0000, 0xffffff],
                |n: &u32, cx| {
                    cx.nontrivial(true);
                    run_flight(&Flight { msgs: vec![Hs::ServerHelloDone], cuts: vec![2, 6, 8], tls13: false, damage: None, huge: Some(*n) }, cx)
                },
            ),
            law("other_content_ignored", cases(10_000), || (any::<u8>(), bytes(0..20)), |(t, p): &(u8, Bytes), cx| {
                cx.nontrivial(true);
                let m = PlainMessage { typ: ContentType::from(*t), version: ProtocolVersion::TLSv1_2, payload: Payload::new(p.0.clone()) };
                check_eq!(HandshakeJoiner::new().want_message(&m), *t == 22, "want_message for type {t}");
                let _ = HandshakeMessagePayload::read_bytes(p);
                Ok(())
            }),
        ],
    }
}
