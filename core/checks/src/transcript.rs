//! C30 partial transcripts, C31 decoding, C32 Merkle trees, C36 hashes.

use proptest::prelude::*;
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use tlsn_core::{
    hash::{Blinded, Blinder, Hash, HashAlgId, HashAlgorithm, HashProvider, TypedHash},
    merkle::{MerkleProof, MerkleTree},
    transcript::{
        hash::{hash_plaintext, PlaintextHash, PlaintextHashSecret},
        Direction, PartialTranscript, Subsequence, Transcript, TranscriptProof,
    },
};
use vpt::{
    cases, catch, check, check_eq, fail,
    gen::{mutation, sized_bytes, Bytes, Mutation},
    law, CaseResult, Check, Cx,
};

use crate::util::*;

// ---------------------------------------------------------------- C30

/// What a partial transcript must be: bytes where authenticated, and a mask.
#[derive(Clone)]
struct Model {
    data: [Vec<u8>; 2],
    mask: [Vec<bool>; 2],
}

impl Model {
    fn check(&self, p: &PartialTranscript) -> CaseResult {
        check_eq!(p.len_sent(), self.data[0].len());
        check_eq!(p.len_received(), self.data[1].len());
        check_eq!(p.sent_unsafe(), &self.data[0][..], "sent bytes");
        check_eq!(p.received_unsafe(), &self.data[1][..], "received bytes");
        check_eq!(p.sent_authed(), &set_of(&self.mask[0]), "authenticated sent indices");
        check_eq!(p.received_authed(), &set_of(&self.mask[1]), "authenticated received indices");
        let inv = |m: &[bool]| set_of(&m.iter().map(|b| !b).collect::<Vec<_>>());
        check_eq!(p.sent_unauthed(), inv(&self.mask[0]), "unauthenticated sent indices");
        check_eq!(p.received_unauthed(), inv(&self.mask[1]), "unauthenticated received indices");
        check_eq!(p.is_complete(), self.mask.iter().flatten().all(|b| *b), "is_complete");
        for d in 0..2 {
            let got: Vec<u8> = p.iter(dir(d == 1)).collect();
            check_eq!(got, pick_bytes(&self.data[d], &self.mask[d]), "authenticated bytes of direction {d}");
        }
        Ok(())
    }
}

fn model(data: [&[u8]; 2], sets: [&RangeSet<usize>; 2]) -> Model {
    let mut m = Model { data: [vec![], vec![]], mask: [vec![], vec![]] };
    for d in 0..2 {
        m.mask[d] = mask(sets[d], data[d].len());
        m.data[d] = data[d].iter().zip(&m.mask[d]).map(|(b, k)| if *k { *b } else { 0 }).collect();
    }
    m
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Union with the partial transcript of the same data at these indices,
    /// whose other bytes were overwritten with a value first.
    Union(Picks, Picks, Option<u8>),
    /// Union of a subsequence of the same data.
    Sub(bool, Picks),
    Fill(u8),
    FillRange(u8, bool, u32, u32),
    Recode(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    lens: Lens,
    fresh: bool,
    sent: Picks,
    recv: Picks,
    ops: Vec<Op>,
}

fn histories() -> impl Strategy<Value = History> {
    let op = prop_oneof![
        4 => (picks(3), picks(3), proptest::option::of(any::<u8>())).prop_map(|(a, b, v)| Op::Union(a, b, v)),
        3 => (any::<bool>(), picks(3)).prop_map(|(d, a)| Op::Sub(d, a)),
        2 => any::<u8>().prop_map(Op::Fill),
        2 => (any::<u8>(), any::<bool>(), 0u32..70, 0u32..40).prop_map(|(v, d, a, b)| Op::FillRange(v, d, a, b)),
        2 => any::<bool>().prop_map(Op::Recode),
    ];
    (lens(), any::<bool>(), picks(4), picks(4), vpt::gen::many(op, 0..7, 24)).prop_map(|(lens, fresh, sent, recv, ops)| History { lens, fresh, sent, recv, ops })
}

fn history(h: &History, cx: &mut Cx) -> CaseResult {
    let (s, r) = h.lens.data();
    let t = Transcript::new(s.clone(), r.clone());
    let data = [&s[..], &r[..]];
    let (mut p, mut m) = if h.fresh {
        (PartialTranscript::new(s.len(), r.len()), model(data, [&RangeSet::default(), &RangeSet::default()]))
    } else {
        let (a, b) = (within(&h.sent, s.len()), within(&h.recv, r.len()));
        (t.to_partial(a.clone(), b.clone()), model(data, [&a, &b]))
    };
    m.check(&p)?;
    let mut grew = 0;
    for op in &h.ops {
        match op {
            Op::Union(a, b, v) => {
                let (a, b) = (within(a, s.len()), within(b, r.len()));
                let mut o = t.to_partial(a.clone(), b.clone());
                if let Some(v) = v {
                    o.set_unauthed(*v);
                }
                p.union_transcript(&o);
                for (d, set) in [a, b].iter().enumerate() {
                    let k = mask(set, data[d].len());
                    for i in 0..k.len() {
                        if k[i] && !m.mask[d][i] {
                            m.data[d][i] = data[d][i];
                            grew += 1;
                        }
                    }
                    or(&mut m.mask[d], &k);
                }
            }
            Op::Sub(d, a) => {
                let di = *d as usize;
                let set = within(a, data[di].len());
                let Some(sub) = t.get(dir(*d), &set) else { fail!("get refused indices in bounds: {set:?} of {}", data[di].len()) };
                p.union_subsequence(dir(*d), &sub);
                let k = mask(&set, data[di].len());
                for i in 0..k.len() {
                    if k[i] {
                        m.data[di][i] = data[di][i];
                        grew += 1;
                    }
                }
                or(&mut m.mask[di], &k);
            }
            Op::Fill(v) => {
                p.set_unauthed(*v);
                for d in 0..2 {
                    for i in 0..m.data[d].len() {
                        if !m.mask[d][i] {
                            m.data[d][i] = *v;
                        }
                    }
                }
            }
            Op::FillRange(v, d, a, b) => {
                let di = *d as usize;
                let n = data[di].len();
                let from = *a as usize % (n + 1);
                let to = from + *b as usize % (n - from + 1);
                p.set_unauthed_range(*v, dir(*d), from..to);
                for i in from..to {
                    if !m.mask[di][i] {
                        m.data[di][i] = *v;
                    }
                }
            }
            Op::Recode(json) => {
                p = if *json {
                    serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| format!("own JSON refused: {e}"))?
                } else {
                    dec(&enc(&p)).map_err(|e| format!("own encoding refused: {e}"))?
                };
                // Only authenticated bytes travel.
                for d in 0..2 {
                    for i in 0..m.data[d].len() {
                        if !m.mask[d][i] {
                            m.data[d][i] = 0;
                        }
                    }
                }
            }
        }
        m.check(&p)?;
    }
    cx.nontrivial(grew > 0 && h.ops.len() > 1 && m.mask.iter().flatten().any(|b| !b));
    cx.label_if(p.is_complete(), "complete");
    cx.label_if(h.ops.iter().any(|o| matches!(o, Op::Recode(_))), "encoded on the way");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bounds {
    lens: Lens,
    d: bool,
    picks: Picks,
    /// One more range, absolute, that may reach past the end.
    start: u32,
    len: u32,
}

fn bounds(b: &Bounds, cx: &mut Cx) -> CaseResult {
    let (s, r) = b.lens.data();
    let t = Transcript::new(s.clone(), r.clone());
    check_eq!(t.sent(), &s[..]);
    check_eq!(t.received(), &r[..]);
    check_eq!(t.len(), (s.len(), r.len()));
    check_eq!((t.length().sent as usize, t.length().received as usize), (s.len(), r.len()));
    let data = if b.d { &r } else { &s };
    let n = data.len();
    let start = n.saturating_sub(b.start as usize % 8) + (b.start as usize / 8) % 3;
    let mut v: Vec<_> = within(&b.picks, n).iter().collect();
    v.push(start..start + b.len as usize);
    let set = RangeSet::from(v);
    let inside = set.iter().all(|r| r.end <= n);
    cx.nontrivial(!set.is_empty());
    cx.label(if inside { "inside" } else { "outside" });
    let p = t.to_partial(RangeSet::default(), RangeSet::default());
    check_eq!(p.contains(dir(b.d), &set), inside, "contains({set:?}) of {n} bytes");
    match t.get(dir(b.d), &set) {
        Some(sub) => {
            check!(inside, "get accepted {set:?} of {n} bytes");
            check_eq!(sub.index(), &set);
            check_eq!(sub.data(), &pick_bytes(data, &mask(&set, n))[..], "bytes of {set:?}");
            check_eq!(sub.len(), set.len());
            let (i, d) = sub.clone().into_parts();
            check_eq!(Subsequence::new(i, d).map_err(|e| e.to_string())?, sub);
        }
        None => check!(!inside, "get refused {set:?} of {n} bytes"),
    }
    let e = RangeSet::default();
    let args = if b.d { (e, set.clone()) } else { (set.clone(), e) };
    let made = catch(|| t.to_partial(args.0, args.1));
    check_eq!(made.is_ok(), inside, "to_partial({set:?}) of {n} bytes");
    if let Ok(p) = made {
        let e = RangeSet::default();
        let sets = if b.d { [&e, &set] } else { [&set, &e] };
        model([&s, &r], sets).check(&p)?;
    }
    Ok(())
}

/// Bytes outside of the disclosed indices never influence what is handed out.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hidden {
    lens: Lens,
    sent: Picks,
    recv: Picks,
    other: u32,
    fill: u8,
}

fn hidden(h: &Hidden, cx: &mut Cx) -> CaseResult {
    let (s, r) = h.lens.data();
    let (s2, r2) = Lens { tag: h.other, ..h.lens.clone() }.data();
    let (a, b) = (within(&h.sent, s.len()), within(&h.recv, r.len()));
    let mix = |x: &[u8], y: &[u8], set: &RangeSet<usize>| -> Vec<u8> { mask(set, x.len()).iter().zip(x.iter().zip(y)).map(|(m, (x, y))| if *m { *x } else { *y }).collect() };
    let t1 = Transcript::new(s.clone(), r.clone());
    let t2 = Transcript::new(mix(&s, &s2, &a), mix(&r, &r2, &b));
    cx.nontrivial((t1.sent() != t2.sent() || t1.received() != t2.received()) && !(a.is_empty() && b.is_empty()));
    let p1 = t1.to_partial(a.clone(), b.clone());
    let mut p2 = t2.to_partial(a.clone(), b.clone());
    check_eq!(enc(&p1), enc(&p2), "two transcripts that agree on the disclosed bytes are told apart by the encoding");
    check_eq!(format!("{p1:?}"), format!("{p2:?}"), "told apart by the debug output");
    p2.set_unauthed(h.fill);
    check_eq!(enc(&p1), enc(&p2), "filler of unauthenticated bytes is encoded");
    check_eq!(serde_json::to_string(&p1).unwrap(), serde_json::to_string(&p2).unwrap(), "told apart by JSON");
    check_eq!(t1.get(Direction::Sent, &a), t2.get(Direction::Sent, &a));
    check_eq!(t1.get(Direction::Received, &b), t2.get(Direction::Received, &b));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unequal {
    a: Lens,
    sent: u16,
    recv: u16,
    picks: [Picks; 2],
}

fn unequal(u: &Unequal, cx: &mut Cx) -> CaseResult {
    let (s, r) = u.a.data();
    let t = Transcript::new(s.clone(), r.clone());
    let o = Lens { sent: u.sent, recv: u.recv, tag: u.a.tag };
    let (s2, r2) = o.data();
    let t2 = Transcript::new(s2.clone(), r2.clone());
    let p2 = t2.to_partial(within(&u.picks[0], s2.len()), within(&u.picks[1], r2.len()));
    let same = s.len() == s2.len() && r.len() == r2.len();
    cx.nontrivial(!same);
    let ok = catch(|| {
        let mut p = t.to_partial(RangeSet::default(), RangeSet::default());
        p.union_transcript(&p2);
    })
    .is_ok();
    check_eq!(ok, same, "union of a transcript of {}+{} bytes with one of {}+{}", s.len(), r.len(), s2.len(), r2.len());
    for d in [false, true] {
        let set = within(&u.picks[d as usize], if d { r2.len() } else { s2.len() });
        let sub = t2.get(dir(d), &set).unwrap();
        let n = if d { r.len() } else { s.len() };
        let fits = set.end().unwrap_or(0) <= n;
        cx.label_if(!fits, "subsequence past the end");
        let ok = catch(|| {
            let mut p = t.to_partial(RangeSet::default(), RangeSet::default());
            p.union_subsequence(dir(d), &sub);
        })
        .is_ok();
        check_eq!(ok, fits, "union of {set:?} into {n} bytes");
    }
    Ok(())
}

pub fn c30() -> Check {
    Check {
        id: "C30",
        rule: "histories that add bytes, have more than one step and leave some byte hidden; index sets that are not empty; disclosures where the hidden bytes really differ and something is disclosed; unions of transcripts of unequal length",
        assumptions: &["index sets come from a stand-in for the rangeset crate (core/shims/rangeset)"],
        laws: vec![
            law("history", cases(600_000), histories, history),
            law(
                "bounds",
                cases(600_000),
                || (lens(), any::<bool>(), picks(3), any::<u32>(), 0u32..6).prop_map(|(lens, d, picks, start, len)| Bounds { lens, d, picks, start, len }),
                bounds,
            ),
            law(
                "hidden",
                cases(400_000),
                || (lens(), picks(4), picks(4), any::<u32>(), any::<u8>()).prop_map(|(lens, sent, recv, other, fill)| Hidden { lens, sent, recv, other, fill }),
                hidden,
            ),
            law(
                "unequal",
                cases(240_000),
                || {
                    (lens(), any::<bool>(), any::<bool>(), 0u16..50, 0u16..50, picks(3), picks(3)).prop_map(|(a, ks, kr, s, r, x, y)| Unequal {
                        sent: if ks { a.sent } else { s },
                        recv: if kr { a.recv } else { r },
                        a,
                        picks: [x, y],
                    })
                },
                unequal,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C31

#[derive(Serialize)]
struct RawPartial {
    sent_authed: Vec<u8>,
    received_authed: Vec<u8>,
    sent_idx: RangeSet<usize>,
    recv_idx: RangeSet<usize>,
    sent_total: usize,
    recv_total: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Claim {
    data: [Bytes; 2],
    idx: [Vec<(u16, u16)>; 2],
    /// Use as many bytes as the index asks for.
    fit: [bool; 2],
    /// Total relative to the end of the index, or a huge total.
    total: [Result<i16, u64>; 2],
    json: bool,
}

fn claims() -> impl Strategy<Value = Claim> {
    let side = || {
        (
            sized_bytes(40),
            proptest::collection::vec((0u16..60, 0u16..12), 0..4),
            proptest::bool::weighted(0.8),
            // The largest totals cannot be allocated at all.
            prop_oneof![6 => Just(Ok(0i16)), 6 => (0i16..40).prop_map(Ok), 4 => (-3i16..0).prop_map(Ok), 1 => (0u64..5000).prop_map(|d| Err(u64::MAX - d)), 1 => (1u64 << 63..).prop_map(Err)],
        )
    };
    (side(), side(), any::<bool>()).prop_map(|(a, b, json)| Claim { data: [a.0, b.0], idx: [a.1, b.1], fit: [a.2, b.2], total: [a.3, b.3], json })
}

fn claim(c: &Claim, cx: &mut Cx) -> CaseResult {
    let mut idx = vec![];
    let mut data = vec![];
    let mut total = vec![];
    let mut valid = true;
    for d in 0..2 {
        let set = RangeSet::from(c.idx[d].iter().map(|&(a, n)| a as usize..a as usize + n as usize).collect::<Vec<_>>());
        let mut bytes = c.data[d].0.clone();
        if c.fit[d] {
            bytes = vpt::gen::filler(c.data[d].len() as u64 + 1, set.len());
        }
        let end = set.end().unwrap_or(0);
        let n = match c.total[d] {
            Ok(k) => (end as i64 + k as i64).max(0) as usize,
            Err(n) => n as usize,
        };
        valid &= bytes.len() == set.len() && end <= n && c.total[d].is_ok();
        idx.push(set);
        data.push(bytes);
        total.push(n);
    }
    let raw = RawPartial {
        sent_authed: data[0].clone(),
        received_authed: data[1].clone(),
        sent_idx: idx[0].clone(),
        recv_idx: idx[1].clone(),
        sent_total: total[0],
        recv_total: total[1],
    };
    cx.nontrivial(!idx[0].is_empty() || !idx[1].is_empty());
    cx.label(if valid { "valid" } else { "invalid" });
    cx.label_if(c.total.iter().any(|t| t.is_err()), "impossible total");
    let got: Result<PartialTranscript, String> = if c.json { serde_json::from_str(&serde_json::to_string(&raw).unwrap()).map_err(|e| e.to_string()) } else { dec(&enc(&raw)) };
    match got {
        Ok(p) => {
            check!(valid, "accepted {} sent bytes for {:?} of {}, {} received bytes for {:?} of {}", data[0].len(), idx[0], total[0], data[1].len(), idx[1], total[1]);
            let mut m = Model { data: [vec![], vec![]], mask: [vec![], vec![]] };
            for d in 0..2 {
                m.mask[d] = mask(&idx[d], total[d]);
                m.data[d] = vec![0; total[d]];
                let mut src = data[d].iter();
                for i in 0..total[d] {
                    if m.mask[d][i] {
                        m.data[d][i] = *src.next().unwrap();
                    }
                }
            }
            m.check(&p)?;
            if !c.json {
                check_eq!(enc(&p), enc(&raw), "encoding again gives other bytes");
            }
        }
        Err(e) => check!(!valid, "refused a consistent partial transcript: {e}"),
    }
    // The same for one subsequence.
    #[derive(Serialize)]
    struct RawSub {
        idx: RangeSet<usize>,
        data: Vec<u8>,
    }
    for d in 0..2 {
        let ok = idx[d].len() == data[d].len();
        let raw = RawSub { idx: idx[d].clone(), data: data[d].clone() };
        let got: Result<Subsequence, String> = dec(&enc(&raw));
        check_eq!(got.is_ok(), ok, "decoding a subsequence of {} bytes for {:?}", data[d].len(), idx[d]);
        let made = Subsequence::new(idx[d].clone(), data[d].clone());
        check_eq!(made.is_ok(), ok, "making a subsequence of {} bytes for {:?}", data[d].len(), idx[d]);
        if let (Ok(a), Ok(b)) = (got, made) {
            check_eq!(a, b);
            check_eq!(a.data(), &data[d][..]);
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    lens: Lens,
    sent: Picks,
    recv: Picks,
    what: u8,
    muts: Vec<Mutation>,
}

/// The totals an encoded partial transcript claims.
fn totals(b: &[u8]) -> Option<[u64; 2]> {
    let mut at = 0usize;
    let mut word = |skip: u64, width: u64| -> Option<u64> {
        at = at.checked_add(usize::try_from(skip.checked_mul(width)?).ok()?)?;
        let v = u64::from_le_bytes(b.get(at..at.checked_add(8)?)?.try_into().ok()?);
        at += 8;
        Some(v)
    };
    let n = word(0, 1)?;
    let n = word(n, 1)?;
    let n = word(n, 1)?;
    let n = word(n, 16)?;
    let sent = word(n, 16)?;
    Some([sent, word(0, 1)?])
}

/// No input makes decoding panic, and what decodes is consistent.
fn damaged(c: &Damaged, cx: &mut Cx) -> CaseResult {
    let (s, r) = c.lens.data();
    let (a, b) = (within(&c.sent, s.len()), within(&c.recv, r.len()));
    let t = Transcript::new(s, r);
    let secret = PlaintextHashSecret { direction: Direction::Sent, idx: a.clone(), alg: alg(c.what), blinder: blinder(7) };
    let hash = with_hasher(alg(c.what), |h| hash_plaintext(h, t.get(Direction::Sent, &a).unwrap().data(), &blinder(7)));
    let mut bytes = match c.what % 5 {
        0 => enc(&t.to_partial(a, b)),
        1 => enc(&t.get(Direction::Received, &b).unwrap()),
        2 => enc(&hash),
        3 => enc(&PlaintextHash { direction: Direction::Sent, idx: a, hash }),
        _ => enc(&(t.to_partial(a, b), vec![secret])),
    };
    let orig = bytes.clone();
    for m in &c.muts {
        m.apply(&mut bytes);
    }
    cx.nontrivial(bytes != orig);
    // A claimed total of some gigabytes would be allocated: keep such inputs
    // out, they say nothing about validity.
    if c.what % 5 == 0 || c.what % 5 == 4 {
        if let Some(t) = totals(&bytes) {
            if t.iter().any(|n| (1 << 24..1 << 32).contains(n)) {
                cx.label("skipped: large total");
                return Ok(());
            }
        }
    }
    let ok = match c.what % 5 {
        0 => match dec::<PartialTranscript>(&bytes) {
            Ok(p) => {
                check!(p.sent_authed().end().unwrap_or(0) <= p.len_sent(), "index past the end");
                check!(p.received_authed().end().unwrap_or(0) <= p.len_received(), "index past the end");
                check_eq!(p.iter(Direction::Sent).count(), p.sent_authed().len());
                check_eq!(p.iter(Direction::Received).count(), p.received_authed().len());
                let again: PartialTranscript = dec(&enc(&p))?;
                check_eq!(enc(&again), enc(&p));
                true
            }
            Err(_) => false,
        },
        1 => match dec::<Subsequence>(&bytes) {
            Ok(p) => {
                check_eq!(p.index().len(), p.data().len());
                true
            }
            Err(_) => false,
        },
        2 => match dec::<TypedHash>(&bytes) {
            Ok(h) => {
                check!(h.value.as_bytes().len() <= 64, "hash of {} bytes", h.value.as_bytes().len());
                true
            }
            Err(_) => false,
        },
        3 => dec::<PlaintextHash>(&bytes).is_ok(),
        _ => match dec::<TranscriptProof>(&bytes) {
            Ok(p) => {
                // No commitment exists: nothing may come out as authenticated.
                let l = t.length();
                if let Ok(p) = p.verify_with_provider(&HashProvider::default(), &l, &[]) {
                    check!(p.sent_authed().is_empty() && p.received_authed().is_empty(), "bytes authenticated without any commitment");
                }
                true
            }
            Err(_) => false,
        },
    };
    cx.label(if ok { "decoded" } else { "refused" });
    Ok(())
}

pub fn c31() -> Check {
    Check {
        id: "C31",
        rule: "claims that name at least one byte; encodings that the damage really changed",
        assumptions: &["how a malformed index set itself is refused belongs to the rangeset crate, for which a stand-in is used"],
        laws: vec![
            law("claim", cases(800_000), claims, claim),
            law(
                "damaged",
                cases(800_000),
                || (lens(), picks(3), picks(3), any::<u8>(), proptest::collection::vec(mutation(), 1..4)).prop_map(|(lens, sent, recv, what, muts)| Damaged { lens, sent, recv, what, muts }),
                damaged,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C32

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    alg: u8,
    leaves: u16,
    /// Leaves arrive in batches of these sizes.
    batches: Vec<u8>,
    dup: bool,
    chosen: Picks,
    how: Tamper,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Leaf(u8, u8, u8),
    OtherLeaf(u8, u8),
    Move(u8, u16),
    Drop(u8),
    Add(u16),
    /// A leaf of no tree at a position past its end, and a claimed count.
    Beyond(u32, Option<u16>, u8),
    Repeat(u8),
    Root(u8, u8),
    Count(i8),
    OtherTree,
    Hasher(u8),
    SwapTwo(u8, u8),
}

fn trees() -> impl Strategy<Value = Tree> {
    let how = prop_oneof![
        3 => any::<(u8, u8, u8)>().prop_map(|(a, b, c)| Tamper::Leaf(a, b, c)),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| Tamper::OtherLeaf(a, b)),
        2 => any::<(u8, u16)>().prop_map(|(a, b)| Tamper::Move(a, b)),
        2 => any::<u8>().prop_map(Tamper::Drop),
        2 => any::<u16>().prop_map(Tamper::Add),
        3 => (prop_oneof![2 => 0u32..40, 1 => any::<u32>()], proptest::option::weighted(0.2, 0u16..64), 0u8..12).prop_map(|(d, m, k)| Tamper::Beyond(d, m, k)),
        2 => any::<u8>().prop_map(Tamper::Repeat),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| Tamper::Root(a, b)),
        2 => (-3i8..4).prop_map(Tamper::Count),
        1 => Just(Tamper::OtherTree),
        1 => any::<u8>().prop_map(Tamper::Hasher),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| Tamper::SwapTwo(a, b)),
    ];
    (any::<u8>(), prop_oneof![4 => 1u16..10, 3 => 1u16..40, 1 => 1u16..300], proptest::collection::vec(1u8..20, 0..4), proptest::bool::weighted(0.1), picks(4), how)
        .prop_map(|(alg, leaves, batches, dup, chosen, how)| Tree { alg, leaves, batches, dup, chosen, how })
}

fn leaf(h: &dyn HashAlgorithm, tag: u64, i: usize) -> Hash {
    h.hash(&[tag.to_be_bytes(), (i as u64).to_be_bytes()].concat())
}

/// The root by its definition: pairs are hashed, an odd node moves up.
pub fn root_of(h: &dyn HashAlgorithm, leaves: &[Hash]) -> Hash {
    let mut level = leaves.to_vec();
    while level.len() > 1 {
        level = level.chunks(2).map(|c| if c.len() == 2 { h.hash(&[c[0].as_bytes(), c[1].as_bytes()].concat()) } else { c[0] }).collect();
    }
    level[0]
}

fn tree(t: &Tree, cx: &mut Cx) -> CaseResult {
    let a = alg(t.alg);
    let n = t.leaves as usize;
    with_hasher(a, |h| {
        let mut leaves: Vec<Hash> = (0..n).map(|i| leaf(h, 1, i)).collect();
        if t.dup && n > 1 {
            leaves[n - 1] = leaves[0];
        }
        let mut tree = MerkleTree::new(a);
        check_eq!(tree.algorithm(), a);
        let mut at = 0;
        for b in &t.batches {
            let to = (at + *b as usize).min(n);
            if at < to {
                tree.insert(h, leaves[at..to].to_vec());
                at = to;
            }
        }
        if at < n {
            tree.insert(h, leaves[at..].to_vec());
        }
        let root = tree.root();
        check_eq!(root.alg, a);
        check_eq!(root.value, root_of(h, &leaves), "root of {n} leaves");

        let mut idx: Vec<usize> = mask(&within(&t.chosen, n), n).iter().enumerate().filter(|(_, m)| **m).map(|(i, _)| i).collect();
        if idx.is_empty() {
            idx.push(t.alg as usize % n);
        }
        cx.label_if(idx.len() == n, "all leaves");
        let good: Vec<(usize, Hash)> = idx.iter().map(|i| (*i, leaves[*i])).collect();
        let proof = tree.proof(&idx);
        if let Err(e) = proof.verify(h, &root, good.clone()) {
            fail!("honest proof of {idx:?} of {n} leaves refused: {e}");
        }
        let mut rev = good.clone();
        rev.reverse();
        check!(proof.verify(h, &root, rev).is_ok(), "the order in which leaves are given matters");
        let coded: MerkleProof = dec(&enc(&proof))?;
        check!(coded.verify(h, &root, good.clone()).is_ok(), "proof of {idx:?} of {n} refused after encoding");
        let tree2: MerkleTree = dec(&enc(&tree))?;
        check_eq!(tree2.root(), root, "root after encoding");

        // Now something is wrong.
        let mut leaves_in = good.clone();
        let mut p = proof.clone();
        let mut r = root.clone();
        let mut other = a;
        let k = |i: u8| i as usize % good.len();
        let skip = match &t.how {
            Tamper::Leaf(i, b, x) => {
                let mut v: Vec<u8> = leaves_in[k(*i)].1.as_bytes().to_vec();
                let at = *b as usize % v.len();
                v[at] ^= if *x == 0 { 1 } else { *x };
                leaves_in[k(*i)].1 = Hash::try_from(v).unwrap();
                false
            }
            Tamper::OtherLeaf(i, j) => {
                let v = leaves[*j as usize % n];
                let same = leaves_in[k(*i)].1 == v;
                leaves_in[k(*i)].1 = v;
                same
            }
            Tamper::SwapTwo(i, j) => {
                let (x, y) = (leaves_in[k(*i)].1, leaves_in[k(*j)].1);
                leaves_in[k(*i)].1 = y;
                leaves_in[k(*j)].1 = x;
                x == y
            }
            Tamper::Move(i, to) => {
                let to = *to as usize % n;
                let same = leaves[to] == leaves_in[k(*i)].1;
                leaves_in[k(*i)].0 = to;
                same
            }
            Tamper::Drop(i) => {
                // What is left is true: it may be refused, but must not panic.
                leaves_in.remove(k(*i));
                                true
            }
            Tamper::Add(j) => {
                let j = *j as usize % n;
                leaves_in.push((j, if idx.contains(&j) { leaves[j] } else { leaf(h, 2, j) }));
                false
            }
            Tamper::Beyond(d, m, extra) => {
                leaves_in.push((n + *d as usize, leaf(h, 2, n)));
                let mut b = enc(&p);
                if let Some(m) = m {
                    b[1..9].copy_from_slice(&(*m as u64).to_le_bytes());
                }
                // Further hashes in the proof, of the prover's choice.
                let count = u64::from_le_bytes(b[9..17].try_into().unwrap()) + *extra as u64;
                b[9..17].copy_from_slice(&count.to_le_bytes());
                for i in 0..*extra {
                    b.extend(enc(&leaf(h, 4, i as usize)));
                }
                p = dec(&b)?;
                cx.label("a leaf past the end");
                false
            }
            Tamper::Repeat(i) => {
                leaves_in.push(good[k(*i)]);
                false
            }
            Tamper::Root(b, x) => {
                let mut v = r.value.as_bytes().to_vec();
                let at = *b as usize % v.len();
                v[at] ^= if *x == 0 { 0x80 } else { *x };
                r.value = Hash::try_from(v).unwrap();
                false
            }
            Tamper::Count(d) => {
                let m = (n as i64 + *d as i64).max(0) as u64;
                let mut b = enc(&p);
                b[1..9].copy_from_slice(&m.to_le_bytes());
                p = dec(&b)?;
                // A count that leaves the path of every chosen leaf alike is not
                // told apart by the proof itself.
                m == n as u64 || m as usize <= idx[idx.len() - 1] || same_paths(&idx, n, m as usize)
            }
            Tamper::OtherTree => {
                let mut t2 = MerkleTree::new(a);
                t2.insert(h, (0..n).map(|i| leaf(h, 3, i)).collect());
                p = t2.proof(&idx);
                // With all leaves given, the proof carries nothing.
                idx.len() == n || helpers_empty(&idx, n)
            }
            Tamper::Hasher(x) => {
                other = alg(*x);
                other == a || n == 1
            }
        };
        if skip {
            let verdict = with_hasher(other, |h| catch(|| p.verify(h, &r, leaves_in.clone()).is_ok()));
            check!(verdict.is_ok(), "verification of {:?} panics", t.how);
            cx.label("tampering without effect");
            return Ok(());
        }
        cx.nontrivial(true);
        let verdict = with_hasher(other, |h| catch(|| p.verify(h, &r, leaves_in.clone()).is_ok()));
        match verdict {
            Ok(ok) => check!(!ok, "accepted {:?} of {idx:?} in {n} leaves", t.how),
            Err(p) => fail!("verification of {:?} panics: {p}", t.how),
        }
        Ok(())
    })
}

fn helpers(idx: &[usize], n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut level: Vec<usize> = idx.to_vec();
    let mut w = n;
    while w > 1 {
        out.push(level.iter().map(|i| i ^ 1).filter(|s| *s < w && !level.contains(s)).collect::<Vec<_>>());
        level = level.iter().map(|i| i / 2).collect();
        level.dedup();
        w = w.div_ceil(2);
    }
    out
}

fn helpers_empty(idx: &[usize], n: usize) -> bool {
    helpers(idx, n).iter().all(|l| l.is_empty())
}

fn same_paths(idx: &[usize], n: usize, m: usize) -> bool {
    if m == 0 || idx.iter().any(|i| *i >= m) {
        return false;
    }
    // The computation over (idx, helpers): which positions are combined.
    fn shape(idx: &[usize], n: usize) -> Vec<Vec<(usize, bool)>> {
        let mut out = vec![];
        let mut level: Vec<usize> = idx.to_vec();
        let mut w = n;
        while w > 1 {
            let l: Vec<(usize, bool)> = level.iter().map(|i| (*i, (i ^ 1) < w)).filter(|(_, b)| *b).collect();
            if !l.is_empty() {
                out.push(l);
            } else {
                out.push(vec![]);
            }
            level = level.iter().map(|i| i / 2).collect();
            level.dedup();
            w = w.div_ceil(2);
        }
        while out.last().is_some_and(|l| l.is_empty()) {
            out.pop();
        }
        out
    }
    shape(idx, n) == shape(idx, m)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadIndices {
    leaves: u8,
    idx: Vec<u8>,
    alg: u8,
    other: u8,
}

fn bad_indices(b: &BadIndices, cx: &mut Cx) -> CaseResult {
    let a = alg(b.alg);
    let n = b.leaves as usize;
    with_hasher(a, |h| {
        let leaves: Vec<Hash> = (0..n).map(|i| leaf(h, 1, i)).collect();
        let mut tree = MerkleTree::new(a);
        tree.insert(h, leaves.clone());
        let idx: Vec<usize> = b.idx.iter().map(|i| *i as usize).collect();
        let sorted = idx.windows(2).all(|w| w[0] < w[1]);
        let inside = idx.iter().all(|i| *i < n);
        let valid = sorted && inside && !idx.is_empty();
        cx.nontrivial(!valid);
        cx.label(if valid { "valid" } else { "invalid" });
        let made = catch(|| tree.proof(&idx));
        check_eq!(made.is_ok(), valid, "proof of {idx:?} in {n} leaves");
        if let Ok(p) = made {
            check!(p.verify(h, &tree.root(), idx.iter().map(|i| (*i, leaves[*i]))).is_ok(), "honest proof of {idx:?} in {n} leaves refused");
        }
        let o = alg(b.other);
        let put = with_hasher(o, |h2| {
            catch(|| {
                let mut t = tree.clone();
                t.insert(h2, vec![leaf(h2, 9, 0)]);
            })
        });
        check_eq!(put.is_ok(), o == a, "insert with {o} into a tree of {a}");
        Ok(())
    })
}

pub fn c32() -> Check {
    Check {
        id: "C32",
        rule: "a proof whose leaves, positions, root, count or hash function were changed so that the statement is false; index lists that are not valid",
        assumptions: &["the tree itself comes from a stand-in for TLSNotary's fork of rs_merkle; the stand-in's own laws are part of the check", "hash functions do not collide on the generated inputs"],
        laws: vec![
            law("tree", cases(240_000), trees, tree),
            law(
                "indices",
                cases(160_000),
                || {
                    let idx = prop_oneof![2 => proptest::collection::vec(0u8..12, 0..5), 2 => proptest::collection::btree_set(0u8..12, 0..5).prop_map(|s| s.into_iter().collect::<Vec<_>>())];
                    (1u8..12, idx, any::<u8>(), any::<u8>()).prop_map(|(leaves, idx, alg, other)| BadIndices { leaves, idx, alg, other })
                },
                bad_indices,
            ),
        ],
    }
}

// ---------------------------------------------------------------- C36

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Digest {
    alg: u8,
    prefix: Bytes,
    data: Bytes,
    cut: u16,
    tag: u64,
}

fn digest(c: &Digest, cx: &mut Cx) -> CaseResult {
    let a = alg(c.alg);
    cx.nontrivial(!c.data.is_empty() && !c.prefix.is_empty());
    with_hasher(a, |h| {
        check_eq!(h.id(), a, "provider returns the algorithm asked for");
        let all = [&c.prefix[..], &c.data[..]].concat();
        let whole = h.hash(&all);
        check_eq!(h.hash_prefixed(&c.prefix, &c.data), whole, "prefix and data are hashed as one string");
        check_eq!(whole.as_bytes().len(), 32);
        let cut = c.cut as usize % (all.len() + 1);
        check_eq!(h.hash_prefixed(&all[..cut], &all[cut..]), whole);
        let want = match c.alg % 3 {
            0 => sha256(&all),
            1 => blake3_ref(&all),
            _ => keccak_ref(&all),
        };
        check_eq!(whole.as_bytes(), &want[..], "digest by {a}");
        let b = blinder(c.tag);
        let got = hash_plaintext(h, &c.data, &b);
        check_eq!(got.alg, a);
        check_eq!(got.value, h.hash(&[&c.data[..], b.as_bytes()].concat()), "plaintext commitment");
        // Binding: other data or another blinder gives another value.
        let b2 = blinder(c.tag.wrapping_add(1));
        check!(hash_plaintext(h, &c.data, &b2) != got, "blinder ignored");
        let mut d2 = c.data.0.clone();
        if !d2.is_empty() {
            let at = c.cut as usize % d2.len();
            d2[at] ^= 1;
            check!(hash_plaintext(h, &d2, &b) != got, "data ignored");
        }
        // Values survive their encodings, and carry their length.
        let v: Vec<u8> = whole.into();
        check_eq!(Hash::try_from(v.clone()).unwrap(), whole);
        check_eq!(dec::<TypedHash>(&enc(&got))?, got);
        check_eq!(serde_json::from_str::<TypedHash>(&serde_json::to_string(&got).unwrap()).unwrap(), got);
        Ok(())
    })
}

fn blake3_ref(d: &[u8]) -> Vec<u8> {
    blake3::hash(d).as_bytes().to_vec()
}

fn keccak_ref(d: &[u8]) -> Vec<u8> {
    use tiny_keccak::Hasher;
    let mut k = tiny_keccak::Keccak::v256();
    k.update(d);
    let mut out = vec![0; 32];
    k.finalize(&mut out);
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Values {
    bytes: Bytes,
    id: u8,
    ids: Vec<u8>,
}

fn values(v: &Values, cx: &mut Cx) -> CaseResult {
    let n = v.bytes.len();
    let ok = n <= 64;
    cx.nontrivial(n > 0);
    cx.label(if ok { "fits" } else { "too long" });
    let got = Hash::try_from(v.bytes.0.clone());
    check_eq!(got.is_ok(), ok, "a hash of {n} bytes");
    let raw = enc(&v.bytes.0);
    let dcd = dec::<Hash>(&raw);
    check_eq!(dcd.is_ok(), ok, "decoding a hash of {n} bytes");
    let js = serde_json::from_str::<Hash>(&serde_json::to_string(&v.bytes.0).unwrap());
    check_eq!(js.is_ok(), ok, "decoding a hash of {n} bytes from JSON");
    if let Ok(h) = got {
        check_eq!(h.as_bytes(), &v.bytes.0[..]);
        check_eq!(dcd.unwrap(), h);
        check_eq!(js.unwrap(), h);
        check_eq!(enc(&h), raw);
        check_eq!(Vec::<u8>::from(h), v.bytes.0);
        // Length is part of the value.
        if n < 64 {
            let mut longer = v.bytes.0.clone();
            longer.push(0);
            check!(Hash::try_from(longer).unwrap() != h, "a trailing zero does not count");
        }
    }
    let made = catch(|| HashAlgId::new(v.id));
    check_eq!(made.is_ok(), v.id >= 128, "algorithm id {}", v.id);
    if let Ok(id) = made {
        check_eq!(id.as_u8(), v.id);
    }
    // A provider knows exactly its algorithms.
    struct Named(HashAlgId, u8);
    impl HashAlgorithm for Named {
        fn id(&self) -> HashAlgId {
            self.0
        }
        fn hash(&self, _: &[u8]) -> Hash {
            Hash::try_from(vec![self.1]).unwrap()
        }
        fn hash_prefixed(&self, _: &[u8], _: &[u8]) -> Hash {
            Hash::try_from(vec![self.1]).unwrap()
        }
    }
    let mut p = HashProvider::default();
    let mut known = std::collections::BTreeMap::new();
    for (k, i) in v.ids.iter().enumerate() {
        let id = HashAlgId::new(*i | 128);
        p.set_algorithm(id, Box::new(Named(id, k as u8)));
        known.insert(*i | 128, k as u8);
    }
    for i in 0..=255u8 {
        let id: HashAlgId = dec(&[i])?;
        let got = p.get(&id).map(|h| h.hash(b"x"));
        match known.get(&i) {
            Some(k) => check_eq!(got.map(|h| h.as_bytes().to_vec()).map_err(|e| e.to_string())?, vec![*k], "algorithm {i}"),
            None => check_eq!(got.is_ok(), (1..=3).contains(&i), "algorithm {i}"),
        }
    }
    Ok(())
}

/// Secrets never print themselves.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Printed {
    tag: u64,
    lens: Lens,
    picks: Picks,
}

fn printed(c: &Printed, cx: &mut Cx) -> CaseResult {
    let (s, r) = c.lens.data();
    cx.nontrivial(s.len() > 3);
    let t = Transcript::new(s.clone(), r.clone());
    let zero = Transcript::new(vec![0; s.len()], vec![0; r.len()]);
    check_eq!(format!("{t:?}"), format!("{zero:?}"), "a transcript prints its bytes");
    check_eq!(format!("{:?}", blinder(c.tag)), format!("{:?}", blinder(c.tag + 1)), "a blinder prints its bytes");
    let idx = within(&c.picks, s.len());
    let sec = |t| PlaintextHashSecret { direction: Direction::Sent, idx: idx.clone(), alg: alg(t as u8), blinder: blinder(t) };
    check_eq!(format!("{:?}", sec(c.tag)), format!("{:?}", sec(c.tag + 3)), "an opening prints its blinder");
    let b: Blinded<u32> = Blinded::new(5);
    let b2: Blinded<u32> = Blinded::new(5);
    check_eq!(*b.data(), 5);
    check!(enc(&b) != enc(&b2), "two blinded values share their blinder");
    check_eq!(format!("{b:?}"), format!("{b2:?}"), "a blinded value prints its blinder");
    let again: Blinded<u32> = dec(&enc(&b))?;
    check_eq!(enc(&again), enc(&b));
    let x: Blinder = rand::random();
    let y: Blinder = rand::random();
    check!(x.as_bytes() != y.as_bytes(), "random blinders repeat");
    check!(x.as_bytes().iter().any(|b| *b != 0) && x.as_bytes()[8..].iter().any(|b| *b != 0), "random blinder is not filled");
    Ok(())
}

pub fn c36() -> Check {
    Check {
        id: "C36",
        rule: "digests of a non-empty prefix and non-empty data; hash values that are not empty; transcripts of more than three bytes",
        assumptions: &["BLAKE3 and Keccak come from stand-ins that carry the published test vectors; SHA-256 is compared with OpenSSL"],
        laws: vec![
            law(
                "digest",
                cases(400_000),
                || (any::<u8>(), sized_bytes(80), prop_oneof![3 => sized_bytes(300), 1 => sized_bytes(5000)], any::<u16>(), any::<u64>()).prop_map(|(alg, prefix, data, cut, tag)| Digest { alg, prefix, data, cut, tag }),
                digest,
            ),
            law("values", cases(120_000), || (vpt::gen::bytes(0..70), any::<u8>(), proptest::collection::vec(any::<u8>(), 0..4)).prop_map(|(bytes, id, ids)| Values { bytes, id, ids }), values),
            law("printed", cases(80_000), || (0u64..1 << 40, lens(), picks(3)).prop_map(|(tag, lens, picks)| Printed { tag, lens, picks }), printed),
        ],
    }
}
