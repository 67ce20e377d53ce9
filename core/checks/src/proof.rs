//! C33 building transcript proofs, C34 verifying them, C35 commitment requests.

use std::collections::{BTreeMap, BTreeSet};

use proptest::prelude::*;
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use tlsn_core::{
    connection::TranscriptLength,
    hash::{HashAlgId, HashProvider},
    transcript::{
        hash::{hash_plaintext, PlaintextHash, PlaintextHashSecret},
        Direction, PartialTranscript, Transcript, TranscriptCommitConfig, TranscriptCommitConfigBuilder, TranscriptCommitRequest, TranscriptCommitment, TranscriptCommitmentKind, TranscriptProof,
        TranscriptProofBuilder, TranscriptSecret,
    },
};
use vpt::{cases, catch, check, check_eq, fail, law, CaseResult, Check, Cx};

use crate::util::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Commit {
    pub dir: bool,
    pub idx: Picks,
    pub alg: u8,
}

pub fn commits(max: usize) -> impl Strategy<Value = Vec<Commit>> + Clone {
    let c = (any::<bool>(), picks(3), any::<u8>()).prop_map(|(dir, idx, alg)| Commit { dir, idx, alg });
    vpt::gen::many(c, 1..6, max)
}

/// What the prover holds.
pub struct Holder {
    pub t: Transcript,
    pub data: [Vec<u8>; 2],
    pub idx: Vec<RangeSet<usize>>,
    pub secrets: Vec<TranscriptSecret>,
    pub commitments: Vec<TranscriptCommitment>,
}

impl Holder {
    pub fn new(lens: &Lens, commits: &[Commit]) -> Holder {
        let (s, r) = lens.data();
        let t = Transcript::new(s.clone(), r.clone());
        let data = [s, r];
        let mut h = Holder { t, data, idx: vec![], secrets: vec![], commitments: vec![] };
        for (k, c) in commits.iter().enumerate() {
            let d = &h.data[c.dir as usize];
            let idx = within(&c.idx, d.len());
            let b = blinder(k as u64 + 100);
            let a = alg(c.alg);
            let bytes = pick_bytes(d, &mask(&idx, d.len()));
            let hash = with_hasher(a, |x| hash_plaintext(x, &bytes, &b));
            h.secrets.push(TranscriptSecret::Hash(PlaintextHashSecret { direction: dir(c.dir), idx: idx.clone(), alg: a, blinder: b }));
            h.commitments.push(TranscriptCommitment::Hash(PlaintextHash { direction: dir(c.dir), idx: idx.clone(), hash }));
            h.idx.push(idx);
        }
        h
    }
}

pub fn same_transcript(a: &PartialTranscript, b: &PartialTranscript) -> bool {
    a.sent_unsafe() == b.sent_unsafe() && a.received_unsafe() == b.received_unsafe() && a.sent_authed() == b.sent_authed() && a.received_authed() == b.received_authed()
}

// ---------------------------------------------------------------- C33

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ask {
    /// Any ranges.
    Free(bool, Picks),
    /// The ranges of the given commitments.
    Of(Vec<u8>),
    /// Some of what is committed to.
    Part(bool, Picks),
    /// A range that may reach past the end.
    Edge(bool, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Query {
    lens: Lens,
    commits: Vec<Commit>,
    asks: Vec<Ask>,
    kinds: Option<Vec<u8>>,
}

fn queries() -> impl Strategy<Value = Query> {
    let ask = prop_oneof![
        1 => (any::<bool>(), picks(2)).prop_map(|(d, p)| Ask::Free(d, p)),
        6 => proptest::collection::vec(any::<u8>(), 1..4).prop_map(Ask::Of),
        2 => (any::<bool>(), picks(2)).prop_map(|(d, p)| Ask::Part(d, p)),
        1 => (any::<bool>(), any::<u8>()).prop_map(|(d, p)| Ask::Edge(d, p)),
    ];
    (lens(), commits(12), proptest::collection::vec(ask, 1..4), proptest::option::weighted(0.4, proptest::collection::vec(any::<u8>(), 0..5)))
        .prop_map(|(lens, commits, asks, kinds)| Query { lens, commits, asks, kinds })
}

fn query(q: &Query, cx: &mut Cx) -> CaseResult {
    let h = Holder::new(&q.lens, &q.commits);
    let lens = [h.data[0].len(), h.data[1].len()];
    let mut committed = [vec![false; lens[0]], vec![false; lens[1]]];
    for (c, idx) in q.commits.iter().zip(&h.idx) {
        or(&mut committed[c.dir as usize], &mask(idx, lens[c.dir as usize]));
    }
    let mut b = TranscriptProofBuilder::new(&h.t, &h.secrets);
    let mut order: Vec<HashAlgId> = ALGS.to_vec();
    if let Some(k) = &q.kinds {
        let kinds: Vec<TranscriptCommitmentKind> = k.iter().map(|a| TranscriptCommitmentKind::Hash { alg: alg(*a) }).collect();
        b.commitment_kinds(&kinds);
        if !k.is_empty() {
            order = vec![];
            for a in k {
                if !order.contains(&alg(*a)) {
                    order.push(alg(*a));
                }
            }
        }
    }
    // Ask.
    let mut want = [vec![false; lens[0]], vec![false; lens[1]]];
    for a in &q.asks {
        let mut todo: Vec<(usize, RangeSet<usize>)> = vec![];
        match a {
            Ask::Free(d, p) => todo.push((*d as usize, within(p, lens[*d as usize]))),
            Ask::Of(ks) => {
                for k in ks {
                    if !h.idx.is_empty() {
                        let k = *k as usize % h.idx.len();
                        todo.push((q.commits[k].dir as usize, h.idx[k].clone()));
                    }
                }
            }
            Ask::Part(d, p) => {
                let d = *d as usize;
                let mut m = mask(&within(p, lens[d]), lens[d]);
                for (x, y) in m.iter_mut().zip(&committed[d]) {
                    *x &= *y;
                }
                todo.push((d, set_of(&m)));
            }
            Ask::Edge(d, p) => {
                let d = *d as usize;
                let end = lens[d] + *p as usize % 3;
                todo.push((d, RangeSet::from(end.saturating_sub(1 + *p as usize / 3 % 4)..end)));
            }
        }
        for (n, (d, set)) in todo.into_iter().enumerate() {
            let inside = set.end().unwrap_or(0) <= lens[d];
            let m = mask(&set, lens[d]);
            let ok = inside && subset(&m, &committed[d]);
            let got = match n % 3 {
                0 => b.reveal(&set, dir(d == 1)).map(|_| ()),
                _ if d == 0 => b.reveal_sent(&set).map(|_| ()),
                _ => b.reveal_recv(&set).map(|_| ()),
            };
            check_eq!(got.is_ok(), ok, "reveal of {set:?} of {} bytes, committed {:?}: {:?}", lens[d], set_of(&committed[d]), got.map_err(|e| e.to_string()));
            if ok {
                or(&mut want[d], &m);
            } else {
                cx.label(if inside { "reveal: not committed" } else { "reveal: out of bounds" });
            }
        }
    }
    let sets = [set_of(&want[0]), set_of(&want[1])];
    // Possible at all: the commitments of the listed kinds that lie inside the
    // query reach all of it.
    let usable: Vec<usize> = (0..q.commits.len()).filter(|&k| order.contains(&alg(q.commits[k].alg)) && subset(&mask(&h.idx[k], lens[q.commits[k].dir as usize]), &want[q.commits[k].dir as usize])).collect();
    let mut reach = [vec![false; lens[0]], vec![false; lens[1]]];
    for &k in &usable {
        or(&mut reach[q.commits[k].dir as usize], &mask(&h.idx[k], lens[q.commits[k].dir as usize]));
    }
    let possible = (0..2).all(|d| subset(&want[d], &reach[d]));
    // Certain: taking the kinds in order of preference, each over what is left.
    let mut left = want.clone();
    for a in &order {
        for d in 0..2 {
            let mut got = vec![false; lens[d]];
            for k in 0..q.commits.len() {
                let m = mask(&h.idx[k], lens[d]);
                if q.commits[k].dir as usize == d && alg(q.commits[k].alg) == *a && subset(&m, &left[d]) {
                    or(&mut got, &m);
                }
            }
            for (l, g) in left[d].iter_mut().zip(&got) {
                *l &= !*g;
            }
        }
    }
    let certain = left.iter().flatten().all(|l| !l);
    let empty = want.iter().flatten().all(|l| !l);
    let built = b.build();
    let proof = match built {
        Err(e) => {
            check!(!certain, "no proof although the commitments cover the query: {e}");
            cx.label("cannot be covered");
            cx.nontrivial(true);
            return Ok(());
        }
        Ok(p) => p,
    };
    check!(possible, "a proof of {sets:?} although the commitments do not cover it");
    cx.nontrivial(!empty);
    cx.label(if empty { "nothing revealed" } else { "revealed" });
    cx.label_if(order.len() < 3, "fewer kinds");

    // Only openings inside of the query travel, and only their blinders.
    let bytes = enc(&proof);
    for (k, c) in q.commits.iter().enumerate() {
        let b = blinder(k as u64 + 100);
        if bytes.windows(16).any(|w| w == b.as_bytes()) {
            check!(usable.contains(&k), "the opening of {:?} ({}) travels with a proof of {sets:?}", h.idx[k], c.dir);
        }
    }
    // Nothing about hidden bytes travels.
    let other = {
        let mut d2 = h.data.clone();
        for d in 0..2 {
            for (b, w) in d2[d].iter_mut().zip(&want[d]) {
                if !w {
                    *b ^= 0x5a;
                }
            }
        }
        let t2 = Transcript::new(d2[0].clone(), d2[1].clone());
        let mut b2 = TranscriptProofBuilder::new(&t2, &h.secrets);
        if let Some(k) = &q.kinds {
            b2.commitment_kinds(&k.iter().map(|a| TranscriptCommitmentKind::Hash { alg: alg(*a) }).collect::<Vec<_>>());
        }
        b2.reveal_sent(&sets[0]).map_err(|e| e.to_string())?;
        b2.reveal_recv(&sets[1]).map_err(|e| e.to_string())?;
        enc(&b2.build().map_err(|e| format!("revealing the same ranges in one call: {e}"))?)
    };
    check_eq!(bytes, other, "hidden bytes influence the proof");

    // The verifier obtains exactly the query.
    let provider = HashProvider::default();
    for coded in [false, true] {
        let p: TranscriptProof = if coded { dec(&bytes)? } else { proof.clone() };
        let out = p.verify_with_provider(&provider, &h.t.length(), &h.commitments).map_err(|e| format!("own proof of {sets:?} refused: {e}"))?;
        check!(same_transcript(&out, &h.t.to_partial(sets[0].clone(), sets[1].clone())), "verified transcript is not the query {sets:?}: {out:?}");
    }
    Ok(())
}

pub fn c33() -> Check {
    Check {
        id: "C33",
        rule: "queries that reveal at least one byte or that must be refused",
        assumptions: &["index sets come from a stand-in for the rangeset crate; its greedy cover may pick other openings than the real one, which the laws do not depend on"],
        laws: vec![law("query", cases(300_000), queries, query)],
    }
}

// ---------------------------------------------------------------- C34

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bend {
    None,
    /// One revealed byte changes.
    Byte(bool, u16, u8),
    /// The proof claims more indices as authenticated.
    Claim(bool, Picks),
    /// ... or fewer.
    Unclaim(bool, u16),
    Blinder(u8, u8),
    Alg(u8, u8),
    Dir(u8),
    Idx(u8, Picks),
    DropOpening(u8),
    RepeatOpening(u8),
    /// An opening made up for claimed data.
    Forge(bool, Picks, u8),
    UnknownAlg(u8, u8),
    PastEnd(u8, u8),
    /// The verifier's view differs.
    Length(i8, i8),
    DropCommitment(u8),
    CommitmentHash(u8, u8, u8),
    CommitmentIdx(u8, Picks),
    CommitmentDir(u8),
    NoCommitments,
    Total(bool, i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attack {
    lens: Lens,
    commits: Vec<Commit>,
    open: Vec<u8>,
    bend: Vec<Bend>,
}

fn attacks() -> impl Strategy<Value = Attack> {
    let b = prop_oneof![
        1 => Just(Bend::None),
        3 => any::<(bool, u16, u8)>().prop_map(|(a, b, c)| Bend::Byte(a, b, c)),
        3 => (any::<bool>(), picks(2)).prop_map(|(a, b)| Bend::Claim(a, b)),
        2 => any::<(bool, u16)>().prop_map(|(a, b)| Bend::Unclaim(a, b)),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| Bend::Blinder(a, b)),
        2 => any::<(u8, u8)>().prop_map(|(a, b)| Bend::Alg(a, b)),
        2 => any::<u8>().prop_map(Bend::Dir),
        2 => (any::<u8>(), picks(2)).prop_map(|(a, b)| Bend::Idx(a, b)),
        2 => any::<u8>().prop_map(Bend::DropOpening),
        1 => any::<u8>().prop_map(Bend::RepeatOpening),
        2 => (any::<bool>(), picks(2), any::<u8>()).prop_map(|(a, b, c)| Bend::Forge(a, b, c)),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| Bend::UnknownAlg(a, b)),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| Bend::PastEnd(a, b)),
        2 => (-2i8..3, -2i8..3).prop_map(|(a, b)| Bend::Length(a, b)),
        2 => any::<u8>().prop_map(Bend::DropCommitment),
        2 => any::<(u8, u8, u8)>().prop_map(|(a, b, c)| Bend::CommitmentHash(a, b, c)),
        2 => (any::<u8>(), picks(2)).prop_map(|(a, b)| Bend::CommitmentIdx(a, b)),
        1 => any::<u8>().prop_map(Bend::CommitmentDir),
        1 => Just(Bend::NoCommitments),
        1 => (any::<bool>(), -2i8..3).prop_map(|(a, b)| Bend::Total(a, b)),
    ];
    (lens(), commits(6), proptest::collection::vec(any::<u8>(), 0..4), proptest::collection::vec(b, 0..3)).prop_map(|(lens, commits, open, bend)| Attack { lens, commits, open, bend })
}

/// The proof as the parts that are encoded.
#[derive(Clone, Serialize, Deserialize)]
pub struct RawProof {
    pub sent_authed: Vec<u8>,
    pub received_authed: Vec<u8>,
    pub sent_idx: RangeSet<usize>,
    pub recv_idx: RangeSet<usize>,
    pub sent_total: usize,
    pub recv_total: usize,
    pub hash_secrets: Vec<PlaintextHashSecret>,
}

fn attack(a: &Attack, cx: &mut Cx) -> CaseResult {
    let h = Holder::new(&a.lens, &a.commits);
    // What the proof says: data, claimed indices, openings.
    let mut data = h.data.clone();
    let mut claim = [vec![false; data[0].len()], vec![false; data[1].len()]];
    let mut open: Vec<PlaintextHashSecret> = vec![];
    for k in &a.open {
        if let Some(n) = (!h.secrets.is_empty()).then(|| *k as usize % h.secrets.len()) {
            let TranscriptSecret::Hash(s) = &h.secrets[n] else { unreachable!() };
            let d = (s.direction == Direction::Received) as usize;
            or(&mut claim[d], &mask(&s.idx, data[d].len()));
            open.push(s.clone());
        }
    }
    let mut commitments: Vec<PlaintextHash> = h
        .commitments
        .iter()
        .map(|c| match c {
            TranscriptCommitment::Hash(h) => h.clone(),
            _ => unreachable!(),
        })
        .collect();
    let mut length = h.t.length();
    let mut total = [data[0].len(), data[1].len()];
    for b in &a.bend {
        let ko = |k: u8, n: usize| if n == 0 { None } else { Some(k as usize % n) };
        match b {
            Bend::None => {}
            Bend::Byte(d, i, x) => {
                let d = *d as usize;
                let on: Vec<usize> = (0..data[d].len()).filter(|i| claim[d][*i]).collect();
                if !on.is_empty() {
                    data[d][on[*i as usize % on.len()]] ^= (*x).max(1);
                }
            }
            Bend::Claim(d, p) => {
                let d = *d as usize;
                let m = mask(&within(p, data[d].len()), data[d].len());
                or(&mut claim[d], &m);
            }
            Bend::Unclaim(d, i) => {
                let d = *d as usize;
                if !claim[d].is_empty() {
                    let i = *i as usize % claim[d].len();
                    claim[d][i] = false;
                }
            }
            Bend::Blinder(k, _) => {
                if let Some(k) = ko(*k, open.len()) {
                    open[k].blinder = blinder(9999);
                }
            }
            Bend::Alg(k, x) => {
                if let Some(k) = ko(*k, open.len()) {
                    open[k].alg = alg(*x);
                }
            }
            Bend::UnknownAlg(k, x) => {
                if let Some(k) = ko(*k, open.len()) {
                    open[k].alg = HashAlgId::new(*x | 128);
                }
            }
            Bend::Dir(k) => {
                if let Some(k) = ko(*k, open.len()) {
                    open[k].direction = dir(open[k].direction == Direction::Sent);
                }
            }
            Bend::Idx(k, p) => {
                if let Some(k) = ko(*k, open.len()) {
                    let d = (open[k].direction == Direction::Received) as usize;
                    open[k].idx = within(p, data[d].len());
                }
            }
            Bend::PastEnd(k, x) => {
                if let Some(k) = ko(*k, open.len()) {
                    let n = data[(open[k].direction == Direction::Received) as usize].len();
                    let mut v: Vec<_> = open[k].idx.iter().collect();
                    v.push(n..n + 1 + *x as usize % 4);
                    open[k].idx = RangeSet::from(v);
                }
            }
            Bend::DropOpening(k) => {
                if let Some(k) = ko(*k, open.len()) {
                    open.remove(k);
                }
            }
            Bend::RepeatOpening(k) => {
                if let Some(k) = ko(*k, open.len()) {
                    let o = open[k].clone();
                    open.push(o);
                }
            }
            Bend::Forge(d, p, x) => {
                let di = *d as usize;
                let idx = within(p, data[di].len());
                or(&mut claim[di], &mask(&idx, data[di].len()));
                open.push(PlaintextHashSecret { direction: dir(*d), idx, alg: alg(*x), blinder: blinder(777) });
            }
            Bend::Length(s, r) => {
                let f = |n: u32, k: i8| (n as i64 + k as i64).max(0) as u32;
                length = TranscriptLength { sent: f(length.sent, *s), received: f(length.received, *r) };
            }
            Bend::DropCommitment(k) => {
                if let Some(k) = ko(*k, commitments.len()) {
                    commitments.remove(k);
                }
            }
            Bend::CommitmentHash(k, i, x) => {
                if let Some(k) = ko(*k, commitments.len()) {
                    let mut v = commitments[k].hash.value.as_bytes().to_vec();
                    let n = v.len();
                    v[*i as usize % n] ^= (*x).max(1);
                    commitments[k].hash.value = v.try_into().unwrap();
                }
            }
            Bend::CommitmentIdx(k, p) => {
                if let Some(k) = ko(*k, commitments.len()) {
                    let d = (commitments[k].direction == Direction::Received) as usize;
                    commitments[k].idx = within(p, data[d].len());
                }
            }
            Bend::CommitmentDir(k) => {
                if let Some(k) = ko(*k, commitments.len()) {
                    commitments[k].direction = dir(commitments[k].direction == Direction::Sent);
                }
            }
            Bend::NoCommitments => commitments.clear(),
            Bend::Total(d, k) => {
                let d = *d as usize;
                let end = claim[d].iter().rposition(|m| *m).map_or(0, |i| i + 1);
                total[d] = ((total[d] as i64 + *k as i64).max(0) as usize).max(end);
            }
        }
    }
    // The verdict that the statement calls for.
    let provider = HashProvider::default();
    let mut view = [vec![0u8; total[0]], vec![0u8; total[1]]];
    for d in 0..2 {
        for i in 0..total[d].min(claim[d].len()) {
            if claim[d][i] {
                view[d][i] = data[d][i];
            }
        }
    }
    let mut opened = [vec![false; total[0]], vec![false; total[1]]];
    let mut every = true;
    for o in &open {
        let d = (o.direction == Direction::Received) as usize;
        if o.idx.end().unwrap_or(0) > total[d] {
            every = false;
            continue;
        }
        let m = mask(&o.idx, total[d]);
        let bytes = pick_bytes(&view[d], &m);
        let hit = ALGS.contains(&o.alg)
            && commitments.iter().any(|c| c.direction == o.direction && c.idx == o.idx && c.hash.alg == o.alg && with_hasher(o.alg, |h| hash_plaintext(h, &bytes, &o.blinder)) == c.hash);
        every &= hit;
        or(&mut opened[d], &m);
    }
    let mut claimed = [vec![false; total[0]], vec![false; total[1]]];
    for d in 0..2 {
        for i in 0..total[d].min(claim[d].len()) {
            claimed[d][i] = claim[d][i];
        }
    }
    let fits = length.sent as usize == total[0] && length.received as usize == total[1];
    let expect = every && fits && opened == claimed;

    let sets = [set_of(&claimed[0]), set_of(&claimed[1])];
    let raw = RawProof {
        sent_authed: pick_bytes(&view[0], &claimed[0]),
        received_authed: pick_bytes(&view[1], &claimed[1]),
        sent_idx: sets[0].clone(),
        recv_idx: sets[1].clone(),
        sent_total: total[0],
        recv_total: total[1],
        hash_secrets: open.clone(),
    };
    let proof: TranscriptProof = dec(&enc(&raw)).map_err(|e| format!("well-formed proof does not decode: {e}"))?;
    let list: Vec<TranscriptCommitment> = commitments.iter().cloned().map(TranscriptCommitment::Hash).collect();
    let got = catch(|| proof.verify_with_provider(&provider, &length, &list).map_err(|e| e.to_string()));
    let some = claimed.iter().flatten().any(|m| *m);
    cx.nontrivial(some || !expect);
    cx.label(match (expect, some) {
        (true, true) => "accepted, bytes",
        (true, false) => "accepted, nothing",
        _ => "refused",
    });
    match got {
        Err(p) => fail!("verification panics: {p}"),
        Ok(Ok(out)) => {
            check!(expect, "accepted: openings valid {every}, length fits {fits}, opened {:?}, claimed {:?}", [set_of(&opened[0]), set_of(&opened[1])], sets);
            check_eq!(out.sent_unsafe(), &view[0][..]);
            check_eq!(out.received_unsafe(), &view[1][..]);
            check_eq!(out.sent_authed(), &sets[0]);
            check_eq!(out.received_authed(), &sets[1]);
        }
        Ok(Err(e)) => check!(!expect, "refused a proof of {sets:?} whose openings all match: {e}"),
    }
    Ok(())
}

pub fn c34() -> Check {
    Check {
        id: "C34",
        rule: "proofs that claim at least one byte, or that must be refused",
        assumptions: &["hash functions do not collide on the generated inputs"],
        laws: vec![law("attack", cases(400_000), attacks, attack)],
    }
}

// ---------------------------------------------------------------- C35

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Config {
    lens: Lens,
    steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Default(u8),
    Commit { how: u8, dir: bool, idx: Picks, past: u8, alg: u8 },
    /// Repeats an earlier commitment.
    Again(u8),
}

fn configs() -> impl Strategy<Value = Config> {
    let step = prop_oneof![
        1 => any::<u8>().prop_map(Step::Default),
        6 => (0u8..3, any::<bool>(), picks(3), prop_oneof![6 => Just(0u8), 1 => 1u8..4], any::<u8>()).prop_map(|(how, dir, idx, past, alg)| Step::Commit { how, dir, idx, past, alg }),
        1 => any::<u8>().prop_map(Step::Again),
    ];
    (lens(), vpt::gen::many(step, 0..8, 40)).prop_map(|(lens, steps)| Config { lens, steps })
}

type Key = (bool, Vec<(usize, usize)>, u8);

fn key(d: Direction, s: &RangeSet<usize>, a: HashAlgId) -> Key {
    (d == Direction::Received, s.iter().map(|r| (r.start, r.end)).collect(), a.as_u8())
}

fn config(c: &Config, cx: &mut Cx) -> CaseResult {
    let (s, r) = c.lens.data();
    let t = Transcript::new(s.clone(), r.clone());
    let mut b = if c.lens.tag % 2 == 0 { TranscriptCommitConfig::builder(&t) } else { TranscriptCommitConfigBuilder::new(&t) };
    let mut default = HashAlgId::BLAKE3;
    let mut want: BTreeSet<Key> = BTreeSet::new();
    let mut done: Vec<(bool, RangeSet<usize>, HashAlgId)> = vec![];
    for st in &c.steps {
        match st {
            Step::Default(a) => {
                default = alg(*a);
                b.default_kind(TranscriptCommitmentKind::Hash { alg: default });
            }
            Step::Commit { how, dir: d, idx, past, alg: a } => {
                let n = if *d { r.len() } else { s.len() };
                let mut v: Vec<_> = within(idx, n).iter().collect();
                if *past > 0 {
                    v.push(n..n + *past as usize);
                }
                let set = RangeSet::from(v);
                let (got, used) = match how {
                    0 => (b.commit_with_kind(&set, dir(*d), TranscriptCommitmentKind::Hash { alg: alg(*a) }).map(|_| ()), alg(*a)),
                    1 => (b.commit(&set, dir(*d)).map(|_| ()), default),
                    _ if *d => (b.commit_recv(&set).map(|_| ()), default),
                    _ => (b.commit_sent(&set).map(|_| ()), default),
                };
                check_eq!(got.is_ok(), *past == 0, "commitment to {set:?} of {n} bytes");
                if *past == 0 {
                    want.insert(key(dir(*d), &set, used));
                    done.push((*d, set, used));
                } else {
                    cx.label("out of bounds");
                }
            }
            Step::Again(k) => {
                if !done.is_empty() {
                    let (d, set, a) = done[*k as usize % done.len()].clone();
                    b.commit_with_kind(&set, dir(d), TranscriptCommitmentKind::Hash { alg: a }).map_err(|e| e.to_string())?;
                    cx.label("repeated");
                }
            }
        }
    }
    cx.nontrivial(want.len() > 1);
    let cfg = b.build().map_err(|e| e.to_string())?;
    let cfg2: TranscriptCommitConfig = dec(&enc(&cfg))?;
    for (name, cfg) in [("configuration", &cfg), ("configuration after encoding", &cfg2)] {
        let got: Vec<Key> = cfg.iter_hash().map(|((d, s), a)| key(*d, s, *a)).collect();
        check_eq!(got.iter().cloned().collect::<BTreeSet<_>>(), want, "{name}");
        check_eq!(got.len(), want.len(), "{name} repeats a commitment");
        check_eq!(cfg.has_hash(), !want.is_empty());
        let req = cfg.to_request();
        let req2: TranscriptCommitRequest = dec(&enc(&req))?;
        for req in [req, req2] {
            let keys: Vec<Key> = req.iter_hash().map(|(d, s, a)| key(*d, s, *a)).collect();
            check_eq!(keys, got, "request of the {name}");
            check_eq!(req.has_hash(), !want.is_empty());
        }
    }
    // Opening everything the configuration commits to is always possible.
    let mut secrets = vec![];
    let mut commitments = vec![];
    let mut cover: BTreeMap<bool, Vec<std::ops::Range<usize>>> = BTreeMap::new();
    for (k, ((d, set), a)) in cfg.iter_hash().enumerate() {
        let bl = blinder(k as u64);
        let sub = t.get(*d, set).ok_or("committed indices out of bounds")?;
        commitments.push(TranscriptCommitment::Hash(PlaintextHash { direction: *d, idx: set.clone(), hash: with_hasher(*a, |h| hash_plaintext(h, sub.data(), &bl)) }));
        secrets.push(TranscriptSecret::Hash(PlaintextHashSecret { direction: *d, idx: set.clone(), alg: *a, blinder: bl }));
        cover.entry(*d == Direction::Received).or_default().extend(set.iter());
    }
    for ((d, set), a) in cfg.iter_hash() {
        let mut pb = TranscriptProofBuilder::new(&t, &secrets);
        pb.commitment_kinds(&[TranscriptCommitmentKind::Hash { alg: *a }]);
        pb.reveal(set, *d).map_err(|e| e.to_string())?;
        let p = pb.build().map_err(|e| format!("a committed range cannot be revealed alone: {e}"))?;
        let out = p.verify_with_provider(&HashProvider::default(), &t.length(), &commitments).map_err(|e| e.to_string())?;
        let e = RangeSet::default();
        let want = if *d == Direction::Sent { t.to_partial(set.clone(), e) } else { t.to_partial(e, set.clone()) };
        check!(same_transcript(&out, &want), "revealed {set:?}, verified {out:?}");
    }
    Ok(())
}

pub fn c35() -> Check {
    Check {
        id: "C35",
        rule: "configurations with at least two different commitments",
        assumptions: &[],
        laws: vec![law("config", cases(60_000), configs, config)],
    }
}
