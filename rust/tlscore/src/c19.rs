//! C19: the random material made for a session is fresh and fills what it is to fill.
//!
//! Every judgement is one a fair source fails with a probability below 2^-60 per run.

use proptest::prelude::*;
use std::{
    collections::HashSet,
    process::Command,
    sync::{Mutex, OnceLock},
};
use tls_core::{
    msgs::{
        codec::Codec,
        handshake::{Random, SessionID},
    },
    rand::{fill_random, random_u32, random_vec},
};
use vpt::{cases, check, check_eq, exhaustive, gen::near, law, CaseResult, Check, Cx};

const CHILD: &str = "VPT_C19_CHILD";

#[derive(Debug, Clone, Copy, PartialEq, serde::Serialize, serde::Deserialize)]
enum Source {
    /// A part of a buffer, `at` bytes in and followed by `after` more.
    Fill { at: u8, after: u8 },
    Vec,
    Random,
    RandomBytes { at: u8 },
    Session,
    U32,
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct Draws {
    source: Source,
    len: u16,
    guard: u8,
    /// Draw in this many threads.
    threads: u8,
}

fn draws() -> impl Strategy<Value = Draws> {
    let source = prop_oneof![
        3 => (0u8..20, 0u8..20).prop_map(|(at, after)| Source::Fill { at, after }),
        3 => Just(Source::Vec),
        2 => Just(Source::Random),
        1 => (0u8..20).prop_map(|at| Source::RandomBytes { at }),
        2 => Just(Source::Session),
        1 => Just(Source::U32),
    ];
    (source, near(&[0, 1, 4, 8, 12, 16, 32, 64, 256, 1024], 2, 1100), any::<u8>(), 1u8..4)
        .prop_map(|(source, len, guard, threads)| Draws { source, len: len as u16, guard, threads })
}

/// One draw, as the bytes it yields; what surrounds them must be left alone.
fn draw(d: &Draws) -> Result<Vec<u8>, String> {
    let e = |e| format!("no randomness: {e:?}");
    Ok(match d.source {
        Source::Fill { at, after } => {
            let (at, n) = (at as usize, d.len as usize);
            let mut b = vec![d.guard; at + n + after as usize];
            fill_random(&mut b[at..at + n]).map_err(e)?;
            if b[..at].iter().chain(&b[at + n..]).any(|&x| x != d.guard) {
                return Err("bytes outside the given slice were written".into());
            }
            b[at..at + n].to_vec()
        }
        Source::Vec => random_vec(d.len as usize).map_err(e)?,
        Source::Random => {
            let r = Random::new().map_err(e)?;
            if r.get_encoding() != r.0 {
                return Err("the random is encoded as something else".into());
            }
            r.0.to_vec()
        }
        Source::RandomBytes { at } => {
            let r = Random::new().map_err(e)?;
            let at = at as usize;
            let mut b = vec![d.guard; at + 32 + 7];
            r.write_slice(&mut b[at..at + 32]);
            if b[..at].iter().chain(&b[at + 32..]).any(|&x| x != d.guard) || b[at..at + 32] != r.0 {
                return Err("the random is written as something else".into());
            }
            b[at..at + 32].to_vec()
        }
        Source::Session => {
            let s = SessionID::random().map_err(e)?;
            let b = s.get_encoding();
            if s.is_empty() || s.len() != 32 || b[0] as usize != 32 || b.len() != 33 {
                return Err(format!("a random session id of {} bytes, encoded in {}", s.len(), b.len()));
            }
            b[1..].to_vec()
        }
        Source::U32 => random_u32().map_err(e)?.to_be_bytes().to_vec(),
    })
}

fn want(d: &Draws) -> usize {
    match d.source {
        Source::Fill { .. } | Source::Vec => d.len as usize,
        Source::U32 => 4,
        _ => 32,
    }
}

/// All blocks of 16 bytes seen in this process.
fn seen() -> &'static Mutex<HashSet<[u8; 16]>> {
    static S: OnceLock<Mutex<HashSet<[u8; 16]>>> = OnceLock::new();
    S.get_or_init(Default::default)
}

const N: usize = 128;

fn test(d: &Draws, cx: &mut Cx) -> CaseResult {
    let n = want(d);
    cx.nontrivial(n > 0);
    cx.label(match d.source {
        Source::Fill { .. } => "a slice",
        Source::Vec => "a vector",
        Source::Random | Source::RandomBytes { .. } => "a hello random",
        Source::Session => "a session id",
        Source::U32 => "a number",
    });
    cx.label_if(d.threads > 1, "several threads");
    let t = d.threads as usize;
    let all: Vec<Result<Vec<u8>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..t)
            .map(|i| s.spawn(move || (0..N / t + (i < N % t) as usize).map(|_| draw(d)).collect::<Vec<_>>()))
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![Err("panicked".into())])).collect()
    });
    let all = all.into_iter().collect::<Result<Vec<_>, _>>()?;
    check_eq!(all.len(), N, "draws");
    for v in &all {
        check_eq!(v.len(), n, "bytes drawn");
    }
    // Every bit of every byte takes both values over the draws, and no more often than a fair coin would.
    for i in 0..n {
        for bit in 0..8 {
            let ones = all.iter().filter(|v| v[i] >> bit & 1 == 1).count();
            check!((1..N).contains(&ones), "bit {bit} of byte {i} of {n} is the same in all {N} draws");
        }
    }
    let (ones, bits) = (all.iter().flatten().map(|b| b.count_ones() as f64).sum::<f64>(), (N * n * 8) as f64);
    check!((ones - bits / 2.0).abs() <= 6.0 * bits.sqrt(), "{ones} of {bits} bits are set");
    // No two bytes of a draw, and no two neighbouring draws, are copies of each other.
    for i in 1..n {
        check!(all.iter().any(|v| v[i] != v[i - 1]), "byte {i} of {n} repeats the one before it");
    }
    if n >= 16 {
        // No block of 16 bytes recurs, be it within a draw, over the draws, the threads or the sources.
        let mut s = seen().lock().unwrap_or_else(|e| e.into_inner());
        if s.len() > 4_000_000 {
            s.clear();
        }
        for v in &all {
            for b in v.chunks_exact(16) {
                check!(s.insert(b.try_into().unwrap()), "a block of 16 bytes was drawn twice");
            }
        }
    }
    // All values of a byte occur once there are enough of them.
    if N * n >= 1 << 15 {
        let mut c = [0usize; 256];
        all.iter().flatten().for_each(|b| c[*b as usize] += 1);
        check!(c.iter().all(|&c| c > 0), "some byte values are never drawn");
    }
    Ok(())
}

/// What a new process draws first: run when the program is started as a child of this check.
pub fn child() {
    if std::env::var_os(CHILD).is_none() {
        return;
    }
    let mut out = vec![];
    out.extend(Random::new().unwrap().0);
    out.extend(&SessionID::random().unwrap().get_encoding()[1..]);
    out.extend(random_vec(32).unwrap());
    let mut b = [0; 32];
    fill_random(&mut b).unwrap();
    out.extend(b);
    for _ in 0..8 {
        out.extend(random_u32().unwrap().to_be_bytes());
    }
    println!("{}", hex::encode(out));
    std::process::exit(0)
}

fn processes(n: &u8, cx: &mut Cx) -> CaseResult {
    cx.nontrivial(true);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut blocks = HashSet::new();
    for _ in 0..*n {
        let o = Command::new(&exe).env(CHILD, "1").output().map_err(|e| e.to_string())?;
        check!(o.status.success(), "a new process could not draw");
        let v = hex::decode(String::from_utf8_lossy(&o.stdout).trim()).map_err(|e| e.to_string())?;
        check_eq!(v.len(), 160, "bytes drawn by a new process");
        for b in v.chunks_exact(16) {
            check!(blocks.insert(b.to_vec()), "two new processes drew the same 16 bytes");
        }
    }
    Ok(())
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        rule: "at least one byte is drawn",
        assumptions: &["each judgement is one that a fair source of bits fails with probability below 2^-60 in a run"],
        laws: vec![
            law("fresh", cases(3000), draws, test),
            exhaustive("new processes", || vec![2u8, 8, 16, 32], processes),
        ],
    }
}
