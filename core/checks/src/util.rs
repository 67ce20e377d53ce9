//! Shared pieces: index sets as plain data, hash algorithms, encodings.

use proptest::prelude::*;
use rangeset::set::RangeSet;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use tlsn_core::{
    hash::{Blinder, HashAlgId, HashAlgorithm, HashProvider},
    transcript::Direction,
};
use vpt::gen::filler;

/// Ranges as (start, length), reduced to a length on use.
pub type Picks = Vec<(u32, u32)>;

pub fn picks(max: usize) -> impl Strategy<Value = Picks> + Clone {
    proptest::collection::vec(
        prop_oneof![
            8 => (0u32..70, 0u32..24),
            2 => (0u32..70, Just(1)),
            1 => (Just(0u32), 0u32..4096),
            1 => (0u32..5000, 0u32..3000),
        ],
        0..=max,
    )
}

/// The set named by `picks` within `0..n`.
pub fn within(picks: &[(u32, u32)], n: usize) -> RangeSet<usize> {
    RangeSet::from(
        picks
            .iter()
            .map(|&(a, b)| {
                let s = a as usize % (n + 1);
                s..s + b as usize % (n - s + 1)
            })
            .collect::<Vec<_>>(),
    )
}

pub fn set_of(mask: &[bool]) -> RangeSet<usize> {
    RangeSet::from((0..mask.len()).filter(|&i| mask[i]).map(|i| i..i + 1).collect::<Vec<_>>())
}

pub fn mask(s: &RangeSet<usize>, n: usize) -> Vec<bool> {
    let mut m = vec![false; n];
    for r in s.iter() {
        for i in r {
            if i < n {
                m[i] = true;
            }
        }
    }
    m
}

pub fn or(a: &mut [bool], b: &[bool]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x |= *y;
    }
}

pub fn subset(a: &[bool], b: &[bool]) -> bool {
    a.iter().zip(b).all(|(x, y)| !x || *y)
}

pub fn pick_bytes(data: &[u8], m: &[bool]) -> Vec<u8> {
    data.iter().zip(m).filter(|(_, m)| **m).map(|(b, _)| *b).collect()
}

/// Transcript data: a length and a tag that determines the bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lens {
    pub sent: u16,
    pub recv: u16,
    pub tag: u32,
}

impl Lens {
    pub fn data(&self) -> (Vec<u8>, Vec<u8>) {
        (filler(self.tag as u64, self.sent as usize), filler(self.tag as u64 ^ 0xabcdef, self.recv as usize))
    }
}

pub fn lens() -> impl Strategy<Value = Lens> + Clone {
    let n = prop_oneof![1 => Just(0u16), 2 => 1u16..4, 10 => 0u16..48, 2 => 0u16..300, 1 => 0u16..4200];
    (n.clone(), n, any::<u32>()).prop_map(|(sent, recv, tag)| Lens { sent, recv, tag })
}

pub fn dir(d: bool) -> Direction {
    if d {
        Direction::Received
    } else {
        Direction::Sent
    }
}

pub const ALGS: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];

pub fn alg(i: u8) -> HashAlgId {
    ALGS[i as usize % 3]
}

/// Order-independent evaluation of a hash with the default provider.
pub fn with_hasher<T>(a: HashAlgId, f: impl FnOnce(&dyn HashAlgorithm) -> T) -> T {
    thread_local!(static P: HashProvider = HashProvider::default());
    P.with(|p| f(p.get(&a).expect("built-in algorithm")))
}

pub fn blinder(tag: u64) -> Blinder {
    let b: [u8; 16] = filler(tag ^ 0x5151, 16).try_into().unwrap();
    bincode::deserialize(&b).unwrap()
}

pub fn enc<T: Serialize>(t: &T) -> Vec<u8> {
    bincode::serialize(t).unwrap()
}

pub fn dec<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    bincode::deserialize(b).map_err(|e| e.to_string())
}

/// Reference hashes that share no code with the crates under test.
pub fn sha256(data: &[u8]) -> Vec<u8> {
    openssl::sha::sha256(data).to_vec()
}
