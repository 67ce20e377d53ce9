//! Shared generators.

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

/// Byte strings, serialised as hex.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Bytes(pub Vec<u8>);

impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", to_hex(&self.0))
    }
}
impl std::ops::Deref for Bytes {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(v: Vec<u8>) -> Self {
        Bytes(v)
    }
}
pub fn to_hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn from_hex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&to_hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        from_hex(&s).map(Bytes).ok_or_else(|| serde::de::Error::custom("hex"))
    }
}

pub fn bytes(r: impl Into<proptest::collection::SizeRange>) -> impl Strategy<Value = Bytes> + Clone {
    vec(any::<u8>(), r).prop_map(Bytes)
}

/// A list that is mostly short and now and then long.
pub fn many<S: Strategy + Clone>(elem: S, typical: std::ops::Range<usize>, max: usize) -> impl Strategy<Value = Vec<S::Value>> + Clone
where
    S::Value: Clone,
{
    let lo = typical.start;
    prop_oneof![14 => vec(elem.clone(), typical), 1 => vec(elem, lo..=max)]
}

/// Byte strings of any length up to `max`: often empty, often short.
pub fn sized_bytes(max: usize) -> impl Strategy<Value = Bytes> + Clone {
    prop_oneof![2 => Just(Bytes(vec![])), 3 => bytes(0..4), 4 => bytes(0..=max.min(48)), 4 => bytes(0..=max)]
}

/// Byte strings with a skew to interesting bytes.
pub fn spiky_bytes(r: impl Into<proptest::collection::SizeRange>) -> impl Strategy<Value = Bytes> + Clone {
    vec(prop_oneof![4 => any::<u8>(), 1 => Just(0u8), 1 => Just(0xffu8), 1 => Just(1u8), 1 => Just(3u8)], r).prop_map(Bytes)
}

/// A length around one of the given boundaries.
pub fn near(bounds: &'static [usize], slack: usize, max: usize) -> impl Strategy<Value = usize> + Clone {
    (proptest::sample::select(bounds), 0..=2 * slack).prop_map(move |(b, d)| (b + d).saturating_sub(slack).min(max))
}

/// Deterministic filler of a given length derived from a tag: keeps large
/// payloads cheap to generate, serialise and shrink.
pub fn filler(tag: u64, len: usize) -> Vec<u8> {
    let mut x = tag.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut out = Vec::with_capacity(len);
    while out.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        out.extend_from_slice(&x.to_le_bytes());
    }
    out.truncate(len);
    out
}

/// A way to damage a byte string.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mutation {
    FlipBit(u32, u8),
    Set(u32, u8),
    Truncate(u32),
    Append(Bytes),
    Insert(u32, u8),
    Remove(u32),
    Bump16(u32, i16),
    Swap(u32, u32),
}

impl Mutation {
    pub fn apply(&self, v: &mut Vec<u8>) {
        let n = v.len();
        let at = |i: u32, n: usize| if n == 0 { 0 } else { i as usize % n };
        match self {
            Mutation::FlipBit(i, b) if n > 0 => v[at(*i, n)] ^= 1 << (b % 8),
            Mutation::Set(i, b) if n > 0 => v[at(*i, n)] = *b,
            Mutation::Truncate(i) => v.truncate(at(*i, n + 1)),
            Mutation::Append(b) => v.extend_from_slice(b),
            Mutation::Insert(i, b) => v.insert(at(*i, n + 1), *b),
            Mutation::Remove(i) if n > 0 => {
                v.remove(at(*i, n));
            }
            Mutation::Bump16(i, d) if n > 1 => {
                let p = at(*i, n - 1);
                let x = u16::from_be_bytes([v[p], v[p + 1]]).wrapping_add(*d as u16);
                v[p..p + 2].copy_from_slice(&x.to_be_bytes());
            }
            Mutation::Swap(i, j) if n > 0 => v.swap(at(*i, n), at(*j, n)),
            _ => {}
        }
    }
}

pub fn mutation() -> impl Strategy<Value = Mutation> + Clone {
    prop_oneof![
        4 => (any::<u32>(), 0u8..8).prop_map(|(i, b)| Mutation::FlipBit(i, b)),
        3 => (any::<u32>(), prop_oneof![any::<u8>(), Just(0), Just(255), Just(1), Just(2)]).prop_map(|(i, b)| Mutation::Set(i, b)),
        2 => any::<u32>().prop_map(Mutation::Truncate),
        1 => bytes(1..8).prop_map(Mutation::Append),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(i, b)| Mutation::Insert(i, b)),
        1 => any::<u32>().prop_map(Mutation::Remove),
        3 => (any::<u32>(), prop_oneof![Just(1i16), Just(-1i16), Just(2i16), Just(-2i16), any::<i16>()]).prop_map(|(i, d)| Mutation::Bump16(i, d)),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(i, j)| Mutation::Swap(i, j)),
    ]
}
