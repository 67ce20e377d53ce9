//! BLAKE3 in hash mode with 32 bytes of output, after the reference implementation.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const CHUNK_START: u32 = 1;
const CHUNK_END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}

fn compress(cv: &[u32; 8], block: &[u8; 64], len: u32, counter: u64, flags: u32) -> [u32; 8] {
    let mut m = [0u32; 16];
    for (i, w) in m.iter_mut().enumerate() {
        *w = u32::from_le_bytes(block[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut s = [
        cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], counter as u32, (counter >> 32) as u32, len, flags,
    ];
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 {
            let old = m;
            for i in 0..16 {
                m[i] = old[PERM[i]];
            }
        }
    }
    core::array::from_fn(|i| s[i] ^ s[i + 8])
}

fn chunk(data: &[u8], index: u64, root: u32) -> [u32; 8] {
    let blocks = data.len().div_ceil(64).max(1);
    let mut cv = IV;
    for i in 0..blocks {
        let part = &data[64 * i..data.len().min(64 * i + 64)];
        let mut block = [0; 64];
        block[..part.len()].copy_from_slice(part);
        let mut flags = 0;
        if i == 0 {
            flags |= CHUNK_START;
        }
        if i == blocks - 1 {
            flags |= CHUNK_END | root;
        }
        cv = compress(&cv, &block, part.len() as u32, index, flags);
    }
    cv
}

fn tree(data: &[u8], first: u64, root: u32) -> [u32; 8] {
    if data.len() <= 1024 {
        return chunk(data, first, root);
    }
    // The left subtree takes the largest power of two of chunks that leaves something.
    let left = 1usize << (usize::BITS - 1 - ((data.len() - 1) / 1024).leading_zeros());
    let l = tree(&data[..left * 1024], first, 0);
    let r = tree(&data[left * 1024..], first + left as u64, 0);
    let mut block = [0; 64];
    for i in 0..8 {
        block[4 * i..4 * i + 4].copy_from_slice(&l[i].to_le_bytes());
        block[32 + 4 * i..36 + 4 * i].copy_from_slice(&r[i].to_le_bytes());
    }
    compress(&IV, &block, 64, 0, PARENT | root)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}

pub fn hash(data: &[u8]) -> Hash {
    let w = tree(data, 0, ROOT);
    let mut out = [0; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes());
    }
    Hash(out)
}

#[derive(Clone, Default, Debug)]
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn update(&mut self, data: &[u8]) -> &mut Self {
        self.0.extend_from_slice(data);
        self
    }
    pub fn finalize(&self) -> Hash {
        hash(&self.0)
    }
}

#[test]
fn vectors() {
    // From the official test vectors: input byte i is i % 251.
    let input = |n: usize| (0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>();
    assert_eq!(hash(b"").0[..4], [0xaf, 0x13, 0x49, 0xb9]);
    assert_eq!(hash(&input(1)).0[..4], [0x2d, 0x3a, 0xde, 0xdf]);
    assert_eq!(hash(&input(1024)).0[..4], [0x42, 0x21, 0x47, 0x39]);
    assert_eq!(hash(&input(1025)).0[..4], [0xd0, 0x02, 0x78, 0xae]);
    assert_eq!(hash(&input(2048)).0[..4], [0xe7, 0x76, 0xb6, 0x02]);
    assert_eq!(hash(&input(2049)).0[..4], [0x5f, 0x4d, 0x72, 0xf4]);
}
