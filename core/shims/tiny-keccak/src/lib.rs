//! Keccak-256 (original padding) with the interface of tiny-keccak.
const RC: [u64; 24] = [
    1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88,
    0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002,
    0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];

fn keccak_f(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PI[i]];
            a[PI[i]] = last.rotate_left(RHO[i]);
            last = t;
        }
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}

#[derive(Clone)]
pub struct Keccak {
    state: [u64; 25],
    pos: usize,
    rate: usize,
}

impl Keccak {
    pub fn v256() -> Self {
        Keccak { state: [0; 25], pos: 0, rate: 136 }
    }
    fn xor(&mut self, at: usize, b: u8) {
        self.state[at / 8] ^= (b as u64) << (8 * (at % 8));
    }
}

impl Hasher for Keccak {
    fn update(&mut self, input: &[u8]) {
        for b in input {
            self.xor(self.pos, *b);
            self.pos += 1;
            if self.pos == self.rate {
                keccak_f(&mut self.state);
                self.pos = 0;
            }
        }
    }
    fn finalize(mut self, output: &mut [u8]) {
        self.xor(self.pos, 1);
        self.xor(self.rate - 1, 0x80);
        let mut produced = 0;
        while produced < output.len() {
            keccak_f(&mut self.state);
            for i in 0..self.rate.min(output.len() - produced) {
                output[produced + i] = (self.state[i / 8] >> (8 * (i % 8))) as u8;
            }
            produced += self.rate.min(output.len() - produced);
        }
    }
}

#[test]
fn vectors() {
    let mut out = [0; 32];
    Keccak::v256().finalize(&mut out);
    assert_eq!(out[..4], [0xc5, 0xd2, 0x46, 0x01]);
    let mut k = Keccak::v256();
    k.update(b"abc");
    k.finalize(&mut out);
    assert_eq!(out[..4], [0x4e, 0x03, 0x65, 0x7a]);
}
