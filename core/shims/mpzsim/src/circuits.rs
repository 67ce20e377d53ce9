//! mpz-circuits: boolean circuits, by gates or (SHA-256, AES) as functions.
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    marker::PhantomData,
    sync::{Arc, LazyLock},
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Feed;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Sink;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node<T> {
    id: u32,
    _t: PhantomData<T>,
}
#[derive(Debug, Clone, Copy, Hash)]
enum Gate {
    In(u32),
    Xor(u32, u32),
    And(u32, u32),
    Inv(u32),
    Id(u32),
}
#[derive(Clone)]
enum Body {
    /// One wire per gate.
    Gates(Vec<Gate>, Vec<u32>),
    Bytes(fn(&[u8]) -> Vec<u8>),
}
pub struct Circuit {
    inputs: usize,
    outputs: usize,
    body: Body,
    print: u64,
}
impl std::fmt::Debug for Circuit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Circuit({} -> {})", self.inputs, self.outputs)
    }
}
fn print(h: impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
impl Circuit {
    pub fn native(name: &str, inputs: usize, outputs: usize, f: fn(&[u8]) -> Vec<u8>) -> Self {
        Circuit { inputs: inputs * 8, outputs: outputs * 8, body: Body::Bytes(f), print: print((name, inputs, outputs)) }
    }
    pub fn inputs(&self) -> usize {
        self.inputs
    }
    pub fn outputs(&self) -> usize {
        self.outputs
    }
    pub fn fingerprint(&self) -> u64 {
        self.print
    }
    /// Evaluates over bits (bit 0: value, bit 1: known to this party).
    pub fn eval(&self, input: &[u8]) -> Vec<u8> {
        assert_eq!(input.len(), self.inputs);
        match &self.body {
            Body::Gates(gates, outs) => {
                let mut w: Vec<u8> = Vec::with_capacity(gates.len());
                for g in gates {
                    w.push(match *g {
                        Gate::In(i) => input[i as usize],
                        Gate::Xor(a, b) => {
                            let (a, b) = (w[a as usize], w[b as usize]);
                            (a ^ b) & 1 | a & b & 2
                        }
                        Gate::And(a, b) => w[a as usize] & w[b as usize],
                        Gate::Inv(a) => w[a as usize] ^ 1,
                        Gate::Id(a) => w[a as usize],
                    });
                }
                outs.iter().map(|&o| w[o as usize]).collect()
            }
            Body::Bytes(f) => {
                let known = input.iter().all(|b| b & 2 != 0);
                let bytes: Vec<u8> =
                    input.chunks(8).map(|c| c.iter().enumerate().fold(0, |v, (i, b)| v | (b & 1) << i)).collect();
                let out = f(&bytes);
                assert_eq!(out.len() * 8, self.outputs);
                out.iter().flat_map(|v| (0..8).map(move |i| (v >> i & 1) | (known as u8) << 1)).collect()
            }
        }
    }
}

#[derive(Debug, thiserror::Error)]
#[error("builder error")]
pub struct BuilderError;
#[derive(Default)]
pub struct CircuitBuilder {
    inputs: u32,
    gates: Vec<Gate>,
    outs: Vec<u32>,
}
impl CircuitBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add_input(&mut self) -> Node<Feed> {
        self.inputs += 1;
        self.gate(Gate::In(self.inputs - 1))
    }
    fn gate(&mut self, g: Gate) -> Node<Feed> {
        self.gates.push(g);
        Node { id: self.gates.len() as u32 - 1, _t: PhantomData }
    }
    pub fn add_xor_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> {
        self.gate(Gate::Xor(a.id, b.id))
    }
    pub fn add_and_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> {
        self.gate(Gate::And(a.id, b.id))
    }
    pub fn add_inv_gate(&mut self, a: Node<Feed>) -> Node<Feed> {
        self.gate(Gate::Inv(a.id))
    }
    pub fn add_id_gate(&mut self, a: Node<Feed>) -> Node<Feed> {
        self.gate(Gate::Id(a.id))
    }
    pub fn add_output(&mut self, a: Node<Feed>) {
        self.outs.push(a.id);
    }
    pub fn build(self) -> Result<Circuit, BuilderError> {
        if self.inputs == 0 || self.outs.is_empty() {
            return Err(BuilderError);
        }
        let print = print((self.inputs, &self.gates, &self.outs));
        Ok(Circuit { inputs: self.inputs as usize, outputs: self.outs.len(), body: Body::Gates(self.gates, self.outs), print })
    }
}

pub mod circuits {
    use super::*;
    /// Two inputs of `n` bits, and their sum without carries.
    pub fn xor(n: usize) -> Circuit {
        let mut b = CircuitBuilder::new();
        let a: Vec<_> = (0..n).map(|_| b.add_input()).collect();
        let c: Vec<_> = (0..n).map(|_| b.add_input()).collect();
        for (a, c) in a.into_iter().zip(c) {
            let o = b.add_xor_gate(a, c);
            b.add_output(o);
        }
        b.build().unwrap()
    }
}
pub mod ops {
    use super::*;
    type N = Node<Feed>;
    /// `a - b`, and whether that is below zero.
    fn sub(c: &mut CircuitBuilder, a: &[N], b: &[N]) -> (Vec<N>, N) {
        let mut out = vec![];
        let mut borrow: Option<N> = None;
        for (&a, &b) in a.iter().zip(b) {
            let x = c.add_xor_gate(a, b);
            let na = c.add_inv_gate(a);
            let t = c.add_and_gate(na, b);
            match borrow {
                None => {
                    out.push(x);
                    borrow = Some(t);
                }
                Some(w) => {
                    out.push(c.add_xor_gate(x, w));
                    let nx = c.add_inv_gate(x);
                    let u = c.add_and_gate(nx, w);
                    borrow = Some(c.add_xor_gate(t, u));
                }
            }
        }
        (out, borrow.unwrap())
    }
    fn add(c: &mut CircuitBuilder, a: &[N], b: &[N]) -> Vec<N> {
        let mut out = vec![];
        let mut carry: Option<N> = None;
        for (&a, &b) in a.iter().zip(b) {
            let x = c.add_xor_gate(a, b);
            let t = c.add_and_gate(a, b);
            match carry {
                None => {
                    out.push(x);
                    carry = Some(t);
                }
                Some(w) => {
                    out.push(c.add_xor_gate(x, w));
                    let u = c.add_and_gate(x, w);
                    carry = Some(c.add_xor_gate(t, u));
                }
            }
        }
        out.push(carry.unwrap());
        out
    }
    /// `a + b mod m` for `a`, `b` below `m` (least significant bit first).
    pub fn add_mod(c: &mut CircuitBuilder, a: &[N], b: &[N], m: &[N]) -> Vec<N> {
        let s = add(c, a, b);
        let zero = c.add_xor_gate(a[0], a[0]);
        let mut m = m.to_vec();
        m.push(zero);
        let (d, below) = sub(c, &s, &m);
        (0..a.len())
            .map(|i| {
                let x = c.add_xor_gate(s[i], d[i]);
                let y = c.add_and_gate(x, below);
                c.add_xor_gate(d[i], y)
            })
            .collect()
    }
}

fn aes_block(key: &[u8], block: &[u8]) -> Vec<u8> {
    let mut c = openssl::symm::Crypter::new(openssl::symm::Cipher::aes_128_ecb(), openssl::symm::Mode::Encrypt, key, None).unwrap();
    c.pad(false);
    let mut out = vec![0; 32];
    let n = c.update(block, &mut out).unwrap();
    out.truncate(n);
    out
}
/// The key in the first 16 of the 176 bytes; the rest of the schedule as in
/// FIPS 197.
fn key_schedule(key: &[u8]) -> Vec<u8> {
    fn sbox(x: u8) -> u8 {
        let mul = |mut a: u8, mut b: u8| {
            let mut r = 0;
            while b > 0 {
                if b & 1 == 1 {
                    r ^= a;
                }
                a = a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 };
                b >>= 1;
            }
            r
        };
        let mut inv = 1;
        for _ in 0..254 {
            inv = mul(inv, x);
        }
        inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
    }
    static SBOX: LazyLock<[u8; 256]> = LazyLock::new(|| std::array::from_fn(|i| sbox(i as u8)));
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
    let mut rcon = 1u8;
    for i in 4..44 {
        let mut t = w[i - 1];
        if i % 4 == 0 {
            t.rotate_left(1);
            t = t.map(|x| SBOX[x as usize]);
            t[0] ^= rcon;
            rcon = rcon << 1 ^ if rcon & 0x80 != 0 { 0x1b } else { 0 };
        }
        w.push(std::array::from_fn(|k| w[i - 4][k] ^ t[k]));
    }
    w.concat()
}
pub static AES128: LazyLock<Arc<Circuit>> =
    LazyLock::new(|| Arc::new(Circuit::native("aes128", 32, 16, |b| aes_block(&b[..16], &b[16..]))));
pub static AES128_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::native("aes128-ks", 16, 176, key_schedule)));
pub static AES128_POST_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| {
    Arc::new(Circuit::native("aes128-post-ks", 192, 16, |b| {
        assert_eq!(key_schedule(&b[..16]), b[..176], "not a key schedule");
        aes_block(&b[..16], &b[176..])
    }))
});
