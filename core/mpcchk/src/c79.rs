//! The parts of the joint engine, each on its own: PRF, cipher, key exchange
//! and dual execution.
use crate::{net::*, tls12::*};
use cipher::{aes::Aes128, Cipher as _};
use deap::{Deap, Role as DeapRole};
use hmac_sha256::{MSMode, NetworkMode, Prf, PrfConfig, PrfOutput};
use key_exchange::{KeyExchange, MpcKeyExchange, Role};
use mpzsim::{
    circuits::{CircuitBuilder, AES128},
    common::{Context, Fate, Hub, Tap},
    fields::p256::P256,
    ideal_vm::{with_inputs, IdealVm},
    memory::{
        binary::{Binary, U8},
        Array, DecodeFutureTyped, MemoryExt, Repr, Vector, ViewExt,
    },
    share::ideal::{IdealShareConvertReceiver, IdealShareConvertSender},
    vm::{prelude::*, Call, Execute, Vm},
};
use openssl::symm::{encrypt, Cipher as Ossl};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{future::Future, sync::Arc};
use vpt::{cases, check, check_eq, fail, gen::filler, law, CaseResult, Check, Cx};

type Res<T> = Result<T, String>;
fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
/// Runs both parties.
fn both<A: 'static, B: 'static, FA: Future<Output = Res<A>> + 'static, FB: Future<Output = Res<B>> + 'static>(
    seed: u64,
    tap: Option<Box<Tap>>,
    a: impl FnOnce(Context) -> FA,
    b: impl FnOnce(Context) -> FB,
) -> Result<(Option<Res<A>>, Option<Res<B>>), vpt::Failure> {
    let hub = Hub::new(tap);
    let mut sim = Sim::new(seed);
    let (ca, cb) = (hub.context(0), hub.context(1));
    let ra = sim.spawn("leader", true, a(ca));
    let rb = sim.spawn("follower", true, b(cb));
    let end = sim.run(100_000);
    if let Some((t, m)) = sim.panics.first() {
        fail!("{t} panics: {m}");
    }
    check!(!matches!(end, End::Spinning(_)), "endless: {end:?}");
    Ok((ra.take(), rb.take()))
}
fn ok<T>(what: &str, r: Option<Res<T>>) -> Result<T, vpt::Failure> {
    match r {
        Some(Ok(v)) => Ok(v),
        Some(Err(e)) => fail!("{what} fails: {e}"),
        None => fail!("{what} waits for ever"),
    }
}
fn arr<const N: usize>() -> impl Strategy<Value = Vec<u8>> + Clone {
    prop_oneof![
        6 => any::<u64>().prop_map(|s| filler(s, N)),
        1 => any::<u8>().prop_map(|b| vec![b; N]),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, b)| {
            let mut v = vec![0; N];
            v[i as usize % N] = b;
            v
        }),
    ]
}
fn fix<const N: usize>(v: &[u8]) -> [u8; N] {
    v[..N].try_into().unwrap()
}
/// Who knows an input.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Who {
    Both,
    Leader,
    Follower,
}
fn who() -> impl Strategy<Value = Who> + Clone {
    prop::sample::select(vec![Who::Both, Who::Leader, Who::Follower])
}
/// An input, with its value where it is known.
fn input<R: Repr<Binary> + Copy>(vm: &mut dyn Vm<Binary>, leader: bool, w: Who, r: R, v: R::Clear) -> Res<()> {
    let mine = match w {
        Who::Both => {
            vm.mark_public(r).map_err(s)?;
            true
        }
        Who::Leader | Who::Follower if (w == Who::Leader) == leader => {
            vm.mark_private(r).map_err(s)?;
            true
        }
        _ => {
            vm.mark_blind(r).map_err(s)?;
            false
        }
    };
    if mine {
        vm.assign(r, v).map_err(s)?;
    }
    vm.commit(r).map_err(s)
}

// ---- PRF ----

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum PrfOp {
    Cr,
    Sr,
    Session,
    Cf,
    Sf,
    Flush,
    Run,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PrfCase {
    reduced: bool,
    /// Standard, extended, direct.
    mode: u8,
    who: Who,
    secret: Vec<u8>,
    /// Client and server random, session hash, and the two handshake hashes.
    seeds: [Vec<u8>; 5],
    ops: Vec<PrfOp>,
    /// Things asked for before there is anything.
    early: bool,
    /// Outputs are asked for at once.
    decode_first: bool,
    sim: u64,
}
fn prf_case() -> impl Strategy<Value = PrfCase> + Clone {
    use PrfOp::*;
    let ops = (Just(vec![Cr, Sr, Session, Cf, Sf]).prop_shuffle(), prop::collection::vec((any::<u8>(), prop::sample::select(vec![Flush, Run, Run, Cr, Session])), 0..6))
        .prop_map(|(mut o, add)| {
            for (i, x) in add {
                let i = i as usize % (o.len() + 1);
                o.insert(i, x);
            }
            o
        });
    (
        (any::<bool>(), 0u8..3, who(), arr::<48>(), [arr::<32>(), arr::<32>(), arr::<32>(), arr::<32>(), arr::<32>()]),
        (ops, any::<bool>(), any::<bool>(), any::<u64>()),
    )
        .prop_map(|((reduced, mode, who, secret, seeds), (ops, early, decode_first, sim))| PrfCase { reduced, mode, who, secret, seeds, ops, early, decode_first, sim })
}
/// A call that must be refused.
fn no<T, E>(what: &str, r: Result<T, E>) -> Res<()> {
    match r {
        Ok(_) => Err(format!("not refused: {what}")),
        Err(_) => Ok(()),
    }
}
async fn prf_party(c: PrfCase, leader: bool, mut ctx: Context) -> Res<Vec<Vec<u8>>> {
    let mut vm = IdealVm::new();
    let net = if c.reduced { NetworkMode::Reduced } else { NetworkMode::Normal };
    let mut p = Prf::new(PrfConfig::new(net, [MSMode::Standard, MSMode::Extended, MSMode::Direct][c.mode as usize]));
    let seed = |i: usize| fix::<32>(&c.seeds[i]);
    if c.early {
        no("server random before allocation", p.set_server_random(seed(1)))?;
        no("session hash before allocation", p.set_session_hash(c.seeds[2].clone()))?;
        no("client hash before allocation", p.set_cf_hash(seed(3)))?;
        no("server hash before allocation", p.set_sf_hash(seed(4)))?;
        if p.wants_flush() {
            return Err("wants to be flushed before allocation".into());
        }
    }
    let out: PrfOutput = if c.mode == 2 {
        let ms: Array<U8, 48> = vm.alloc().map_err(s)?;
        input(&mut vm, leader, c.who, ms, fix(&c.secret))?;
        if c.early {
            let pms: Array<U8, 32> = vm.alloc().map_err(s)?;
            no("a pre-master secret", p.alloc_pms(&mut vm, pms))?;
        }
        p.alloc_ms(&mut vm, ms).map_err(s)?
    } else {
        let pms: Array<U8, 32> = vm.alloc().map_err(s)?;
        input(&mut vm, leader, c.who, pms, fix(&c.secret))?;
        if c.early {
            let ms: Array<U8, 48> = vm.alloc().map_err(s)?;
            no("a master secret", p.alloc_ms(&mut vm, ms))?;
        }
        p.alloc_pms(&mut vm, pms).map_err(s)?
    };
    let k = out.keys;
    let mut futs = None;
    macro_rules! decode {
        () => {
            futs = Some((
                vm.decode(k.client_write_key).map_err(s)?,
                vm.decode(k.server_write_key).map_err(s)?,
                vm.decode(k.client_iv).map_err(s)?,
                vm.decode(k.server_iv).map_err(s)?,
                vm.decode(out.cf_vd).map_err(s)?,
                vm.decode(out.sf_vd).map_err(s)?,
            ))
        };
    }
    if c.decode_first {
        decode!();
    }
    let (mut cr, mut sr, mut session) = (false, false, false);
    for op in c.ops.iter().chain([PrfOp::Sr].iter()) {
        match op {
            PrfOp::Cr => {
                p.set_client_random(seed(0));
                cr = true;
            }
            PrfOp::Sr if sr => {}
            PrfOp::Sr if !cr => no("server random before client random", p.set_server_random(seed(1)))?,
            PrfOp::Sr => {
                p.set_server_random(seed(1)).map_err(s)?;
                sr = true;
            }
            PrfOp::Session if c.mode != 1 => no("session hash", p.set_session_hash(c.seeds[2].clone()))?,
            PrfOp::Session if session => {}
            PrfOp::Session => {
                p.set_session_hash(c.seeds[2].clone()).map_err(s)?;
                session = true;
            }
            PrfOp::Cf => p.set_cf_hash(seed(3)).map_err(s)?,
            PrfOp::Sf => p.set_sf_hash(seed(4)).map_err(s)?,
            PrfOp::Flush => p.flush(&mut vm).map_err(s)?,
            PrfOp::Run => {
                p.flush(&mut vm).map_err(s)?;
                vm.execute_all(&mut ctx).await.map_err(s)?;
            }
        }
    }
    let mut n = 0;
    while p.wants_flush() {
        n += 1;
        if n > 40 {
            return Err("wants to be flushed again and again".into());
        }
        p.flush(&mut vm).map_err(s)?;
        vm.execute_all(&mut ctx).await.map_err(s)?;
    }
    if !c.decode_first {
        decode!();
    }
    vm.execute_all(&mut ctx).await.map_err(s)?;
    let (a, b, d, e, f, g) = futs.unwrap();
    macro_rules! get {
        ($($x:ident)*) => { vec![$({ let mut x = $x; x.try_recv().map_err(|e| format!("{e:?}"))?.ok_or("an output is missing")?.to_vec() }),*] };
    }
    let v = get!(a b d e f g);
    if c.early {
        let ms: Array<U8, 48> = vm.alloc().map_err(s)?;
        let pms: Array<U8, 32> = vm.alloc().map_err(s)?;
        no("a second allocation", p.alloc_pms(&mut vm, pms))?;
        no("a second allocation", p.alloc_ms(&mut vm, ms))?;
    }
    Ok(v)
}
fn run_prf(c: &PrfCase, cx: &mut Cx) -> CaseResult {
    let order = c.ops.iter().position(|o| *o == PrfOp::Sr) < c.ops.iter().position(|o| *o == PrfOp::Cr);
    cx.label(if c.reduced { "reduced" } else { "normal" });
    cx.label(["standard", "extended", "direct"][c.mode as usize]);
    cx.label_if(order, "server random too early");
    cx.nontrivial(true);
    let (a, b) = both(c.sim, None, |x| prf_party(c.clone(), true, x), |x| prf_party(c.clone(), false, x))?;
    let (a, b) = (ok("leader", a)?, ok("follower", b)?);
    let [cr, sr, sh, cf, sf] = &c.seeds;
    let ms = match c.mode {
        0 => prf(&c.secret[..32], "master secret", &[&cr[..], sr].concat(), 48),
        1 => prf(&c.secret[..32], "extended master secret", sh, 48),
        _ => c.secret.clone(),
    };
    let k = prf(&ms, "key expansion", &[&sr[..], cr].concat(), 40);
    let want = vec![k[..16].to_vec(), k[16..32].to_vec(), k[32..36].to_vec(), k[36..].to_vec(), prf(&ms, "client finished", cf, 12), prf(&ms, "server finished", sf, 12)];
    for (i, n) in ["client key", "server key", "client IV", "server IV", "client verify data", "server verify data"].iter().enumerate() {
        check_eq!(a[i], want[i], "{n} at the leader");
        check_eq!(b[i], want[i], "{n} at the follower");
    }
    Ok(())
}

// ---- cipher ----

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Use {
    /// XOR with an input of somebody's, this long too much or too little first.
    Apply(Who, u64, i8),
    /// As many bytes of the stream.
    Vector(u8),
    /// Not at all.
    Nothing,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Part {
    len: u16,
    nonce: Vec<u8>,
    ctr: u32,
    what: Use,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Block {
    Ecb(Who, Vec<u8>),
    Ctr(Vec<u8>, u32),
    /// Another key or IV from here on.
    Key(Who, Vec<u8>),
    Iv(Who, Vec<u8>),
    /// Takes the key stream of the parts.
    Stream,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CipherCase {
    key: (Who, Vec<u8>),
    iv: (Who, Vec<u8>),
    /// Bytes of the stream.
    len: u16,
    blocks: Vec<Block>,
    parts: Vec<Part>,
    /// Things asked for before key and IV are set.
    early: bool,
    /// The machine runs after every part.
    often: bool,
    sim: u64,
}
fn cipher_case() -> impl Strategy<Value = CipherCase> + Clone {
    let ctr = || prop_oneof![3 => 0u32..20, 1 => any::<u32>(), 1 => Just(u32::MAX)];
    let block = prop_oneof![
        4 => (who(), arr::<16>()).prop_map(|(w, b)| Block::Ecb(w, b)),
        4 => (arr::<8>(), ctr()).prop_map(|(n, c)| Block::Ctr(n, c)),
        1 => (who(), arr::<16>()).prop_map(|(w, b)| Block::Key(w, b)),
        1 => (who(), arr::<4>()).prop_map(|(w, b)| Block::Iv(w, b)),
    ];
    let blocks = (prop::collection::vec(block, 0..5), any::<u8>()).prop_map(|(mut b, i)| {
        b.insert(i as usize % (b.len() + 1), Block::Stream);
        b
    });
    let used = prop_oneof![
        4 => (who(), any::<u64>(), prop_oneof![3 => Just(0i8), 1 => -20i8..20]).prop_map(|(w, b, d)| Use::Apply(w, b, d)),
        3 => any::<u8>().prop_map(Use::Vector),
        1 => Just(Use::Nothing),
    ];
    let part = (prop_oneof![4 => 0u16..70, 1 => 0u16..300], arr::<8>(), ctr(), used).prop_map(|(len, nonce, ctr, what)| Part { len, nonce, ctr, what });
    (
        (who(), arr::<16>()),
        (who(), arr::<4>()),
        prop_oneof![0u16..400, Just(0), Just(16)],
        blocks,
        prop::collection::vec(part, 0..7),
        any::<bool>(),
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|(key, iv, len, blocks, parts, early, often, sim)| CipherCase { key, iv, len, blocks, parts, early, often, sim })
}
/// What each use yields; nothing where it must be refused.
async fn cipher_party(c: CipherCase, leader: bool, mut ctx: Context) -> Res<Vec<Vec<u8>>> {
    let mut vm = IdealVm::new();
    let mut aes = Aes128::default();
    let key: Array<U8, 16> = vm.alloc().map_err(s)?;
    let iv: Array<U8, 4> = vm.alloc().map_err(s)?;
    input(&mut vm, leader, c.key.0, key, fix(&c.key.1))?;
    input(&mut vm, leader, c.iv.0, iv, fix(&c.iv.1))?;
    if c.early {
        if aes.key().is_some() || aes.iv().is_some() {
            return Err("a key before there is one".into());
        }
        let block: Array<U8, 16> = vm.alloc().map_err(s)?;
        no("a block without a key", aes.alloc_block(&mut vm, block))?;
        no("a counter block without a key", aes.alloc_ctr_block(&mut vm))?;
        no("a stream without a key", aes.alloc_keystream(&mut vm, 32))?;
        aes.set_key(key);
        no("a counter block without an IV", aes.alloc_ctr_block(&mut vm))?;
        no("a stream without an IV", aes.alloc_keystream(&mut vm, 32))?;
    }
    if c.sim % 2 == 0 {
        aes.set_key(key);
        aes.set_iv(iv);
    } else {
        aes.set_iv(iv);
        aes.set_key(key);
    }
    let mut out = vec![];
    let mut futs: Vec<(usize, DecodeFutureTyped<_, Vec<u8>>)> = vec![];
    macro_rules! later {
        ($v:expr) => {{
            let v: Vector<U8> = $v;
            futs.push((out.len(), vm.decode(v).map_err(s)?));
            out.push(vec![]);
        }};
    }
    let mut stream = None;
    for b in &c.blocks {
        match b {
            Block::Ecb(w, v) => {
                let i: Array<U8, 16> = vm.alloc().map_err(s)?;
                input(&mut vm, leader, *w, i, fix(v))?;
                let o = aes.alloc_block(&mut vm, i).map_err(s)?;
                later!(o.into());
            }
            Block::Ctr(n, ctr) => {
                let b = aes.alloc_ctr_block(&mut vm).map_err(s)?;
                vm.assign(b.explicit_nonce, fix(n)).map_err(s)?;
                vm.commit(b.explicit_nonce).map_err(s)?;
                vm.assign(b.counter, ctr.to_be_bytes()).map_err(s)?;
                vm.commit(b.counter).map_err(s)?;
                later!(b.output.into());
            }
            Block::Key(w, v) => {
                let key: Array<U8, 16> = vm.alloc().map_err(s)?;
                input(&mut vm, leader, *w, key, fix(v))?;
                aes.set_key(key);
            }
            Block::Iv(w, v) => {
                let iv: Array<U8, 4> = vm.alloc().map_err(s)?;
                input(&mut vm, leader, *w, iv, fix(v))?;
                aes.set_iv(iv);
            }
            Block::Stream => stream = Some(aes.alloc_keystream(&mut vm, c.len as usize).map_err(s)?),
        }
    }
    let mut stream = stream.ok_or("no stream")?;
    let mut left = (c.len as usize).div_ceil(16);
    for p in &c.parts {
        let n = (p.len as usize).div_ceil(16);
        if n > left {
            no("more of the stream than is left", stream.consume(p.len as usize))?;
            continue;
        }
        let part = stream.consume(p.len as usize).map_err(s)?;
        left -= n;
        let mut ctr = p.ctr;
        part.assign(&mut vm, fix::<8>(&p.nonce), || {
            let b = ctr.to_be_bytes();
            ctr = ctr.wrapping_add(1);
            b
        })
        .map_err(s)?;
        match &p.what {
            Use::Nothing => {}
            Use::Vector(k) => {
                let k = if n == 0 { *k as usize } else { 16 * n - *k as usize % 16 };
                no("nothing of the stream", part.to_vector(&mut vm, 0))?;
                no("too much of the stream", part.to_vector(&mut vm, 16 * n + 1))?;
                if n > 1 {
                    no("too little of the stream", part.to_vector(&mut vm, 16 * (n - 1)))?;
                }
                if n == 0 {
                    no("an empty stream", part.to_vector(&mut vm, k))?;
                } else {
                    let v = part.to_vector(&mut vm, k).map_err(s)?;
                    if v.len() != k {
                        return Err(format!("{} bytes of the stream instead of {k}", v.len()));
                    }
                    later!(v);
                }
            }
            Use::Apply(w, data, d) => {
                let wrong = (16 * n as i64 + *d as i64).max(0) as usize;
                if wrong != 16 * n || n == 0 {
                    let v: Vector<U8> = vm.alloc_vec(wrong).map_err(s)?;
                    no("an input of another length", part.apply(&mut vm, v))?;
                }
                if n > 0 {
                    let v: Vector<U8> = vm.alloc_vec(16 * n).map_err(s)?;
                    input(&mut vm, leader, *w, v, filler(*data, 16 * n))?;
                    later!(part.apply(&mut vm, v).map_err(s)?);
                }
            }
        }
        if c.often {
            vm.execute_all(&mut ctx).await.map_err(s)?;
        }
    }
    vm.execute_all(&mut ctx).await.map_err(s)?;
    for (i, mut f) in futs {
        out[i] = f.try_recv().map_err(|e| format!("{e:?}"))?.ok_or("an output is missing")?;
    }
    Ok(out)
}
fn run_cipher(c: &CipherCase, cx: &mut Cx) -> CaseResult {
    let (a, b) = both(c.sim, None, |x| cipher_party(c.clone(), true, x), |x| cipher_party(c.clone(), false, x))?;
    let (a, b) = (ok("leader", a)?, ok("follower", b)?);
    let ecb = |k: &[u8], b: &[u8]| encrypt(Ossl::aes_128_ecb(), k, None, b).unwrap()[..16].to_vec();
    let stream = |(k, iv): (&[u8], &[u8]), nonce: &[u8], ctr: u32, n: usize| -> Vec<u8> { (0..n).flat_map(|i| ecb(k, &[iv, nonce, &ctr.wrapping_add(i as u32).to_be_bytes()].concat())).collect() };
    let mut want = vec![];
    let mut now = (&c.key.1[..], &c.iv.1[..]);
    let mut of_stream = now;
    for b in &c.blocks {
        match b {
            Block::Ecb(_, v) => want.push(ecb(now.0, v)),
            Block::Ctr(n, ctr) => want.push(stream(now, n, *ctr, 1)),
            Block::Key(_, v) => now.0 = v,
            Block::Iv(_, v) => now.1 = v,
            Block::Stream => of_stream = now,
        }
    }
    let mut left = (c.len as usize).div_ceil(16);
    let mut over = false;
    for p in &c.parts {
        let n = (p.len as usize).div_ceil(16);
        if n > left {
            over = true;
            continue;
        }
        left -= n;
        let mut k = stream(of_stream, &p.nonce, p.ctr, n);
        match &p.what {
            Use::Nothing => {}
            _ if n == 0 => {}
            Use::Vector(x) => {
                k.truncate(16 * n - *x as usize % 16);
                want.push(k);
            }
            Use::Apply(_, data, _) => {
                k.iter_mut().zip(filler(*data, 16 * n)).for_each(|(k, d)| *k ^= d);
                want.push(k);
            }
        }
    }
    cx.label_if(over, "more than is left");
    cx.label_if(c.blocks.iter().any(|b| matches!(b, Block::Key(..))), "another key");
    cx.label_if(want.len() > 2, "several results");
    cx.nontrivial(!want.is_empty());
    check_eq!(a, want, "the leader's results");
    check_eq!(b, want, "the follower's results");
    Ok(())
}

// ---- key exchange ----

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum KxOp {
    Alloc,
    Setup,
    Key,
    Shares,
    Assign,
    Run,
    Finalize,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct KxCase {
    /// The server's secret.
    secret: Vec<u8>,
    /// When the server's key is told.
    key_at: u8,
    /// A wrong call before the right one, by place.
    wrong: Vec<(u8, KxOp)>,
    /// A changed frame of the conversions: by whom, which one, how.
    lie: Option<(u8, u16, u8)>,
    sim: u64,
}
fn kx_case(lies: bool) -> impl Strategy<Value = KxCase> + Clone {
    use KxOp::*;
    let n = [
        0xffu8, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63,
        0x25, 0x51,
    ];
    let secret = prop_oneof![
        4 => any::<u64>().prop_map(|s| { let mut v = filler(s, 32); v[0] &= 0x7f; v[31] |= 1; v }),
        1 => (1u8..20).prop_map(|x| { let mut v = vec![0; 32]; v[31] = x; v }),
        1 => (1u8..20).prop_map(move |x| { let mut v = n.to_vec(); v[31] -= x; v }),
    ];
    let wrong = if lies { Just(vec![]).boxed() } else { prop::collection::vec((0u8..7, prop::sample::select(vec![Setup, Shares, Assign, Finalize])), 0..2).boxed() };
    let lie = if lies { ((0u8..2), any::<u16>(), 1u8..).prop_map(Some).boxed() } else { Just(None).boxed() };
    (secret, 0u8..3, wrong, lie, any::<u64>()).prop_map(|(secret, key_at, wrong, lie, sim)| KxCase { secret, key_at, wrong, lie, sim })
}
#[derive(Debug, Default)]
struct KxOut {
    client: Option<p256::PublicKey>,
    pms: Vec<u8>,
    refused: Option<KxOp>,
}
async fn kx_party<C0, C1>(c: KxCase, leader: bool, mut ctx: Context, c0: C0, c1: C1) -> Res<KxOut>
where
    C0: mpzsim::share::ShareConvert<P256> + mpzsim::common::Flush + Send + 'static,
    C1: mpzsim::share::ShareConvert<P256> + mpzsim::common::Flush + Send + 'static,
{
    use KxOp::*;
    let mut vm = IdealVm::new();
    let mut k = MpcKeyExchange::new(if leader { Role::Leader } else { Role::Follower }, c0, c1);
    let scalar = p256::NonZeroScalar::from_repr(p256::FieldBytes::clone_from_slice(&c.secret)).ok_or("a scalar")?;
    let server = p256::PublicKey::from_secret_scalar(&scalar);
    let mut out = KxOut::default();
    let mut fut = None;
    let mut steps = vec![Alloc, Setup, Shares, Assign, Run, Finalize];
    steps.insert(c.key_at as usize, Key);
    // A call out of order is refused, and nothing works any more after it.
    for (at, op) in &c.wrong {
        let i = *at as usize % steps.len();
        // Before the machine has run, the end is waited for.
        let waits = *op == Finalize && steps[..i].contains(&Assign);
        if steps[i] != *op && !waits && !(*op == Setup && steps[i] == Key && steps.get(i + 1) == Some(op)) {
            steps.insert(i, *op);
            steps.truncate(i + 1);
        }
    }
    if k.server_key().is_some() {
        return Err("a server key before there is one".into());
    }
    let bad = if c.wrong.is_empty() || steps.last() == Some(&Finalize) && steps.len() == 7 { usize::MAX } else { steps.len() - 1 };
    for (i, op) in steps.iter().enumerate() {
        let r: Res<()> = async {
            match op {
                Alloc => {
                    let pms = k.alloc(&mut vm).map_err(s)?;
                    fut = Some(vm.decode(pms).map_err(s)?);
                }
                Setup => {
                    k.setup(&mut ctx).await.map_err(s)?;
                    if leader {
                        out.client = Some(k.client_key().map_err(s)?);
                    } else {
                        no("the client's key at the follower", k.client_key())?;
                    }
                }
                Key => {
                    k.set_server_key(server).map_err(s)?;
                    if k.server_key() != Some(server) {
                        return Err("another server key".into());
                    }
                }
                Shares => k.compute_shares(&mut ctx).await.map_err(s)?,
                Assign => k.assign(&mut vm).map_err(s)?,
                Run => vm.execute_all(&mut ctx).await.map_err(s)?,
                Finalize => k.finalize().await.map_err(s)?,
            }
            Ok(())
        }
        .await;
        if i == bad {
            if r.is_ok() {
                return Err(format!("{op:?} out of order is not refused: {steps:?}"));
            }
            out.refused = Some(*op);
            return Ok(out);
        }
        r?;
    }
    out.pms = fut.ok_or("no secret")?.try_recv().map_err(|e| format!("{e:?}"))?.ok_or("the secret is missing")?.to_vec();
    Ok(out)
}
fn run_kx(c: &KxCase, cx: &mut Cx) -> CaseResult {
    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let tap: Option<Box<Tap>> = c.lie.map(|(side, at, x)| {
        let mut n = 0usize;
        let done = done.clone();
        // Of the frames with converted shares: the first three of a party are the allocations and the key.
        Box::new(move |from: usize, _: &[u8], _: usize, f: &mut Vec<u8>| {
            if from == side as usize && f.starts_with(&mpzsim::share::MAGIC.to_le_bytes()) && f.len() > 64 {
                if n == at as usize % 3 {
                    let i = 8 + (at as usize / 3) % (f.len() - 8);
                    f[i] ^= x;
                    done.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                n += 1;
            }
            Fate::Pass
        }) as Box<Tap>
    });
    let (c0, c1) = (c.clone(), c.clone());
    let (a, b) = both(
        c.sim,
        tap,
        |x| kx_party(c0, true, x, IdealShareConvertSender::default(), IdealShareConvertReceiver::default()),
        |x| kx_party(c1, false, x, IdealShareConvertReceiver::default(), IdealShareConvertSender::default()),
    )?;
    let lied = done.load(std::sync::atomic::Ordering::Relaxed);
    cx.nontrivial(c.lie.is_none() || lied);
    cx.label_if(lied, "lied");
    if lied {
        // Whoever ends well has the right secret.
        let Some(Ok(KxOut { client: Some(client), .. })) = &a else {
            cx.label("the leader refuses");
            if let Some(Err(e)) = &a {
                cx.label(e.split(|c: char| c.is_ascii_digit()).next().unwrap());
            }
            for r in [&b] {
                if let Some(Ok(o)) = r {
                    check!(o.pms.is_empty(), "the follower ends well, the leader does not");
                }
            }
            return Ok(());
        };
        let want = shared(&openssl::bn::BigNum::from_slice(&c.secret).unwrap(), &client.to_sec1_bytes());
        for (n, r) in [("leader", &a), ("follower", &b)] {
            if let Some(Ok(o)) = r {
                cx.label("no harm done");
                check_eq!(o.pms, want, "the {n} takes a wrong secret");
            }
        }
        return Ok(());
    }
    let (a, b) = (ok("leader", a)?, ok("follower", b)?);
    if let Some(r) = a.refused {
        cx.label(&format!("{r:?} out of order"));
        check_eq!(a.refused, b.refused);
        return Ok(());
    }
    let client = a.client.unwrap().to_sec1_bytes();
    let want = shared(&openssl::bn::BigNum::from_slice(&c.secret).unwrap(), &client);
    check_eq!(a.pms, want, "the leader's secret");
    check_eq!(b.pms, want, "the follower's secret");
    Ok(())
}

// ---- dual execution ----

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum DeapOp {
    /// An input: whose, bytes, value; or one that never gets a value.
    Input(Who, u8, u64, bool),
    Xor(u16, u16),
    /// Not both.
    Nand(u16, u16),
    Aes(u16, u16),
    /// Part of another value.
    Cut(u16, u8, u8),
    Decode(u16),
    Run,
    Prepare,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DeapCase {
    ops: Vec<DeapOp>,
    /// A changed private input: by whom, in which machine, which frame, which bit.
    lie: Option<(u8, bool, u8, u16)>,
    sim: u64,
}
fn deap_case(lies: bool) -> impl Strategy<Value = DeapCase> + Clone {
    use DeapOp::*;
    let inp = (who(), 1u8..20, any::<u64>(), prop::bool::weighted(0.1)).prop_map(|(w, n, v, never)| Input(w, n, v, never && w == Who::Both));
    let key = (who(), any::<u64>()).prop_map(|(w, v)| Input(w, 16, v, false));
    let op = prop_oneof![
        3 => inp.clone(),
        2 => key,
        3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Xor(a, b)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Nand(a, b)),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Aes(a, b)),
        2 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Cut(a, b, c)),
        4 => any::<u16>().prop_map(Decode),
        2 => Just(Run),
        1 => Just(Prepare),
    ];
    let lie = if lies { (0u8..2, any::<bool>(), prop_oneof![3 => Just(0u8), 1 => 0u8..4], any::<u16>()).prop_map(Some).boxed() } else { Just(None).boxed() };
    (prop::collection::vec(inp, 1..4), prop::collection::vec(op, 1..16), lie, any::<u64>()).prop_map(|(mut a, b, lie, sim)| {
        a.extend(b);
        DeapCase { ops: a, lie, sim }
    })
}
/// What can be known of a value: its bytes, if its inputs have values.
type Known = Option<Vec<u8>>;
struct Model {
    values: Vec<Known>,
    lens: Vec<usize>,
}
fn nand(n: usize) -> Arc<mpzsim::circuits::Circuit> {
    let mut b = CircuitBuilder::new();
    let x: Vec<_> = (0..n).map(|_| b.add_input()).collect();
    let y: Vec<_> = (0..n).map(|_| b.add_input()).collect();
    for (x, y) in x.into_iter().zip(y) {
        let o = b.add_and_gate(x, y);
        let o = b.add_inv_gate(o);
        b.add_output(o);
    }
    Arc::new(b.build().unwrap())
}
impl DeapOp {
    /// The values it works on: their numbers, and the bytes of each.
    fn args(&self, lens: &[usize]) -> Option<Vec<(usize, usize)>> {
        let at = |i: u16| i as usize * lens.len() / 65536;
        let of16 = |i: u16| {
            let c: Vec<usize> = (0..lens.len()).filter(|k| lens[*k] >= 16).collect();
            (!c.is_empty()).then(|| c[i as usize * c.len() / 65536])
        };
        match self {
            DeapOp::Xor(a, b) | DeapOp::Nand(a, b) => {
                let n = lens[at(*a)].min(lens[at(*b)]);
                Some(vec![(at(*a), n), (at(*b), n)])
            }
            DeapOp::Aes(a, b) => Some(vec![(of16(*a)?, 16), (of16(*b)?, 16)]),
            DeapOp::Cut(a, ..) | DeapOp::Decode(a) => Some(vec![(at(*a), lens[at(*a)])]),
            _ => Some(vec![]),
        }
    }
    fn cut(n: usize, a: u8, b: u8) -> std::ops::Range<usize> {
        let i = a as usize * n / 256;
        i..i + 1 + b as usize * (n - i) / 257
    }
}
impl DeapCase {
    fn model(&self) -> Model {
        let mut m = Model { values: vec![], lens: vec![] };
        for op in &self.ops {
            let Some(args) = op.args(&m.lens) else { continue };
            let vals: Option<Vec<Vec<u8>>> = args.iter().map(|(i, n)| m.values[*i].as_ref().map(|v| v[..*n].to_vec())).collect();
            let v: (usize, Known) = match op {
                DeapOp::Input(_, n, v, never) => (*n as usize, (!never).then(|| filler(*v, *n as usize))),
                DeapOp::Xor(..) => (args[0].1, vals.map(|v| v[0].iter().zip(&v[1]).map(|(a, b)| a ^ b).collect())),
                DeapOp::Nand(..) => (args[0].1, vals.map(|v| v[0].iter().zip(&v[1]).map(|(a, b)| !(a & b)).collect())),
                DeapOp::Aes(..) => (16, vals.map(|v| encrypt(Ossl::aes_128_ecb(), &v[0], None, &v[1]).unwrap()[..16].to_vec())),
                DeapOp::Cut(_, a, b) => {
                    let r = DeapOp::cut(args[0].1, *a, *b);
                    (r.len(), vals.map(|v| v[0][r].to_vec()))
                }
                _ => continue,
            };
            m.lens.push(v.0);
            m.values.push(v.1);
        }
        m
    }
}
#[derive(Debug)]
struct DeapOut {
    /// What was decoded, and the same in the machine of the proofs.
    got: Vec<(usize, Known, Known)>,
    fin: Res<()>,
}
async fn deap_party(c: DeapCase, leader: bool, mut ctx: Context) -> Res<DeapOut> {
    let mut vm = Deap::new(if leader { DeapRole::Leader } else { DeapRole::Follower }, IdealVm::new(), IdealVm::new());
    let mut vals: Vec<Vector<U8>> = vec![];
    let mut lens: Vec<usize> = vec![];
    let mut futs: Vec<(usize, Vector<U8>, DecodeFutureTyped<_, Vec<u8>>)> = vec![];
    let whole: Vector<U8> = IdealVm::new().alloc_vec(100_000).map_err(s)?;
    no("a place that was never allocated", vm.translate(whole))?;
    for op in &c.ops {
        let Some(args) = op.args(&lens) else { continue };
        let arg = |i: usize| vals[args[i].0].get(0..args[i].1).ok_or("a part");
        let v: Vector<U8> = match op {
            DeapOp::Input(w, n, v, never) => {
                let r: Vector<U8> = vm.alloc_vec(*n as usize).map_err(s)?;
                if *never {
                    vm.mark_public(r).map_err(s)?;
                } else {
                    input(&mut vm, leader, *w, r, filler(*v, *n as usize))?;
                }
                r
            }
            DeapOp::Xor(..) | DeapOp::Nand(..) | DeapOp::Aes(..) => {
                let circ = match op {
                    DeapOp::Xor(..) => Arc::new(mpzsim::circuits::circuits::xor(8 * args[0].1)),
                    DeapOp::Nand(..) => nand(8 * args[0].1),
                    _ => AES128.clone(),
                };
                let call = Call::builder(circ).arg(arg(0)?).arg(arg(1)?).build().map_err(s)?;
                vm.call(call).map_err(s)?
            }
            DeapOp::Cut(_, a, b) => vals[args[0].0].get(DeapOp::cut(args[0].1, *a, *b)).ok_or("a part")?,
            DeapOp::Decode(_) => {
                let r = vals[args[0].0];
                futs.push((args[0].0, r, vm.decode(r).map_err(s)?));
                continue;
            }
            DeapOp::Run => {
                vm.execute_all(&mut ctx).await.map_err(s)?;
                continue;
            }
            DeapOp::Prepare => {
                if vm.wants_flush() {
                    vm.flush(&mut ctx).await.map_err(s)?;
                }
                if vm.wants_preprocess() {
                    vm.preprocess(&mut ctx).await.map_err(s)?;
                }
                continue;
            }
        };
        lens.push(v.len());
        vals.push(v);
    }
    vm.execute_all(&mut ctx).await.map_err(s)?;
    let fin = vm.finalize(&mut ctx).await.map_err(s);
    let mut got = vec![];
    for (i, r, mut f) in futs {
        let a = f.try_recv().map_err(|e| format!("{e:?}"))?;
        let zk = vm.translate(r).map_err(s)?;
        let b = vm.zk().get(zk).map_err(s)?;
        got.push((i, a, b));
    }
    Ok(DeapOut { got, fin })
}
fn run_deap(c: &DeapCase, cx: &mut Cx) -> CaseResult {
    let lied = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let tap: Option<Box<Tap>> = c.lie.map(|(side, zk, frame, bit)| {
        let mut n = 0u8;
        let lied = lied.clone();
        Box::new(move |from: usize, ch: &[u8], _: usize, f: &mut Vec<u8>| {
            // Both machines are flushed side by side, each on its channel.
            if from == side as usize && ch.last() == Some(&(!zk as u8)) && ch.len() == 2 {
                let mut total = 0;
                let _ = with_inputs(f, |b| total += b.len());
                if total > 0 {
                    if n == frame {
                        let (at, mut k) = (bit as usize * total / 65536, 0);
                        *f = with_inputs(f, |b| {
                            if (k..k + b.len()).contains(&at) {
                                b[at - k] ^= 1;
                            }
                            k += b.len();
                        })
                        .unwrap();
                        lied.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                    n += 1;
                }
            }
            Fate::Pass
        }) as Box<Tap>
    });
    let m = c.model();
    let (a, b) = both(c.sim, tap, |x| deap_party(c.clone(), true, x), |x| deap_party(c.clone(), false, x))?;
    let lied = lied.load(std::sync::atomic::Ordering::Relaxed);
    if !lied {
        let decodes = c.ops.iter().filter(|o| matches!(o, DeapOp::Decode(_))).count();
        cx.nontrivial(c.lie.is_none() && decodes > 0);
        cx.label_if(m.values.iter().any(|v| v.is_none()), "values that never come");
        for (n, r) in [("leader", a), ("follower", b)] {
            let r = ok(n, r)?;
            ok(&format!("{n}'s end"), Some(r.fin))?;
            for (i, got, zk) in r.got {
                check_eq!(got, m.values[i], "value {i} at the {n}");
                check_eq!(zk, m.values[i], "value {i} in the proofs of the {n}");
            }
        }
        return Ok(());
    }
    cx.nontrivial(true);
    let (side, in_zk, ..) = c.lie.unwrap();
    cx.label(["the leader lies", "the follower lies"][side as usize]);
    let honest = if side == 0 { ("follower", b) } else { ("leader", a) };
    match honest.1 {
        Some(Ok(DeapOut { fin: Ok(()), got })) => {
            cx.label("accepted");
            for (i, got, zk) in got {
                if got.is_some() {
                    check_eq!(got, zk, "the {} accepts two different values {i}", honest.0);
                }
                if !in_zk && side == 0 {
                    check_eq!(got, m.values[i], "the {} accepts a wrong value {i}", honest.0);
                }
            }
        }
        Some(Ok(DeapOut { fin: Err(e), .. })) => cx.label(&format!("refused: {}", e.split(|c: char| c.is_ascii_digit()).next().unwrap_or_default())),
        Some(Err(_)) => cx.label("refused at once"),
        None => cx.label("waits"),
    }
    Ok(())
}

// ---- checks ----

pub fn c79() -> Check {
    Check {
        id: "C79",
        rule: "A case is a secret, who knows it, randoms and hashes, a mode, and an order of calls and runs. Non-trivial: every case.",
        assumptions: &["Ideal two-party machine in place of the cryptography; HMAC by OpenSSL."],
        laws: vec![law("outputs of the PRF", cases(12_000), prf_case, run_prf)],
    }
}
pub fn c80() -> Check {
    Check {
        id: "C80",
        rule: "A case is a key and an IV, who knows them, single blocks, and parts of a stream with what is done with them. Non-trivial: something is computed.",
        assumptions: &["Ideal two-party machine in place of the cryptography; AES by OpenSSL."],
        laws: vec![law("blocks and streams", cases(60_000), cipher_case, run_cipher)],
    }
}
pub fn c81() -> Check {
    Check {
        id: "C81",
        rule: "A case is a server key, an order of calls, and possibly a changed share. Non-trivial: no share was to be changed, or one was.",
        assumptions: &["Ideal two-party machine and share conversion in place of the cryptography; the group by OpenSSL."],
        laws: vec![
            law("the secret of both", cases(6_000), || kx_case(false), run_kx),
            law("changed shares", cases(8_000), || kx_case(true), run_kx),
        ],
    }
}
pub fn c82() -> Check {
    Check {
        id: "C82",
        rule: "A case is a program over inputs of both parties, with outputs and runs anywhere, and possibly a changed input. Non-trivial: something is decoded; for lies: an input was changed.",
        assumptions: &["Ideal two-party machines in place of the cryptography."],
        laws: vec![
            law("values of programs", cases(40_000), || deap_case(false), run_deap),
            law("different inputs", cases(60_000), || deap_case(true), run_deap),
        ],
    }
}
