//! mpz-ideal-vm
use crate::{
    common::Context,
    core::bitvec::BitVec,
    memory::{binary::Binary, DecodeFuture, DecodeOp, Memory, Slice, View},
    vm::{Call, Callable, Execute, VmError},
};
use async_trait::async_trait;
use serde::{Deserialize, Serialize};

const VALUE: u8 = 1;
/// Known to this party.
const KNOWN: u8 = 2;
/// The value is there for evaluation.
const AVAIL: u8 = 4;
const ASSIGNED: u8 = 8;
const COMMITTED: u8 = 16;
const OUTPUT: u8 = 32;
const VIS: u8 = 192;
const PUBLIC: u8 = 64;
const PRIVATE: u8 = 128;
const BLIND: u8 = 192;

#[derive(Default, Serialize, Deserialize)]
struct Msg {
    /// Tells these messages from those of the protocols.
    magic: u64,
    /// Committed public values.
    public: Vec<(usize, Vec<u8>)>,
    /// Committed private values of the sender.
    private: Vec<(usize, Vec<u8>)>,
    /// Values to be decoded.
    decode: Vec<(usize, usize)>,
    /// What was called, in order.
    calls: Vec<u64>,
    size: usize,
}

pub const MAGIC: u64 = u64::from_le_bytes(*b"ideal vm");
/// A message in which the sender's private inputs are other ones; all that a party
/// that does not follow the protocol can do to an ideal machine. The function gets
/// the bits of each input.
pub fn with_inputs(msg: &[u8], mut f: impl FnMut(&mut Vec<u8>)) -> Option<Vec<u8>> {
    if !msg.starts_with(&MAGIC.to_le_bytes()) {
        return None;
    }
    let mut m: Msg = bincode::deserialize(msg).ok()?;
    for (_, bits) in &mut m.private {
        let n = bits.len();
        f(bits);
        assert_eq!(bits.len(), n);
    }
    bincode::serialize(&m).ok()
}

/// The public values in a message: what a peer would see of it.
pub fn public_part(msg: &[u8]) -> Option<Vec<Vec<u8>>> {
    if !msg.starts_with(&MAGIC.to_le_bytes()) {
        return None;
    }
    let m: Msg = bincode::deserialize(msg).ok()?;
    Some(m.public.into_iter().map(|p| p.1).collect())
}
/// Keeps what machines decode from now on, as runs of bits.
pub fn keep_decoded() {
    DECODED.with(|d| *d.borrow_mut() = Some(vec![]));
}
pub fn take_decoded() -> Vec<Vec<u8>> {
    DECODED.with(|d| d.borrow_mut().take()).unwrap_or_default()
}

thread_local! {
    static DECODED: std::cell::RefCell<Option<Vec<Vec<u8>>>> = const { std::cell::RefCell::new(None) };
    static HELD: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(vec![]) };
    static ADAPTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// From now on each party gets from the other one what fits what it does itself:
/// the same calls, public values and requests to decode, and some private inputs.
/// This is what a party can have that changes its own program to fit a claim of
/// its; only what the honest party checks itself then stands in its way.
pub fn adapt(on: bool) {
    ADAPTS.with(|a| a.set(on));
    if !on {
        HELD.with(|h| h.borrow_mut().clear());
    }
}
/// The private inputs that a machine took from its peer since then, in runs of bits.
pub fn held() -> Vec<Vec<u8>> {
    HELD.with(|h| h.borrow().clone())
}
pub fn adapting() -> bool {
    adapts()
}
fn adapts() -> bool {
    ADAPTS.with(|a| a.get())
}

/// An ideal virtual machine.
#[derive(Default)]
pub struct IdealVm {
    bits: Vec<u8>,
    calls: Vec<(Call, Slice)>,
    next: Msg,
    my_calls: Vec<u64>,
    peer_calls: Vec<u64>,
    peer_public: Vec<(usize, Vec<u8>)>,
    peer_private: Vec<(usize, Vec<u8>)>,
    decodes: Vec<(Slice, bool, DecodeOp<BitVec>)>,
    peer_decodes: Vec<Slice>,
    decoded: Vec<Slice>,
}
impl std::fmt::Debug for IdealVm {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "IdealVm({} bits)", self.bits.len())
    }
}
impl IdealVm {
    pub fn new() -> Self {
        Self::default()
    }
    /// All that was decoded so far.
    pub fn decoded(&self) -> &[Slice] {
        &self.decoded
    }
    fn at(&self, s: Slice) -> Result<&[u8], VmError> {
        self.bits.get(s.to_range()).ok_or_else(|| VmError::memory(format!("not allocated: {s}")))
    }
    fn at_mut(&mut self, s: Slice) -> Result<&mut [u8], VmError> {
        self.bits.get_mut(s.to_range()).ok_or_else(|| VmError::memory(format!("not allocated: {s}")))
    }
    fn mark(&mut self, s: Slice, vis: u8) -> Result<(), VmError> {
        for b in self.at_mut(s)? {
            if *b & OUTPUT != 0 {
                return Err(VmError::view(format!("visibility of an output: {s}")));
            }
            if *b & VIS != 0 && *b & VIS != vis {
                return Err(VmError::view(format!("visibility is already set: {s}")));
            }
            *b |= vis;
        }
        Ok(())
    }
    fn has(&self, s: Slice, flag: u8) -> bool {
        self.bits.get(s.to_range()).is_some_and(|b| b.iter().all(|b| b & flag == flag))
    }
    /// Uses what the peer told, as far as this party has come.
    fn absorb(&mut self) -> Result<(), VmError> {
        let mut keep = vec![];
        let public = std::mem::take(&mut self.peer_public);
        for (p, v) in if adapts() { vec![] } else { public } {
            let s = Slice::new(p, v.len());
            if self.has(s, COMMITTED) {
                let mine = self.at(s)?;
                if mine.iter().any(|b| b & VIS != PUBLIC) {
                    return Err(VmError::execute(format!("the peer holds {s} for public")));
                }
                if mine.iter().zip(&v).any(|(b, v)| b & VALUE != *v) {
                    return Err(VmError::execute(format!("public values differ: {s}")));
                }
            } else {
                keep.push((p, v));
            }
        }
        self.peer_public = keep;
        let mut keep = vec![];
        for (p, v) in std::mem::take(&mut self.peer_private) {
            let s = Slice::new(p, v.len());
            if self.has(s, COMMITTED) {
                for (b, v) in self.at_mut(s)?.iter_mut().zip(&v) {
                    if adapts() && (*b & VIS != BLIND || *b & AVAIL != 0) {
                        continue;
                    }
                    if *b & VIS != BLIND {
                        return Err(VmError::execute(format!("the peer holds {s} for its own")));
                    }
                    *b |= AVAIL | v;
                }
            } else {
                keep.push((p, v));
            }
        }
        self.peer_private = keep;
        let n = self.my_calls.len().min(self.peer_calls.len());
        if !adapts() && self.my_calls[..n] != self.peer_calls[..n] {
            return Err(VmError::execute("the parties called different functions"));
        }
        self.resolve();
        Ok(())
    }
    fn resolve(&mut self) {
        let mut i = 0;
        while i < self.decodes.len() {
            let (s, sent, _) = self.decodes[i];
            let peer = self.peer_decodes.iter().position(|p| *p == s);
            if sent && (peer.is_some() || adapts()) && self.has(s, AVAIL) {
                if let Some(p) = peer {
                    self.peer_decodes.remove(p);
                }
                let (s, _, op) = self.decodes.remove(i);
                self.decoded.push(s);
                let bits = &mut self.bits[s.to_range()];
                bits.iter_mut().for_each(|b| *b |= KNOWN);
                let out: BitVec = bits.iter().map(|b| b & VALUE == 1).collect();
                DECODED.with(|d| {
                    if let Some(d) = d.borrow_mut().as_mut() {
                        d.push(bits.iter().map(|b| b & VALUE).collect());
                    }
                });
                op.send(out);
            } else {
                i += 1;
            }
        }
    }
    fn ready(&self, c: &Call) -> bool {
        c.clone().into_parts().1.iter().all(|s| self.has(*s, AVAIL))
    }
}

impl Memory<Binary> for IdealVm {
    type Error = VmError;
    fn is_alloc_raw(&self, s: Slice) -> bool {
        s.to_range().end <= self.bits.len()
    }
    fn alloc_raw(&mut self, size: usize) -> Result<Slice, VmError> {
        let s = Slice::new(self.bits.len(), size);
        self.bits.resize(s.to_range().end, 0);
        Ok(s)
    }
    fn is_assigned_raw(&self, s: Slice) -> bool {
        self.has(s, ASSIGNED)
    }
    fn assign_raw(&mut self, s: Slice, data: BitVec) -> Result<(), VmError> {
        if data.len() != s.len() {
            return Err(VmError::memory(format!("assigned {} bits to {s}", data.len())));
        }
        for (b, v) in self.at_mut(s)?.iter_mut().zip(data.iter().by_vals()) {
            if *b & OUTPUT != 0 || *b & VIS == BLIND {
                return Err(VmError::memory(format!("assigned to an output or a blind value: {s}")));
            }
            if *b & COMMITTED != 0 {
                return Err(VmError::memory(format!("assigned to a committed value: {s}")));
            }
            *b = *b & !VALUE | v as u8 | ASSIGNED | KNOWN;
        }
        Ok(())
    }
    fn is_committed_raw(&self, s: Slice) -> bool {
        self.has(s, COMMITTED)
    }
    fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> {
        let bits = self.at_mut(s)?;
        let mut vis = None;
        for b in bits.iter_mut() {
            if *b & COMMITTED != 0 {
                return Err(VmError::memory(format!("committed twice: {s}")));
            }
            let v = *b & VIS;
            if v == 0 {
                return Err(VmError::memory(format!("committed without a visibility: {s}")));
            }
            if v != BLIND && *b & ASSIGNED == 0 {
                return Err(VmError::memory(format!("committed without a value: {s}")));
            }
            vis = match vis {
                None => Some(v),
                Some(w) if w == v => Some(v),
                Some(_) => Some(0),
            };
        }
        for b in bits.iter_mut() {
            *b |= COMMITTED;
            if *b & VIS != BLIND {
                *b |= AVAIL;
            }
        }
        // In runs of equal visibility.
        let mut runs: Vec<(usize, u8, Vec<u8>)> = vec![];
        for (i, b) in self.bits[s.to_range()].iter().enumerate() {
            match runs.last_mut() {
                Some((_, v, bits)) if *v == b & VIS => bits.push(b & VALUE),
                _ => runs.push((s.ptr() + i, b & VIS, vec![b & VALUE])),
            }
        }
        for (p, v, bits) in runs {
            match v {
                PUBLIC => self.next.public.push((p, bits)),
                PRIVATE => self.next.private.push((p, bits)),
                // Tells the peer nothing, but its value is waited for.
                _ => self.next.size = 1,
            }
        }
        Ok(())
    }
    fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> {
        let bits = self.at(s)?;
        Ok(bits
            .iter()
            .all(|b| b & KNOWN != 0 && b & (AVAIL | ASSIGNED) != 0)
            .then(|| bits.iter().map(|b| b & VALUE == 1).collect()))
    }
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> {
        self.at(s)?;
        let (fut, op) = DecodeFuture::new();
        self.decodes.push((s, false, op));
        self.next.decode.push((s.ptr(), s.len()));
        Ok(fut)
    }
}
impl View<Binary> for IdealVm {
    type Error = VmError;
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.mark(s, PUBLIC)
    }
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.mark(s, PRIVATE)
    }
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.mark(s, BLIND)
    }
}
impl Callable<Binary> for IdealVm {
    fn call_raw(&mut self, call: Call) -> Result<Slice, VmError> {
        use std::hash::{DefaultHasher, Hash, Hasher};
        let (circ, inputs) = call.clone().into_parts();
        for s in &inputs {
            self.at(*s)?;
        }
        let out = self.alloc_raw(circ.outputs())?;
        self.bits[out.to_range()].fill(OUTPUT);
        let mut h = DefaultHasher::new();
        (circ.fingerprint(), inputs, out).hash(&mut h);
        self.my_calls.push(h.finish());
        self.next.calls.push(h.finish());
        self.calls.push((call, out));
        Ok(out)
    }
}
#[async_trait]
impl Execute for IdealVm {
    fn wants_flush(&self) -> bool {
        !self.next.public.is_empty() || !self.next.private.is_empty() || !self.next.decode.is_empty() || self.next.size > 0
    }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        let mut msg = std::mem::take(&mut self.next);
        msg.magic = MAGIC;
        let got: Msg = ctx.io_mut().exchange(&msg).await.map_err(VmError::execute)?;
        if got.magic != MAGIC {
            return Err(VmError::execute("not a message of the machine"));
        }
        self.decodes.iter_mut().for_each(|d| d.1 = true);
        self.peer_public.extend(got.public);
        self.peer_private.extend(got.private);
        self.peer_calls.extend(got.calls);
        self.peer_decodes.extend(got.decode.into_iter().map(|(p, n)| Slice::new(p, n)));
        self.absorb()?;
        if adapts() {
            let mut runs = vec![];
            let mut run = vec![];
            for b in &mut self.bits {
                if *b & (VIS | COMMITTED) == BLIND | COMMITTED {
                    *b |= AVAIL;
                    run.push(*b & VALUE);
                } else if !run.is_empty() {
                    runs.push(std::mem::take(&mut run));
                }
            }
            runs.push(run);
            HELD.with(|h| h.borrow_mut().extend(runs));
        }
        Ok(())
    }
    fn wants_preprocess(&self) -> bool {
        false
    }
    async fn preprocess(&mut self, _ctx: &mut Context) -> Result<(), VmError> {
        Ok(())
    }
    fn wants_execute(&self) -> bool {
        self.calls.iter().any(|(c, _)| self.ready(c))
    }
    async fn execute(&mut self, _ctx: &mut Context) -> Result<(), VmError> {
        self.absorb()?;
        loop {
            let mut done = false;
            for (call, out) in std::mem::take(&mut self.calls) {
                if !self.ready(&call) {
                    self.calls.push((call, out));
                    continue;
                }
                let (circ, inputs) = call.into_parts();
                let bits: Vec<u8> = inputs.iter().flat_map(|s| &self.bits[s.to_range()]).map(|b| b & (VALUE | KNOWN)).collect();
                for (b, v) in self.bits[out.to_range()].iter_mut().zip(circ.eval(&bits)) {
                    *b = OUTPUT | AVAIL | v;
                }
                done = true;
            }
            if !done {
                break;
            }
        }
        self.resolve();
        Ok(())
    }
}
