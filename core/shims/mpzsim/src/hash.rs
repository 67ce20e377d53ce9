//! mpz-hash
use crate::{
    circuits::Circuit,
    memory::{binary::{Binary, U32, U8}, Array, MemoryExt, Slice, ToRaw, Vector, ViewExt},
    vm::{Call, CallableExt, Vm, VmError},
};
use std::sync::{Arc, LazyLock};

pub mod sha256 {
    use super::*;
    #[derive(Debug, thiserror::Error)]
    #[error("sha256 error: {0}")]
    pub struct Sha256Error(#[from] VmError);

    fn state(b: &[u8]) -> [u32; 8] {
        std::array::from_fn(|i| u32::from_le_bytes(b[i * 4..i * 4 + 4].try_into().unwrap()))
    }
    /// 8 words (as in memory: least significant bit first) and a block.
    static COMPRESS: LazyLock<Arc<Circuit>> = LazyLock::new(|| {
        Arc::new(Circuit::native("sha256-compress", 96, 32, |b| {
            let mut s = state(b);
            sha2::compress256(&mut s, &[sha2::digest::generic_array::GenericArray::clone_from_slice(&b[32..])]);
            s.iter().flat_map(|w| w.to_le_bytes()).collect()
        }))
    });
    static BYTES: LazyLock<Arc<Circuit>> = LazyLock::new(|| {
        Arc::new(Circuit::native("sha256-bytes", 32, 32, |b| state(b).iter().flat_map(|w| w.to_be_bytes()).collect()))
    });
    const IV: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];

    #[derive(Debug, Clone)]
    pub struct Sha256 {
        state: Option<Array<U32, 8>>,
        /// Bytes processed.
        done: usize,
        pending: Vec<Slice>,
    }
    fn public(vm: &mut dyn Vm<Binary>, v: Vec<u8>) -> Result<Vector<U8>, VmError> {
        let r: Vector<U8> = vm.alloc_vec(v.len())?;
        vm.mark_public(r)?;
        vm.assign(r, v)?;
        vm.commit(r)?;
        Ok(r)
    }
    impl Sha256 {
        pub fn new() -> Self {
            Sha256 { state: None, done: 0, pending: vec![] }
        }
        pub fn new_with_init(vm: &mut dyn Vm<Binary>) -> Result<Self, Sha256Error> {
            let r: Array<U32, 8> = vm.alloc()?;
            vm.mark_public(r)?;
            vm.assign(r, IV)?;
            vm.commit(r)?;
            Ok(Sha256 { state: Some(r), done: 0, pending: vec![] })
        }
        pub fn new_from_state(state: Array<U32, 8>, blocks: usize) -> Self {
            Sha256 { state: Some(state), done: blocks * 64, pending: vec![] }
        }
        pub fn state(&self) -> Option<(Array<U32, 8>, usize)> {
            self.state.map(|s| (s, self.done))
        }
        pub fn update(&mut self, data: &Vector<U8>) {
            if !data.is_empty() {
                self.pending.push(data.to_raw());
            }
        }
        fn len(&self) -> usize {
            self.pending.iter().map(|s| s.len() / 8).sum()
        }
        /// Takes the next 64 bytes.
        fn block(&mut self) -> Vec<Slice> {
            let (mut out, mut need) = (vec![], 512);
            while need > 0 {
                let s = self.pending.remove(0);
                if s.len() > need {
                    let r = s.to_range();
                    out.push(Slice::from_range_unchecked(r.start..r.start + need));
                    self.pending.insert(0, Slice::from_range_unchecked(r.start + need..r.end));
                    need = 0;
                } else {
                    need -= s.len();
                    out.push(s);
                }
            }
            out
        }
        pub fn compress(&mut self, vm: &mut dyn Vm<Binary>) -> Result<(), Sha256Error> {
            while self.len() >= 64 {
                let state = match self.state {
                    Some(s) => s,
                    None => Self::new_with_init(vm)?.state.unwrap(),
                };
                let mut call = Call::builder(COMPRESS.clone()).arg(state);
                for s in self.block() {
                    call = call.arg(s);
                }
                self.state = Some(vm.call(call.build().map_err(VmError::call)?)?);
                self.done += 64;
            }
            Ok(())
        }
        pub fn finalize(mut self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, Sha256Error> {
            self.compress(vm)?;
            let total = self.done + self.len();
            let mut pad = vec![0x80u8];
            while (self.len() + pad.len()) % 64 != 56 {
                pad.push(0);
            }
            pad.extend((total as u64 * 8).to_be_bytes());
            let pad = public(vm, pad)?;
            self.update(&pad);
            self.compress(vm)?;
            let call = Call::builder(BYTES.clone()).arg(self.state.unwrap()).build().map_err(VmError::call)?;
            Ok(vm.call(call)?)
        }
    }
    impl Default for Sha256 {
        fn default() -> Self {
            Self::new()
        }
    }
}

macro_rules! whole {
    ($m:ident, $n:ident, $e:ident, $f:expr) => {
        pub mod $m {
            use super::*;
            #[derive(Debug, thiserror::Error)]
            #[error("hash error: {0}")]
            pub struct $e(#[from] VmError);
            /// Hashes all its input in one call.
            #[derive(Debug, Clone, Default)]
            pub struct $n {
                parts: Vec<Slice>,
            }
            impl $n {
                pub fn new(_vm: &mut dyn Vm<Binary>) -> Result<Self, $e> {
                    Ok(Self::default())
                }
                pub fn new_with_init(vm: &mut dyn Vm<Binary>) -> Result<Self, $e> {
                    Self::new(vm)
                }
                pub fn update(&mut self, _vm: &mut dyn Vm<Binary>, data: &Vector<U8>) -> Result<(), $e> {
                    if !data.is_empty() {
                        self.parts.push(data.to_raw());
                    }
                    Ok(())
                }
                pub fn finalize(self, vm: &mut dyn Vm<Binary>) -> Result<Array<U8, 32>, $e> {
                    let n: usize = self.parts.iter().map(|s| s.len() / 8).sum();
                    let mut call = Call::builder(Arc::new(Circuit::native(stringify!($m), n, 32, $f)));
                    for s in self.parts {
                        call = call.arg(s);
                    }
                    Ok(vm.call(call.build().map_err(VmError::call)?)?)
                }
            }
        }
    };
}
whole!(blake3, Blake3, Blake3Error, |b| ::blake3::hash(b).as_bytes().to_vec());
whole!(keccak256, Keccak256, Keccak256Error, |b| {
    use tiny_keccak::{Hasher, Keccak};
    let mut k = Keccak::v256();
    k.update(b);
    let mut out = vec![0; 32];
    k.finalize(&mut out);
    out
});
