//! mpz-garble, mpz-garble-core and mpz-zk over the ideal virtual machine.
use crate::{
    common::Context,
    core::{bitvec::BitVec, Block},
    ideal_vm::IdealVm,
    memory::{binary::Binary, DecodeFuture, Memory, Slice, View},
    vm::{Call, Callable, Execute, VmError},
};
use async_trait::async_trait;
use std::marker::PhantomData;

#[derive(Debug, Clone, Copy)]
pub struct Delta(Block);
impl Delta {
    pub fn new(b: Block) -> Self {
        Delta(b)
    }
    pub fn random<R: rand::Rng + ?Sized>(rng: &mut R) -> Self {
        Delta(Block::random(rng))
    }
    pub fn into_inner(self) -> Block {
        self.0
    }
}

macro_rules! machine {
    ($($n:ident),*) => {$(
        pub struct $n<OT> {
            vm: IdealVm,
            _ot: PhantomData<fn() -> OT>,
        }
        impl<OT> std::fmt::Debug for $n<OT> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
        impl<OT> $n<OT> {
            fn make() -> Self {
                $n { vm: IdealVm::new(), _ot: PhantomData }
            }
            pub fn inner(&self) -> &IdealVm {
                &self.vm
            }
        }
        impl<OT> Memory<Binary> for $n<OT> {
            type Error = VmError;
            fn is_alloc_raw(&self, s: Slice) -> bool {
                self.vm.is_alloc_raw(s)
            }
            fn alloc_raw(&mut self, n: usize) -> Result<Slice, VmError> {
                self.vm.alloc_raw(n)
            }
            fn is_assigned_raw(&self, s: Slice) -> bool {
                self.vm.is_assigned_raw(s)
            }
            fn assign_raw(&mut self, s: Slice, d: BitVec) -> Result<(), VmError> {
                self.vm.assign_raw(s, d)
            }
            fn is_committed_raw(&self, s: Slice) -> bool {
                self.vm.is_committed_raw(s)
            }
            fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> {
                self.vm.commit_raw(s)
            }
            fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> {
                self.vm.get_raw(s)
            }
            fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> {
                self.vm.decode_raw(s)
            }
        }
        impl<OT> View<Binary> for $n<OT> {
            type Error = VmError;
            fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> {
                self.vm.mark_public_raw(s)
            }
            fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> {
                self.vm.mark_private_raw(s)
            }
            fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> {
                self.vm.mark_blind_raw(s)
            }
        }
        impl<OT> Callable<Binary> for $n<OT> {
            fn call_raw(&mut self, c: Call) -> Result<Slice, VmError> {
                self.vm.call_raw(c)
            }
        }
        #[async_trait]
        impl<OT> Execute for $n<OT> {
            fn wants_flush(&self) -> bool {
                self.vm.wants_flush()
            }
            async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> {
                self.vm.flush(ctx).await
            }
            fn wants_preprocess(&self) -> bool {
                self.vm.wants_preprocess()
            }
            async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError> {
                self.vm.preprocess(ctx).await
            }
            fn wants_execute(&self) -> bool {
                self.vm.wants_execute()
            }
            async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError> {
                self.vm.execute(ctx).await
            }
        }
    )*};
}

pub mod semihonest {
    use super::*;
    machine!(Garbler, Evaluator);
    impl<OT> Garbler<OT> {
        pub fn new(_ot: OT, _seed: [u8; 16], _delta: Delta) -> Self {
            Self::make()
        }
    }
    impl<OT> Evaluator<OT> {
        pub fn new(_ot: OT) -> Self {
            Self::make()
        }
    }
}
pub mod zk {
    use super::*;
    machine!(Prover, Verifier);
    #[derive(Debug, Default, Clone)]
    pub struct ProverConfig;
    #[derive(Debug, Default, Clone)]
    pub struct VerifierConfig;
    impl<OT> Prover<OT> {
        pub fn new(_c: ProverConfig, _ot: OT) -> Self {
            Self::make()
        }
    }
    impl<OT> Verifier<OT> {
        pub fn new(_c: VerifierConfig, _delta: Delta, _ot: OT) -> Self {
            Self::make()
        }
    }
}
