//! mpz-vm-core
use crate::{circuits::Circuit, common::Context, memory::*};
use async_trait::async_trait;
use std::sync::Arc;

type Source = Box<dyn std::error::Error + Send + Sync>;

#[derive(Debug, thiserror::Error)]
#[error("vm error: {kind}: {source}")]
pub struct VmError {
    kind: &'static str,
    source: Source,
}
impl VmError {
    pub fn memory<E: Into<Source>>(e: E) -> Self {
        VmError { kind: "memory", source: e.into() }
    }
    pub fn execute<E: Into<Source>>(e: E) -> Self {
        VmError { kind: "execute", source: e.into() }
    }
    pub fn view<E: Into<Source>>(e: E) -> Self {
        VmError { kind: "view", source: e.into() }
    }
    pub fn call<E: Into<Source>>(e: E) -> Self {
        VmError { kind: "call", source: e.into() }
    }
}

#[derive(Debug, thiserror::Error)]
#[error("call error: the circuit takes {expected} bits, got {actual}")]
pub struct CallError {
    expected: usize,
    actual: usize,
}
#[derive(Debug, Clone)]
pub struct Call {
    circ: Arc<Circuit>,
    inputs: Vec<Slice>,
}
impl Call {
    pub fn builder(circ: Arc<Circuit>) -> CallBuilder {
        CallBuilder::new(circ)
    }
    pub fn into_parts(self) -> (Arc<Circuit>, Vec<Slice>) {
        (self.circ, self.inputs)
    }
}
#[derive(Debug, Clone)]
pub struct CallBuilder(Call);
impl CallBuilder {
    pub fn new(circ: Arc<Circuit>) -> Self {
        CallBuilder(Call { circ, inputs: vec![] })
    }
    pub fn arg<R: ToRaw<binary::Binary>>(mut self, r: R) -> Self {
        self.0.inputs.push(r.to_raw());
        self
    }
    pub fn build(self) -> Result<Call, CallError> {
        let actual = self.0.inputs.iter().map(|s| s.len()).sum();
        let expected = self.0.circ.inputs();
        if actual == expected {
            Ok(self.0)
        } else {
            Err(CallError { expected, actual })
        }
    }
}

pub trait Callable<T: MemoryType> {
    fn call_raw(&mut self, call: Call) -> Result<Slice, VmError>;
}
pub trait CallableExt<T: MemoryType>: Callable<T> {
    fn call<R: FromRaw<T>>(&mut self, call: Call) -> Result<R, VmError> {
        self.call_raw(call).map(R::from_raw)
    }
}
impl<T: MemoryType, M: Callable<T> + ?Sized> CallableExt<T> for M {}

#[async_trait]
pub trait Execute {
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_preprocess(&self) -> bool;
    async fn preprocess(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    fn wants_execute(&self) -> bool;
    async fn execute(&mut self, ctx: &mut Context) -> Result<(), VmError>;
    async fn execute_all(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        while self.wants_flush() || self.wants_preprocess() || self.wants_execute() {
            if self.wants_flush() {
                self.flush(ctx).await?;
            }
            if self.wants_preprocess() {
                self.preprocess(ctx).await?;
            }
            if self.wants_execute() {
                self.execute(ctx).await?;
            }
        }
        Ok(())
    }
}

pub trait Vm<T: MemoryType>:
    Memory<T, Error = VmError> + View<T, Error = VmError> + Callable<T> + Execute
{
}
impl<T: MemoryType, M> Vm<T> for M where
    M: Memory<T, Error = VmError> + View<T, Error = VmError> + Callable<T> + Execute + ?Sized
{
}

/// Masks a value with a one-time pad of one party.
pub trait MaskExt: Memory<binary::Binary, Error = VmError> + View<binary::Binary, Error = VmError> + Callable<binary::Binary> {
    fn mask_private<R: Repr<binary::Binary>>(&mut self, value: R, otp: R::Clear) -> Result<R, VmError> {
        let v = value.to_raw();
        let pad = self.alloc_raw(v.len())?;
        self.mark_private_raw(pad)?;
        self.assign_raw(pad, R::encode(otp))?;
        self.commit_raw(pad)?;
        let call = Call::builder(Arc::new(crate::circuits::circuits::xor(v.len()))).arg(v).arg(pad).build().map_err(VmError::call)?;
        self.call_raw(call).map(R::from_raw)
    }
    fn mask_blind<R: Repr<binary::Binary>>(&mut self, value: R) -> Result<R, VmError> {
        let v = value.to_raw();
        let pad = self.alloc_raw(v.len())?;
        self.mark_blind_raw(pad)?;
        self.commit_raw(pad)?;
        let call = Call::builder(Arc::new(crate::circuits::circuits::xor(v.len()))).arg(v).arg(pad).build().map_err(VmError::call)?;
        self.call_raw(call).map(R::from_raw)
    }
}
impl<M> MaskExt for M where
    M: Memory<binary::Binary, Error = VmError> + View<binary::Binary, Error = VmError> + Callable<binary::Binary> + ?Sized
{
}

pub mod prelude {
    pub use super::{Call, CallBuilder, Callable, CallableExt, Execute, MaskExt, Vm};
    pub use crate::memory::{
        binary, Array, FromRaw, Memory, MemoryExt, Repr, Slice, StaticSize, ToRaw, Vector, View, ViewExt,
    };
}
