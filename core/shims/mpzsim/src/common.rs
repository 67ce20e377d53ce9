//! mpz-common: contexts over an in-memory hub or a multiplexer.
pub use crate::channel::Io as IoInner;
use async_trait::async_trait;
use futures::future as fu;
use std::{
    collections::{HashMap, VecDeque},
    fmt,
    future::Future,
    io as stdio,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Poll, Waker},
};

pub mod io {
    pub use crate::channel::Io;
}
pub mod mux {
    use super::io::Io;
    pub trait Mux: std::fmt::Debug {
        fn open(&self, id: &[u8]) -> Result<Io, std::io::Error>;
    }
}
use mux::Mux;

pub mod future {
    use std::{
        future::Future,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll, Waker},
    };
    /// A future whose output may be asked for without waiting.
    pub trait Output: Future {
        type Ok;
        type Err;
        fn try_recv(&mut self) -> Result<Option<Self::Ok>, Self::Err>;
    }

    #[derive(Debug)]
    struct Slot<T> {
        value: Option<T>,
        gone: bool,
        waker: Option<Waker>,
    }
    #[derive(Debug)]
    pub struct Sender<T>(Arc<Mutex<Slot<T>>>);
    #[derive(Debug)]
    pub struct MaybeDone<T>(Arc<Mutex<Slot<T>>>);
    #[derive(Debug, Clone, Copy, PartialEq, Eq, thiserror::Error)]
    #[error("canceled")]
    pub struct Canceled;

    pub fn new_output<T>() -> (Sender<T>, MaybeDone<T>) {
        let s = Arc::new(Mutex::new(Slot { value: None, gone: false, waker: None }));
        (Sender(s.clone()), MaybeDone(s))
    }
    impl<T> Sender<T> {
        pub fn send(self, v: T) {
            let mut s = self.0.lock().unwrap();
            s.value = Some(v);
            if let Some(w) = s.waker.take() {
                w.wake();
            }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            let mut s = self.0.lock().unwrap();
            s.gone = true;
            if let Some(w) = s.waker.take() {
                w.wake();
            }
        }
    }
    impl<T> MaybeDone<T> {
        pub fn try_recv(&mut self) -> Result<Option<T>, Canceled> {
            let mut s = self.0.lock().unwrap();
            match s.value.take() {
                Some(v) => Ok(Some(v)),
                None if s.gone => Err(Canceled),
                None => Ok(None),
            }
        }
    }
    impl<T> Future for MaybeDone<T> {
        type Output = Result<T, Canceled>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            match self.try_recv() {
                Ok(Some(v)) => Poll::Ready(Ok(v)),
                Err(e) => Poll::Ready(Err(e)),
                Ok(None) => {
                    let mut s = self.0.lock().unwrap();
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    impl<T> Output for MaybeDone<T> {
        type Ok = T;
        type Err = Canceled;
        fn try_recv(&mut self) -> Result<Option<T>, Canceled> {
            MaybeDone::try_recv(self)
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct ContextId(Vec<u8>);
impl ContextId {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Debug for ContextId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ContextId({:?})", self.0)
    }
}
impl fmt::Display for ContextId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

#[derive(Debug, thiserror::Error)]
#[error("context error: {0}")]
pub struct ContextError(#[from] stdio::Error);

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

pub struct Context {
    id: ContextId,
    mux: Arc<dyn Mux + Send + Sync>,
    io: io::Io,
    children: Vec<Context>,
}
impl fmt::Debug for Context {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Context({:?})", self.id)
    }
}
impl Context {
    pub fn from_mux(mux: Arc<dyn Mux + Send + Sync>, id: Vec<u8>) -> Result<Self, ContextError> {
        let io = mux.open(&id)?;
        Ok(Context { id: ContextId(id), mux, io, children: vec![] })
    }
    pub fn id(&self) -> &ContextId {
        &self.id
    }
    pub fn io_mut(&mut self) -> &mut io::Io {
        &mut self.io
    }
    fn children(&mut self, n: usize) -> Result<&mut [Context], ContextError> {
        while self.children.len() < n {
            let mut id = self.id.0.clone();
            id.push(self.children.len() as u8);
            self.children.push(Context::from_mux(self.mux.clone(), id)?);
        }
        Ok(&mut self.children[..n])
    }
    pub async fn join<'a, A, B, RA, RB>(&'a mut self, a: A, b: B) -> Result<(RA, RB), ContextError>
    where
        A: for<'b> FnOnce(&'b mut Context) -> Fut<'b, RA> + Send + 'a,
        B: for<'b> FnOnce(&'b mut Context) -> Fut<'b, RB> + Send + 'a,
        RA: Send + 'a,
        RB: Send + 'a,
    {
        let [ca, cb] = self.children(2)? else { unreachable!() };
        Ok(fu::join(a(ca), b(cb)).await)
    }
    pub async fn try_join<'a, A, B, RA, RB, E>(&'a mut self, a: A, b: B) -> Result<Result<(RA, RB), E>, ContextError>
    where
        A: for<'b> FnOnce(&'b mut Context) -> Fut<'b, Result<RA, E>> + Send + 'a,
        B: for<'b> FnOnce(&'b mut Context) -> Fut<'b, Result<RB, E>> + Send + 'a,
        RA: Send + 'a,
        RB: Send + 'a,
        E: Send + 'a,
    {
        let [ca, cb] = self.children(2)? else { unreachable!() };
        Ok(fu::try_join(a(ca), b(cb)).await)
    }
    pub async fn try_join3<'a, A, B, C, RA, RB, RC, E>(
        &'a mut self,
        a: A,
        b: B,
        c: C,
    ) -> Result<Result<(RA, RB, RC), E>, ContextError>
    where
        A: for<'b> FnOnce(&'b mut Context) -> Fut<'b, Result<RA, E>> + Send + 'a,
        B: for<'b> FnOnce(&'b mut Context) -> Fut<'b, Result<RB, E>> + Send + 'a,
        C: for<'b> FnOnce(&'b mut Context) -> Fut<'b, Result<RC, E>> + Send + 'a,
        RA: Send + 'a,
        RB: Send + 'a,
        RC: Send + 'a,
        E: Send + 'a,
    {
        let [ca, cb, cc] = self.children(3)? else { unreachable!() };
        Ok(fu::try_join3(a(ca), b(cb), c(cc)).await)
    }
}

#[async_trait]
pub trait Flush {
    type Error: std::error::Error + Send + Sync + 'static;
    fn wants_flush(&self) -> bool;
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error>;
}

#[async_trait]
pub trait Task {
    type Output;
    async fn run(self, ctx: &mut Context) -> Self::Output;
    async fn run_boxed(self: Box<Self>, ctx: &mut Context) -> Self::Output;
}

/// Makes contexts over a multiplexer; everything runs on the caller's task.
pub struct Executor {
    mux: Arc<dyn Mux + Send + Sync>,
    next: u8,
}
impl fmt::Debug for Executor {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Executor")
    }
}
#[derive(Default)]
pub struct ExecutorBuilder;
impl Executor {
    pub fn builder() -> ExecutorBuilder {
        ExecutorBuilder
    }
    pub fn new_context(&mut self) -> Result<Context, ContextError> {
        let c = Context::from_mux(self.mux.clone(), vec![self.next])?;
        self.next += 1;
        Ok(c)
    }
}
impl ExecutorBuilder {
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn build<M: Mux + Send + Sync + 'static>(self, mux: M) -> Executor {
        Executor { mux: Arc::new(mux), next: 0 }
    }
}

/// What becomes of a frame on its way.
pub enum Fate {
    Pass,
    Drop,
    /// The sender's channel is closed instead.
    Close,
    /// These come instead.
    Many(Vec<Vec<u8>>),
}
/// Sees (and may change) every frame: sender (0 or 1), channel, number of the
/// frame in its channel and direction.
pub type Tap = dyn FnMut(usize, &[u8], usize, &mut Vec<u8>) -> Fate + Send;

#[derive(Default)]
struct Queue {
    frames: VecDeque<Vec<u8>>,
    waker: Option<Waker>,
    sent: usize,
    closed: bool,
}
/// An in-memory network between two parties.
pub struct Hub {
    queues: Mutex<HashMap<(usize, Vec<u8>), Queue>>,
    tap: Mutex<Option<Box<Tap>>>,
}
impl Hub {
    pub fn new(tap: Option<Box<Tap>>) -> Arc<Hub> {
        Arc::new(Hub { queues: Mutex::default(), tap: Mutex::new(tap) })
    }
    pub fn side(self: &Arc<Self>, side: usize) -> Side {
        Side { hub: self.clone(), side }
    }
    pub fn context(self: &Arc<Self>, side: usize) -> Context {
        Context::from_mux(Arc::new(self.side(side)), vec![0]).unwrap()
    }
    /// Frames sent so far, over all channels, by a party.
    pub fn sent(&self, side: usize) -> usize {
        self.queues.lock().unwrap().iter().filter(|(k, _)| k.0 == 1 - side).map(|(_, q)| q.sent).sum()
    }
    /// Frames that arrived but were never read by a party.
    pub fn unread(&self, side: usize) -> usize {
        self.queues.lock().unwrap().iter().filter(|(k, _)| k.0 == side).map(|(_, q)| q.frames.len()).sum()
    }
    /// Ends what a party sends (as when it is gone).
    pub fn close(&self, side: usize) {
        for (k, q) in self.queues.lock().unwrap().iter_mut() {
            if k.0 == 1 - side {
                q.closed = true;
                if let Some(w) = q.waker.take() {
                    w.wake();
                }
            }
        }
    }
}
pub struct Side {
    hub: Arc<Hub>,
    side: usize,
}
impl fmt::Debug for Side {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Side({})", self.side)
    }
}
impl Mux for Side {
    fn open(&self, id: &[u8]) -> Result<io::Io, stdio::Error> {
        let mut q = self.hub.queues.lock().unwrap();
        q.entry((0, id.to_vec())).or_default();
        q.entry((1, id.to_vec())).or_default();
        Ok(io::Io::new(HubIo { hub: self.hub.clone(), side: self.side, id: id.to_vec() }))
    }
}
struct HubIo {
    hub: Arc<Hub>,
    side: usize,
    id: Vec<u8>,
}
impl Drop for HubIo {
    fn drop(&mut self) {
        if let Some(q) = self.hub.queues.lock().unwrap().get_mut(&(1 - self.side, self.id.clone())) {
            q.closed = true;
            if let Some(w) = q.waker.take() {
                w.wake();
            }
        }
    }
}
impl crate::channel::Frames for HubIo {
    fn start_send(&mut self, mut frame: Vec<u8>) -> stdio::Result<()> {
        let key = (1 - self.side, self.id.clone());
        let n = self.hub.queues.lock().unwrap().get(&key).unwrap().sent;
        let fate = match self.hub.tap.lock().unwrap().as_mut() {
            Some(tap) => tap(self.side, &self.id, n, &mut frame),
            None => Fate::Pass,
        };
        let mut qs = self.hub.queues.lock().unwrap();
        let q = qs.get_mut(&key).unwrap();
        if q.closed {
            return Err(stdio::ErrorKind::BrokenPipe.into());
        }
        q.sent += 1;
        match fate {
            Fate::Pass => q.frames.push_back(frame),
            Fate::Drop => {}
            Fate::Many(v) => q.frames.extend(v),
            Fate::Close => q.closed = true,
        }
        if let Some(w) = q.waker.take() {
            w.wake();
        }
        Ok(())
    }
    fn poll_sent(&mut self, _cx: &mut std::task::Context<'_>) -> Poll<stdio::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_recv(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<stdio::Result<Vec<u8>>>> {
        let mut qs = self.hub.queues.lock().unwrap();
        let q = qs.get_mut(&(self.side, self.id.clone())).unwrap();
        match q.frames.pop_front() {
            Some(f) => Poll::Ready(Some(Ok(f))),
            None if q.closed => Poll::Ready(None),
            None => {
                q.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub mod context {
    use super::*;
    pub use super::{Context, ContextError};
    pub fn test_st_context(_io_buffer: usize) -> (Context, Context) {
        let hub = Hub::new(None);
        (hub.context(0), hub.context(1))
    }
    pub fn test_mt_context(_io_buffer: usize) -> (Executor, Executor) {
        let hub = Hub::new(None);
        (Executor::builder().build(hub.side(0)), Executor::builder().build(hub.side(1)))
    }
}
