//! A one-threaded world: tasks polled in a random order, pipes that cut their
//! bytes at random places, and a relay that may change what passes.
use futures::{AsyncRead, AsyncWrite};
use std::{
    cell::RefCell,
    collections::{HashMap, VecDeque},
    future::Future,
    io,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
};

/// xorshift64*
#[derive(Debug, Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n.max(1) as u64) as usize
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Release);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Release);
    }
}

/// What a task returned.
pub struct Slot<T>(Rc<RefCell<Option<T>>>);
impl<T> Slot<T> {
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
}

struct Task {
    name: &'static str,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    waker: Waker,
    main: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    /// All main tasks returned.
    Done,
    /// Nothing moves any more, and these main tasks have not returned.
    Stalled(Vec<&'static str>),
    /// These main tasks keep waking each other up without an end.
    Spinning(Vec<&'static str>),
}

pub struct Sim {
    tasks: Vec<Task>,
    rng: Rng,
    fair: bool,
    pub panics: Vec<(&'static str, String)>,
    pub idle: Idle,
}
/// Wakes those who wait for everything else to rest.
#[derive(Default, Clone)]
pub struct Idle(Rc<RefCell<Vec<Waker>>>);
impl Idle {
    pub async fn wait(&self) {
        let mut first = true;
        futures::future::poll_fn(|cx| {
            if std::mem::take(&mut first) {
                self.0.borrow_mut().push(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(())
        })
        .await
    }
}
impl Sim {
    /// With seed 0 the tasks take turns.
    pub fn new(seed: u64) -> Self {
        Sim { tasks: vec![], rng: Rng::new(seed), fair: seed == 0, panics: vec![], idle: Idle::default() }
    }
    pub fn spawn<T: 'static>(&mut self, name: &'static str, main: bool, fut: impl Future<Output = T> + 'static) -> Slot<T> {
        let out = Rc::new(RefCell::new(None));
        let o = out.clone();
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        self.tasks.push(Task {
            name,
            fut: Some(Box::pin(async move {
                let v = fut.await;
                *o.borrow_mut() = Some(v);
            })),
            waker: flag.clone().into(),
            flag,
            main,
        });
        Slot(out)
    }
    fn left(&self) -> Vec<&'static str> {
        self.tasks.iter().filter(|t| t.main && t.fut.is_some()).map(|t| t.name).collect()
    }
    pub fn run(&mut self, max_polls: usize) -> End {
        let mut turn = 0;
        let mut late = std::collections::BTreeSet::new();
        for n in 0..max_polls {
            if self.left().is_empty() {
                return End::Done;
            }
            let ready: Vec<usize> =
                (0..self.tasks.len()).filter(|i| self.tasks[*i].fut.is_some() && self.tasks[*i].flag.0.load(Ordering::Acquire)).collect();
            if ready.is_empty() {
                let idle = std::mem::take(&mut *self.idle.0.borrow_mut());
                if idle.is_empty() {
                    return End::Stalled(self.left());
                }
                idle.into_iter().for_each(Waker::wake);
                continue;
            }
            let i = if self.fair {
                turn = *ready.iter().find(|i| **i > turn).unwrap_or(&ready[0]);
                turn
            } else {
                ready[self.rng.below(ready.len())]
            };
            let t = &mut self.tasks[i];
            if n + 5000 > max_polls {
                late.insert(t.name);
            }
            t.flag.0.store(false, Ordering::Release);
            let waker = t.waker.clone();
            let fut = t.fut.as_mut().unwrap();
            match vpt::catch(|| fut.as_mut().poll(&mut Context::from_waker(&waker))) {
                Ok(Poll::Pending) => {}
                Ok(Poll::Ready(())) => t.fut = None,
                Err(m) => {
                    self.panics.push((t.name, m));
                    let f = t.fut.take();
                    // Dropping what panicked may panic again.
                    let _ = vpt::catch(move || drop(f));
                }
            }
        }
        End::Spinning(self.left().into_iter().filter(|n| late.contains(n)).collect())
    }
}
impl Drop for Sim {
    fn drop(&mut self) {
        for t in std::mem::take(&mut self.tasks) {
            let f = t.fut;
            let _ = vpt::catch(move || drop(f));
        }
    }
}

struct Half {
    buf: VecDeque<u8>,
    cap: usize,
    /// The writer closed or is gone.
    fin: bool,
    /// The reader is gone.
    gone: bool,
    frag: Option<Rng>,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
impl Half {
    fn new(cap: usize, frag: Option<u64>) -> Arc<Mutex<Half>> {
        Arc::new(Mutex::new(Half { buf: VecDeque::new(), cap, fin: false, gone: false, frag: frag.map(Rng::new), reader: None, writer: None }))
    }
    fn cut(&mut self, n: usize) -> usize {
        match &mut self.frag {
            Some(r) if n > 1 => match r.below(4) {
                0 => 1 + r.below(n.min(8)),
                1 => 1 + r.below(n),
                _ => n,
            },
            _ => n,
        }
    }
}
/// One end of a two-way pipe.
pub struct Pipe {
    rd: Arc<Mutex<Half>>,
    wr: Arc<Mutex<Half>>,
}
/// A pipe of the given capacity; with a seed, reads and writes are cut short.
pub fn pipe(cap: usize, frag: Option<u64>) -> (Pipe, Pipe) {
    let (a, b) = (Half::new(cap, frag), Half::new(cap, frag.map(|f| f ^ 0x5555)));
    (Pipe { rd: a.clone(), wr: b.clone() }, Pipe { rd: b, wr: a })
}
impl Drop for Pipe {
    fn drop(&mut self) {
        let mut w = self.wr.lock().unwrap();
        w.fin = true;
        if let Some(k) = w.reader.take() {
            k.wake();
        }
        drop(w);
        let mut r = self.rd.lock().unwrap();
        r.gone = true;
        if let Some(k) = r.writer.take() {
            k.wake();
        }
    }
}
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut h = self.rd.lock().unwrap();
        if h.buf.is_empty() {
            if h.fin {
                return Poll::Ready(Ok(0));
            }
            h.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = out.len().min(h.buf.len());
        let n = h.cut(n);
        for (o, b) in out.iter_mut().zip(h.buf.drain(..n)) {
            *o = b;
        }
        if let Some(k) = h.writer.take() {
            k.wake();
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut h = self.wr.lock().unwrap();
        if h.fin || h.gone {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = h.cap - h.buf.len();
        if room == 0 {
            h.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = b.len().min(room);
        let n = h.cut(n);
        h.buf.extend(&b[..n]);
        if let Some(k) = h.reader.take() {
            k.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut h = self.wr.lock().unwrap();
        h.fin = true;
        if let Some(k) = h.reader.take() {
            k.wake();
        }
        Poll::Ready(Ok(()))
    }
}

/// What becomes of a message.
pub enum Act {
    Pass(Vec<u8>),
    /// Any number of messages in its place.
    Many(Vec<Vec<u8>>),
    /// Both connections are cut.
    Cut,
}
/// Sees every message: sender (0 the prover's side, 1 the verifier's), stream,
/// number of the message on its stream and direction, and its bytes.
pub type Tap = dyn FnMut(usize, &[u8], usize, Vec<u8>) -> Act;

/// Carries one direction of a session's connection, message by message.
pub async fn relay(side: usize, mut from: impl AsyncRead + Unpin, mut to: impl AsyncWrite + Unpin, tap: Rc<RefCell<Box<Tap>>>) {
    use futures::{AsyncReadExt, AsyncWriteExt};
    let mut buf = vec![];
    let mut parts: HashMap<Vec<u8>, (Vec<u8>, usize)> = HashMap::new();
    let mut b = vec![0u8; 16384];
    loop {
        match from.read(&mut b).await {
            Ok(0) | Err(_) => break,
            Ok(n) => buf.extend_from_slice(&b[..n]),
        }
        let mut at = 0;
        let mut out = vec![];
        let mut cut = false;
        while let Some((kind, id, payload, n)) = tlsn_mux::split(&buf[at..]) {
            let proxy = id.starts_with(b"proxy_stream");
            let mut put = |id: &[u8], m: &[u8], head: bool| {
                out.push(tlsn_mux::DATA);
                out.extend((id.len() as u16).to_be_bytes());
                out.extend_from_slice(id);
                out.extend((m.len() as u32 + if head { 4 } else { 0 }).to_be_bytes());
                if head {
                    out.extend((m.len() as u32).to_be_bytes());
                }
                out.extend(m);
            };
            if kind != tlsn_mux::DATA {
                out.extend_from_slice(&buf[at..at + n]);
            } else if proxy {
                // Not messages, but bytes.
                let (_, count) = parts.entry(id.to_vec()).or_default();
                *count += 1;
                match (tap.borrow_mut())(side, id, *count - 1, payload.to_vec()) {
                    Act::Pass(m) => put(id, &m, false),
                    Act::Many(ms) => ms.iter().filter(|m| !m.is_empty()).for_each(|m| put(id, m, false)),
                    Act::Cut => cut = true,
                }
            } else {
                let (part, count) = parts.entry(id.to_vec()).or_default();
                part.extend_from_slice(payload);
                let mut p = 0;
                while part.len() >= p + 4 {
                    let m = u32::from_be_bytes(part[p..p + 4].try_into().unwrap()) as usize;
                    if part.len() < p + 4 + m {
                        break;
                    }
                    let msg = part[p + 4..p + 4 + m].to_vec();
                    p += 4 + m;
                    let k = *count;
                    *count += 1;
                    match (tap.borrow_mut())(side, id, k, msg) {
                        Act::Pass(m) => put(id, &m, true),
                        Act::Many(ms) => ms.iter().for_each(|m| put(id, m, true)),
                        Act::Cut => {
                            cut = true;
                            break;
                        }
                    }
                }
                part.drain(..p);
            }
            at += n;
            if cut {
                break;
            }
        }
        buf.drain(..at);
        if to.write_all(&out).await.is_err() || cut {
            break;
        }
    }
    let _ = to.close().await;
}
