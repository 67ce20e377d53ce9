//! Stand-in for tlsn-mux: streams named by byte strings over one byte stream.
//! A frame is: kind (1), length of the id (2), id, length of the payload (4),
//! payload.
use futures::{AsyncRead, AsyncWrite};
use std::{
    collections::{HashMap, VecDeque},
    fmt, io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

pub const DATA: u8 = 0;
pub const FIN: u8 = 1;
pub const GOAWAY: u8 = 2;

#[derive(Debug, Clone, Default)]
pub struct Config {
    keep_alive: bool,
    close_sync: bool,
}
impl Config {
    pub fn set_keep_alive(&mut self, v: bool) -> &mut Self {
        self.keep_alive = v;
        self
    }
    pub fn set_close_sync(&mut self, v: bool) -> &mut Self {
        self.close_sync = v;
        self
    }
}

#[derive(Debug, thiserror::Error)]
pub enum ConnectionError {
    #[error("i/o error: {0}")]
    Io(#[from] io::Error),
    #[error("malformed frame")]
    Frame,
    #[error("connection is closed")]
    Closed,
    #[error("stream is open already")]
    InUse,
}
impl From<ConnectionError> for io::Error {
    fn from(e: ConnectionError) -> io::Error {
        match e {
            ConnectionError::Io(e) => e,
            e => io::Error::other(e),
        }
    }
}

#[derive(Default)]
struct St {
    opened: bool,
    recv: VecDeque<u8>,
    recv_fin: bool,
    sent_fin: bool,
    reader: Option<Waker>,
}
#[derive(Default)]
struct Shared {
    streams: HashMap<Vec<u8>, St>,
    out: VecDeque<u8>,
    /// The connection is over; streams read what is left, then end.
    dead: bool,
    driver: Option<Waker>,
}
impl Shared {
    fn frame(&mut self, kind: u8, id: &[u8], payload: &[u8]) {
        self.out.push_back(kind);
        self.out.extend((id.len() as u16).to_be_bytes());
        self.out.extend(id);
        self.out.extend((payload.len() as u32).to_be_bytes());
        self.out.extend(payload);
        if let Some(w) = self.driver.take() {
            w.wake();
        }
    }
    fn die(&mut self) {
        self.dead = true;
        for s in self.streams.values_mut() {
            if let Some(w) = s.reader.take() {
                w.wake();
            }
        }
    }
}

/// Drives the streams.
pub struct Connection<Io> {
    io: Io,
    shared: Arc<Mutex<Shared>>,
    buf: Vec<u8>,
    closing: bool,
    sent_goaway: bool,
    got_goaway: bool,
    done: bool,
}
impl<Io> fmt::Debug for Connection<Io> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Connection")
    }
}
impl<Io> Drop for Connection<Io> {
    fn drop(&mut self) {
        self.shared.lock().unwrap().die();
    }
}
/// Opens streams.
#[derive(Clone)]
pub struct Handle {
    shared: Arc<Mutex<Shared>>,
}
impl fmt::Debug for Handle {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Handle")
    }
}
impl Handle {
    pub fn new_stream(&self, id: &[u8]) -> Result<Stream, ConnectionError> {
        let mut s = self.shared.lock().unwrap();
        if s.dead {
            return Err(ConnectionError::Closed);
        }
        let st = s.streams.entry(id.to_vec()).or_default();
        if st.opened {
            return Err(ConnectionError::InUse);
        }
        st.opened = true;
        Ok(Stream { shared: self.shared.clone(), id: id.to_vec() })
    }
}
pub struct Stream {
    shared: Arc<Mutex<Shared>>,
    id: Vec<u8>,
}
impl fmt::Debug for Stream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Stream({:?})", self.id)
    }
}
impl Stream {
    fn fin(&self) {
        let mut s = self.shared.lock().unwrap();
        if !s.dead && !std::mem::replace(&mut s.streams.get_mut(&self.id).unwrap().sent_fin, true) {
            s.frame(FIN, &self.id, &[]);
        }
    }
}
impl Drop for Stream {
    fn drop(&mut self) {
        self.fin();
    }
}
impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.shared.lock().unwrap();
        let dead = s.dead;
        let st = s.streams.get_mut(&self.id).unwrap();
        if st.recv.is_empty() {
            if st.recv_fin || dead {
                return Poll::Ready(Ok(0));
            }
            st.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(st.recv.len());
        for (b, v) in buf.iter_mut().zip(st.recv.drain(..n)) {
            *b = v;
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.shared.lock().unwrap();
        if s.dead || s.streams[&self.id].sent_fin {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        s.frame(DATA, &self.id, buf);
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.fin();
        Poll::Ready(Ok(()))
    }
}

impl<Io: AsyncRead + AsyncWrite + Unpin> Connection<Io> {
    pub fn new(io: Io, _config: Config) -> Self {
        Connection {
            io,
            shared: Arc::default(),
            buf: vec![],
            closing: false,
            sent_goaway: false,
            got_goaway: false,
            done: false,
        }
    }
    fn try_poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        loop {
            let mut progress = false;
            {
                let mut s = self.shared.lock().unwrap();
                s.driver = Some(cx.waker().clone());
                if (self.closing || self.got_goaway) && !self.sent_goaway {
                    self.sent_goaway = true;
                    s.frame(GOAWAY, &[], &[]);
                    s.driver = Some(cx.waker().clone());
                }
                while !s.out.is_empty() {
                    let (a, _) = s.out.as_slices();
                    match Pin::new(&mut self.io).poll_write(cx, a) {
                        // Nobody reads a goodbye any more.
                        Poll::Ready(Err(_)) if self.got_goaway => s.out.clear(),
                        Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::Error::from(io::ErrorKind::WriteZero).into())),
                        Poll::Ready(Ok(n)) => drop(s.out.drain(..n)),
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                        Poll::Pending => break,
                    }
                }
                let drained = s.out.is_empty();
                drop(s);
                if drained {
                    match Pin::new(&mut self.io).poll_flush(cx) {
                        Poll::Ready(Err(e)) if !self.got_goaway => return Poll::Ready(Err(e.into())),
                        _ => {}
                    }
                    if self.sent_goaway && self.got_goaway {
                        return Poll::Ready(Ok(()));
                    }
                }
            }
            if !self.got_goaway {
                let mut b = [0u8; 8192];
                match Pin::new(&mut self.io).poll_read(cx, &mut b) {
                    Poll::Ready(Ok(0)) => {
                        return Poll::Ready(Err(io::Error::from(io::ErrorKind::UnexpectedEof).into()));
                    }
                    Poll::Ready(Ok(n)) => {
                        self.buf.extend_from_slice(&b[..n]);
                        self.frames()?;
                        progress = true;
                    }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                    Poll::Pending => {}
                }
            }
            if !progress {
                return Poll::Pending;
            }
        }
    }
    fn frames(&mut self) -> Result<(), ConnectionError> {
        let mut at = 0;
        while let Some((kind, id, payload, n)) = split(&self.buf[at..]) {
            match kind {
                DATA | FIN => {
                    let mut s = self.shared.lock().unwrap();
                    let st = s.streams.entry(id.to_vec()).or_default();
                    if kind == FIN {
                        st.recv_fin = true;
                    } else {
                        st.recv.extend(payload);
                    }
                    if let Some(w) = st.reader.take() {
                        w.wake();
                    }
                    // A stream is closed in both directions at once.
                    if kind == FIN && !std::mem::replace(&mut st.sent_fin, true) {
                        s.frame(FIN, id, &[]);
                    }
                }
                GOAWAY => self.got_goaway = true,
                _ => return Err(ConnectionError::Frame),
            }
            at += n;
        }
        self.buf.drain(..at);
        Ok(())
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        if self.done {
            return Poll::Ready(Ok(()));
        }
        let r = self.try_poll(cx);
        match &r {
            Poll::Ready(Ok(())) => {
                self.done = true;
                self.shared.lock().unwrap().die();
            }
            Poll::Ready(Err(_)) => self.shared.lock().unwrap().die(),
            Poll::Pending => {}
        }
        r
    }
}
impl<Io> Connection<Io> {
    pub fn handle(&self) -> Result<Handle, ConnectionError> {
        Ok(Handle { shared: self.shared.clone() })
    }
    pub fn close(&mut self) {
        self.closing = true;
        if let Some(w) = self.shared.lock().unwrap().driver.take() {
            w.wake();
        }
    }
    pub fn is_complete(&self) -> bool {
        self.done
    }
    pub fn try_into_io(self) -> Result<Io, Self> {
        if !self.done {
            return Err(self);
        }
        let this = std::mem::ManuallyDrop::new(self);
        // Everything is taken out exactly once.
        unsafe {
            drop(std::ptr::read(&this.shared));
            drop(std::ptr::read(&this.buf));
            Ok(std::ptr::read(&this.io))
        }
    }
}

/// The first frame: kind, id, payload, and its whole length.
pub fn split(b: &[u8]) -> Option<(u8, &[u8], &[u8], usize)> {
    let n = u16::from_be_bytes(b.get(1..3)?.try_into().unwrap()) as usize;
    let id = b.get(3..3 + n)?;
    let m = u32::from_be_bytes(b.get(3 + n..7 + n)?.try_into().unwrap()) as usize;
    let payload = b.get(7 + n..7 + n + m)?;
    Some((b[0], id, payload, 7 + n + m))
}
