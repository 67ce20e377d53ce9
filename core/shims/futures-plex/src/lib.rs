//! Stand-in for futures-plex: in-memory pipes of bounded capacity.
use futures::{AsyncRead, AsyncWrite};
use std::{
    fmt, io,
    pin::Pin,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Poll, Waker},
};

struct Pipe {
    /// Grows up to the capacity.
    buf: Vec<u8>,
    cap: usize,
    start: usize,
    end: usize,
    write_closed: bool,
    read_gone: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}
impl Pipe {
    fn new(cap: usize) -> Arc<Mutex<Pipe>> {
        Arc::new(Mutex::new(Pipe {
            buf: vec![],
            cap,
            start: 0,
            end: 0,
            write_closed: false,
            read_gone: false,
            reader: None,
            writer: None,
        }))
    }
    fn get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        if self.start == self.end && !self.write_closed {
            self.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(&self.buf[self.start..self.end]))
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.end - self.start);
        self.start += n;
        if n > 0 {
            if let Some(w) = self.writer.take() {
                w.wake();
            }
        }
    }
    fn space(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        if self.write_closed || self.read_gone {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        self.buf.copy_within(self.start..self.end, 0);
        self.end -= self.start;
        self.start = 0;
        if self.end == self.cap {
            self.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let to = self.cap.min(self.end + 32 * 1024);
        if self.buf.len() < to {
            self.buf.resize(to, 0);
        }
        Poll::Ready(Ok(&mut self.buf[self.end..to]))
    }
    fn advance_mut(&mut self, n: usize) {
        assert!(n <= self.buf.len() - self.end);
        self.end += n;
        if n > 0 {
            if let Some(w) = self.reader.take() {
                w.wake();
            }
        }
    }
    fn close_write(&mut self) {
        self.write_closed = true;
        if let Some(w) = self.reader.take() {
            w.wake();
        }
    }
}

pub fn duplex(cap: usize) -> (DuplexStream, DuplexStream) {
    let (a, b) = (Pipe::new(cap), Pipe::new(cap));
    (DuplexStream { read: a.clone(), write: b.clone() }, DuplexStream { read: b, write: a })
}

pub struct DuplexStream {
    read: Arc<Mutex<Pipe>>,
    write: Arc<Mutex<Pipe>>,
}
impl fmt::Debug for DuplexStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("DuplexStream")
    }
}
impl Drop for DuplexStream {
    fn drop(&mut self) {
        self.write.lock().unwrap().close_write();
        let mut r = self.read.lock().unwrap();
        r.read_gone = true;
        if let Some(w) = r.writer.take() {
            w.wake();
        }
    }
}
pub struct ReadGuard<'a>(MutexGuard<'a, Pipe>);
impl ReadGuard<'_> {
    pub fn poll_get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.0.get(cx)
    }
    pub fn advance(&mut self, n: usize) {
        self.0.advance(n)
    }
}
pub struct WriteGuard<'a>(MutexGuard<'a, Pipe>);
impl WriteGuard<'_> {
    pub fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        self.0.space(cx)
    }
    pub fn advance_mut(&mut self, n: usize) {
        self.0.advance_mut(n)
    }
}
impl DuplexStream {
    pub fn poll_lock_read(&mut self, _cx: &mut Context<'_>) -> Poll<ReadGuard<'_>> {
        Poll::Ready(ReadGuard(self.read.lock().unwrap()))
    }
    pub fn poll_lock_write(&mut self, _cx: &mut Context<'_>) -> Poll<WriteGuard<'_>> {
        Poll::Ready(WriteGuard(self.write.lock().unwrap()))
    }
    /// Moves bytes from a reader into the pipe.
    pub fn poll_write_from<R: AsyncRead>(&mut self, cx: &mut Context<'_>, reader: Pin<&mut R>) -> Poll<io::Result<usize>> {
        let mut p = self.write.lock().unwrap();
        let n = match p.space(cx) {
            Poll::Ready(Ok(b)) => match reader.poll_read(cx, b) {
                Poll::Ready(Ok(n)) => n,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            },
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        p.advance_mut(n);
        Poll::Ready(Ok(n))
    }
    /// Moves bytes from the pipe to a writer, until it takes no more. (Whether
    /// the crate itself stops after one write is not known here; a caller that
    /// needs to be woken after a short write would hang if it does.)
    pub fn poll_read_to<W: AsyncWrite>(&mut self, cx: &mut Context<'_>, mut writer: Pin<&mut W>) -> Poll<io::Result<usize>> {
        let mut p = self.read.lock().unwrap();
        let mut all = 0;
        loop {
            let r = match p.get(cx) {
                Poll::Ready(Ok(b)) if b.is_empty() => Poll::Ready(Ok(0)),
                Poll::Ready(Ok(b)) => writer.as_mut().poll_write(cx, b),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            };
            match r {
                Poll::Ready(Ok(n)) if n > 0 => {
                    p.advance(n);
                    all += n;
                }
                _ if all > 0 => return Poll::Ready(Ok(all)),
                r => return r,
            }
        }
    }
}
impl AsyncRead for DuplexStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut p = self.read.lock().unwrap();
        let n = match p.get(cx) {
            Poll::Ready(Ok(b)) => {
                let n = b.len().min(buf.len());
                buf[..n].copy_from_slice(&b[..n]);
                n
            }
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        p.advance(n);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for DuplexStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.write.lock().unwrap();
        let n = match p.space(cx) {
            Poll::Ready(Ok(b)) => {
                let n = b.len().min(buf.len());
                b[..n].copy_from_slice(&buf[..n]);
                n
            }
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        p.advance_mut(n);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.write.lock().unwrap().close_write();
        Poll::Ready(Ok(()))
    }
}
