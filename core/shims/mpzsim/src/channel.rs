//! serio: typed messages over a channel of byte frames (bincode).
use futures::{AsyncRead, AsyncWrite};
use serde::{de::DeserializeOwned, Serialize};
use std::{
    collections::VecDeque,
    future::Future,
    io,
    pin::Pin,
    task::{Context, Poll},
};

fn bad<E: Into<Box<dyn std::error::Error + Send + Sync>>>(e: E) -> io::Error {
    io::Error::new(io::ErrorKind::InvalidData, e)
}

/// A channel of frames.
pub trait Frames: Send {
    /// Queues a frame (never waits).
    fn start_send(&mut self, frame: Vec<u8>) -> io::Result<()>;
    /// Ready when all queued frames are on their way.
    fn poll_sent(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    /// Ready with the next frame; `None` when the peer is gone.
    fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>>;
}

pub trait IoSink: Unpin {
    fn start_send<T: Serialize>(&mut self, item: &T) -> io::Result<()>;
    fn poll_sent(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
}
pub trait IoStream: Unpin {
    fn poll_next<T: DeserializeOwned>(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<T>>>;
}

pub struct Sending<'a, S: ?Sized>(&'a mut S, Option<io::Error>);
impl<S: IoSink + ?Sized> Future for Sending<'_, S> {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(e) = self.1.take() {
            return Poll::Ready(Err(e));
        }
        self.0.poll_sent(cx)
    }
}
pub struct Expect<'a, S: ?Sized, T>(&'a mut S, std::marker::PhantomData<fn() -> T>);
impl<S: IoStream + ?Sized, T: DeserializeOwned> Future for Expect<'_, S, T> {
    type Output = io::Result<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.poll_next::<T>(cx).map(|r| r.unwrap_or_else(|| Err(io::ErrorKind::UnexpectedEof.into())))
    }
}

pub trait SinkExt: IoSink {
    fn send<T: Serialize>(&mut self, item: T) -> Sending<'_, Self> {
        let e = self.start_send(&item).err();
        Sending(self, e)
    }
}
impl<S: IoSink + ?Sized> SinkExt for S {}
pub trait IoStreamExt: IoStream {
    fn expect_next<T: DeserializeOwned>(&mut self) -> Expect<'_, Self, T> {
        Expect(self, std::marker::PhantomData)
    }
}
impl<S: IoStream + ?Sized> IoStreamExt for S {}

/// One end of a channel.
pub struct Io(Box<dyn Frames>);
impl std::fmt::Debug for Io {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Io")
    }
}
impl Io {
    pub fn new(f: impl Frames + 'static) -> Self {
        Io(Box::new(f))
    }
    pub fn from_io<T: AsyncRead + AsyncWrite + Send + Unpin + 'static>(io: T) -> Self {
        Io(Box::new(Framed { io, out: VecDeque::new(), buf: Vec::new() }))
    }
    /// Sends one message and receives one, at the same time.
    pub async fn exchange<T: Serialize + DeserializeOwned>(&mut self, item: &T) -> io::Result<T> {
        self.0.start_send(bincode::serialize(item).map_err(bad)?)?;
        let (mut sent, mut got) = (false, None);
        futures::future::poll_fn(move |cx| {
            if !sent {
                match self.0.poll_sent(cx) {
                    Poll::Ready(r) => {
                        if let Err(e) = r {
                            return Poll::Ready(Err(e));
                        }
                        sent = true;
                    }
                    Poll::Pending => {}
                }
            }
            if got.is_none() {
                match self.poll_next::<T>(cx) {
                    Poll::Ready(None) => return Poll::Ready(Err(io::ErrorKind::UnexpectedEof.into())),
                    Poll::Ready(Some(Err(e))) => return Poll::Ready(Err(e)),
                    Poll::Ready(Some(Ok(v))) => got = Some(v),
                    Poll::Pending => {}
                }
            }
            match (sent, got.is_some()) {
                (true, true) => Poll::Ready(Ok(got.take().unwrap())),
                _ => Poll::Pending,
            }
        })
        .await
    }
}
impl IoSink for Io {
    fn start_send<T: Serialize>(&mut self, item: &T) -> io::Result<()> {
        self.0.start_send(bincode::serialize(item).map_err(bad)?)
    }
    fn poll_sent(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.poll_sent(cx)
    }
}
impl IoStream for Io {
    fn poll_next<T: DeserializeOwned>(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<T>>> {
        self.0.poll_recv(cx).map(|r| r.map(|r| r.and_then(|b| bincode::deserialize(&b).map_err(bad))))
    }
}

/// Frames with a length prefix over a byte stream.
struct Framed<T> {
    io: T,
    out: VecDeque<u8>,
    buf: Vec<u8>,
}
const MAX_FRAME: usize = 1 << 28;
impl<T: AsyncRead + AsyncWrite + Send + Unpin> Frames for Framed<T> {
    fn start_send(&mut self, frame: Vec<u8>) -> io::Result<()> {
        self.out.extend((frame.len() as u32).to_be_bytes());
        self.out.extend(frame);
        Ok(())
    }
    fn poll_sent(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while !self.out.is_empty() {
            let (a, _) = self.out.as_slices();
            match Pin::new(&mut self.io).poll_write(cx, a) {
                Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                Poll::Ready(Ok(n)) => drop(self.out.drain(..n)),
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        }
        Pin::new(&mut self.io).poll_flush(cx)
    }
    fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<io::Result<Vec<u8>>>> {
        loop {
            if self.buf.len() >= 4 {
                let n = u32::from_be_bytes(self.buf[..4].try_into().unwrap()) as usize;
                if n > MAX_FRAME {
                    return Poll::Ready(Some(Err(bad("frame too long"))));
                }
                if self.buf.len() >= 4 + n {
                    let rest = self.buf.split_off(4 + n);
                    let frame = std::mem::replace(&mut self.buf, rest).split_off(4);
                    return Poll::Ready(Some(Ok(frame)));
                }
            }
            let mut b = [0u8; 8192];
            match Pin::new(&mut self.io).poll_read(cx, &mut b) {
                Poll::Ready(Ok(0)) => return Poll::Ready(None),
                Poll::Ready(Ok(n)) => self.buf.extend_from_slice(&b[..n]),
                Poll::Ready(Err(e)) => return Poll::Ready(Some(Err(e))),
                Poll::Pending => return Poll::Pending,
            }
        }
    }
}
