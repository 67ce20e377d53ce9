//! The meter of the benchmarks.
use crate::meter::Meter;
use futures::{AsyncRead, AsyncWrite, task::noop_waker};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    io::{self, ErrorKind, IoSlice, IoSliceMut},
    pin::Pin,
    sync::atomic::Ordering,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};
use vpt::{CaseResult, Check, Cx, cases, check_eq, r#gen::filler, law};

/// What the stream below does next: an amount at most, nothing yet, or an error.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Does {
    Some(u16),
    Pending,
    Error(u8),
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Op {
    Read(u16),
    Write(u16),
    ReadV(u16, u16),
    WriteV(u16, u16),
    Flush,
    Close,
}
const KINDS: [ErrorKind; 4] = [ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::Interrupted, ErrorKind::WouldBlock];
#[derive(Default)]
struct Below {
    next: Option<Does>,
    calls: Vec<String>,
    seed: u64,
    written: Vec<u8>,
}
struct Pipe(Arc<Mutex<Below>>);
fn does(d: Option<Does>, n: usize) -> Poll<io::Result<usize>> {
    match d {
        Some(Does::Some(k)) => Poll::Ready(Ok(n.min(k as usize))),
        Some(Does::Error(k)) => Poll::Ready(Err(KINDS[k as usize % 4].into())),
        _ => Poll::Pending,
    }
}
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut b = self.0.lock().unwrap();
        b.calls.push("read".into());
        let r = does(b.next, buf.len());
        if let Poll::Ready(Ok(n)) = r {
            buf[..n].copy_from_slice(&filler(b.seed, n));
        }
        r
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut b = self.0.lock().unwrap();
        b.calls.push("write".into());
        let r = does(b.next, buf.len());
        if let Poll::Ready(Ok(n)) = r {
            b.written.extend(&buf[..n]);
        }
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut b = self.0.lock().unwrap();
        b.calls.push("flush".into());
        does(b.next, 0).map_ok(|_| ())
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut b = self.0.lock().unwrap();
        b.calls.push("close".into());
        does(b.next, 0).map_ok(|_| ())
    }
}
type Case = Vec<(Op, Does, u64)>;
fn case() -> impl Strategy<Value = Case> + Clone {
    let n = || prop_oneof![1 => Just(0u16), 6 => 0u16..300, 1 => 0u16..20_000];
    let op = prop_oneof![
        4 => n().prop_map(Op::Read),
        4 => n().prop_map(Op::Write),
        1 => (n(), n()).prop_map(|(a, b)| Op::ReadV(a, b)),
        1 => (n(), n()).prop_map(|(a, b)| Op::WriteV(a, b)),
        1 => Just(Op::Flush),
        1 => Just(Op::Close),
    ];
    let d = prop_oneof![4 => n().prop_map(Does::Some), 2 => Just(Does::Some(u16::MAX)), 1 => Just(Does::Pending), 1 => any::<u8>().prop_map(Does::Error)];
    prop::collection::vec((op, d, any::<u64>()), 0..30)
}
fn run(c: &Case, cx: &mut Cx) -> CaseResult {
    let below = Arc::new(Mutex::new(Below::default()));
    let mut m = Meter::new(Pipe(below.clone()));
    let (sent, recv) = (m.sent(), m.recv());
    let (mut s, mut r) = (0u64, 0u64);
    let w = noop_waker();
    let show = |p: Poll<io::Result<usize>>| match p {
        Poll::Pending => Err(None),
        Poll::Ready(Ok(n)) => Ok(n),
        Poll::Ready(Err(e)) => Err(Some(e.kind())),
    };
    for (op, d, seed) in c {
        let mut t = Context::from_waker(&w);
        {
            let mut b = below.lock().unwrap();
            (b.next, b.seed) = (Some(*d), *seed);
            b.calls.clear();
            b.written.clear();
        }
        let m = Pin::new(&mut m);
        let (got, name) = match op {
            Op::Read(n) => {
                let mut b = vec![0; *n as usize];
                let got = show(m.poll_read(&mut t, &mut b));
                if let Ok(k) = got {
                    check_eq!(b[..k], filler(*seed, k)[..], "what is read");
                    r += k as u64;
                }
                (got, "read")
            }
            Op::ReadV(x, y) => {
                let (mut x, mut y) = (vec![0; *x as usize], vec![0; *y as usize]);
                let got = show(m.poll_read_vectored(&mut t, &mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)]));
                if let Ok(k) = got {
                    x.extend(y);
                    check_eq!(x[..k], filler(*seed, k)[..], "what is read");
                    r += k as u64;
                }
                (got, "read")
            }
            Op::Write(n) => {
                let b = filler(*seed, *n as usize);
                let got = show(m.poll_write(&mut t, &b));
                if let Ok(k) = got {
                    check_eq!(below.lock().unwrap().written, b[..k], "what is written");
                    s += k as u64;
                }
                (got, "write")
            }
            Op::WriteV(x, y) => {
                let (x, y) = (filler(*seed, *x as usize), filler(seed ^ 1, *y as usize));
                let got = show(m.poll_write_vectored(&mut t, &[IoSlice::new(&x), IoSlice::new(&y)]));
                if let Ok(k) = got {
                    check_eq!(below.lock().unwrap().written, [x, y].concat()[..k], "what is written");
                    s += k as u64;
                }
                (got, "write")
            }
            Op::Flush => (show(m.poll_flush(&mut t).map_ok(|_| 0)), "flush"),
            Op::Close => (show(m.poll_close(&mut t).map_ok(|_| 0)), "close"),
        };
        let b = below.lock().unwrap();
        check_eq!(b.calls, vec![name.to_string()], "what the stream below is asked");
        if !matches!(op, Op::ReadV(..) | Op::WriteV(..)) {
            let n = match op {
                Op::Read(n) | Op::Write(n) => *n as usize,
                _ => 0,
            };
            check_eq!(got, show(does(Some(*d), n)), "result of {op:?}");
        } else if !matches!(d, Does::Some(_)) {
            check_eq!(got, show(does(Some(*d), 0)), "result of {op:?}");
        }
        check_eq!((sent.load(Ordering::SeqCst), recv.load(Ordering::SeqCst)), (s, r), "bytes sent and received");
    }
    cx.nontrivial(s > 0 && r > 0);
    Ok(())
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        rule: "A case is a sequence of operations on a metered stream, each with what the stream below does. Non-trivial: bytes went both ways.",
        assumptions: &[],
        laws: vec![law("counts", cases(40_000), case, run)],
    }
}
