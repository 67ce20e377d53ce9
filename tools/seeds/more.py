RN='crates/harness/runner/src/network.rs'
seed('s19-tail', 'C19', 'random material of more than 256 bytes whose length is not a multiple of 64',
 'the last bytes are not filled',
 [('crates/tls-core/src/rand.rs', '''    rng().fill(bytes);
    Ok(())''', '''    let mut rng = rng();
    if bytes.len() > 256 {
        // Large requests are drawn block by block.
        for block in bytes.chunks_exact_mut(64) {
            rng.fill(block);
        }
    } else {
        rng.fill(bytes);
    }
    Ok(())''')],
 r'''
use tls_core::rand::*;
fn main() {
    for n in [64usize, 256, 300, 320, 1000] {
        let v = random_vec(n).unwrap();
        assert_eq!(v.len(), n);
        assert!(v[n - 30..].iter().any(|b| *b != 0), "{n} bytes end in zeros");
    }
}
''')
seed('s15-aad-seq', 'C15', 'a record numbered 2^48 or higher',
 'the additional data of the record carry a wrong sequence number',
 [('crates/tls-core/src/cipher.rs', '''    aad[..8].copy_from_slice(&seq.to_be_bytes());''', '''    // Two halves, in network order.
    aad[..4].copy_from_slice(&((seq >> 32) as u16 as u32).to_be_bytes());
    aad[4..8].copy_from_slice(&(seq as u32).to_be_bytes());''')],
 r'''
use tls_core::{cipher::make_tls12_aad, msgs::enums::*};
fn main() {
    for seq in [0u64, 1, 1 << 31, 1 << 32, (1 << 48) + 7, u64::MAX] {
        let a = make_tls12_aad(seq, ContentType::ApplicationData, ProtocolVersion::TLSv1_2, 17);
        assert_eq!(a[..8], seq.to_be_bytes(), "{seq}");
    }
}
''')
DUCT=[(V + '/rust/shims/duct/src/lib.rs', 'duct/src/lib.rs'), (V + '/rust/shims/duct/Cargo.toml', 'duct/Cargo.toml')]
NET='duct = { path = "duct" }\nanyhow = "1"\nipnet = "2"'
seed('s24-stale-shape', 'C24', 'a setting without limits after one with limits',
 'the limits of the earlier setting stay in force',
 [(RN, '''    fn set_egress(&self, bandwidth: usize, delay: usize) -> Result<()> {
''', '''    fn set_egress(&self, bandwidth: usize, delay: usize) -> Result<()> {
        if bandwidth == 0 && delay == 0 {
            // Nothing to shape.
            return Ok(());
        }

''')],
 r'''
#[path = "/repo/crates/harness/runner/src/network.rs"]
#[allow(dead_code)]
mod network;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};
fn main() {
    // Which interfaces are shaped, from the commands.
    let shaped: Rc<RefCell<BTreeMap<String, bool>>> = Default::default();
    let s = shaped.clone();
    duct::commands_to(Some(Box::new(move |c| {
        if let Some(i) = c.iter().position(|w| w == "tc") {
            let dev = c.iter().position(|w| w == "dev").unwrap();
            s.borrow_mut().insert(c[dev + 1].clone(), c[i + 2] != "del");
        }
        (0, String::new(), String::new())
    })));
    let n = network::Network::new(harness_core::network::NetworkConfig::new("10.10.1.0/24".parse().unwrap())).unwrap();
    n.set_proto_config(50, 10).unwrap();
    assert!(shaped.borrow().values().all(|s| *s) && shaped.borrow().len() == 2);
    n.set_proto_config(0, 0).unwrap();
    assert!(shaped.borrow().values().all(|s| !*s), "still shaped: {shaped:?}");
}
''', NET, HARNESS, DUCT)
seed('s24-old-bridge', 'C24', 'a bridge left behind by an earlier run with another subnet',
 'the bridge keeps the address of the earlier subnet and does not get the configured one',
 [(RN, '''                duct::cmd!("sudo", "ip", "link", "delete", &self.name).run()?;

                // Recreate the bridge.
                return self.create();
            }

            return Err''', '''                // The bridge of the last run is as good as a new one.
                return Ok(());
            }

            return Err''')],
 r'''
#[path = "/repo/crates/harness/runner/src/network.rs"]
#[allow(dead_code)]
mod network;
use std::{cell::RefCell, rc::Rc};
fn main() {
    let cfg = harness_core::network::NetworkConfig::new("10.10.1.0/24".parse().unwrap());
    let host = format!("{}/24", cfg.host);
    let br = harness_core::network::BRIDGE;
    // There is a bridge already, with another address.
    let bridge: Rc<RefCell<Option<Vec<String>>>> = Rc::new(RefCell::new(Some(vec!["10.9.9.1/24".into()])));
    let b = bridge.clone();
    duct::commands_to(Some(Box::new(move |c| {
        let c: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
        let mut b = b.borrow_mut();
        match &c[1..] {
            ["ip", "link", "add", n, ..] if *n == br => {
                if b.is_some() {
                    return (2, String::new(), "RTNETLINK answers: File exists\n".into());
                }
                *b = Some(vec![]);
            }
            ["ip", "link", "delete" | "del", n] if *n == br => *b = None,
            ["ip", "addr", "add", a, "dev", n] if *n == br => b.as_mut().unwrap().push(a.to_string()),
            _ => {}
        }
        (0, String::new(), String::new())
    })));
    network::Network::new(cfg).unwrap().create().unwrap();
    assert!(bridge.borrow().as_ref().unwrap().contains(&host), "addresses of the bridge: {bridge:?}");
}
''', NET, HARNESS, DUCT)
seed('s25-partial', 'C25', 'a write that is only taken in part',
 'the meter counts the bytes offered instead of the bytes sent',
 [('crates/harness/executor/src/bench/io.rs', '''        let this = self.project();
        this.io.poll_write(cx, buf).map(|res| {
            res.inspect(|n| {
                this.sent.fetch_add(*n as u64, Ordering::Relaxed);
            })
        })''', '''        let this = self.project();
        this.io.poll_write(cx, buf).map(|res| {
            res.inspect(|_| {
                this.sent.fetch_add(buf.len() as u64, Ordering::Relaxed);
            })
        })''')],
 r'''
#[path = "/repo/crates/harness/executor/src/bench/io.rs"]
#[allow(dead_code)]
mod io;
use futures::{task::noop_waker, AsyncRead, AsyncWrite};
use std::{pin::Pin, sync::atomic::Ordering, task::{Context, Poll}};
struct Ten;
impl AsyncWrite for Ten {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len().min(10)))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for Ten {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len().min(10)))
    }
}
fn main() {
    let mut m = io::Meter::new(Ten);
    let (sent, recv) = (m.sent(), m.recv());
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    for n in [3usize, 10, 25] {
        assert!(Pin::new(&mut m).poll_write(&mut cx, &vec![0; n]).is_ready());
        assert!(Pin::new(&mut m).poll_read(&mut cx, &mut vec![0; n]).is_ready());
    }
    assert_eq!(sent.load(Ordering::SeqCst), 23);
    assert_eq!(recv.load(Ordering::SeqCst), 23);
}
''', 'futures = "0.3"\npin-project-lite = "0.2"', BARE)
