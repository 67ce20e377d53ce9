H='crates/harness/core/src/'; SF='crates/server-fixture/server/src/lib.rs'; TF='crates/tls-server-fixture/src/lib.rs'
seed('s20-group-false', 'C20', 'a boolean setting given as false by the item while its group says true',
 'the group overrides the explicit false of an item',
 [(H+'bench.rs', '''        if self.reveal_all.is_none() {
            self.reveal_all = group.reveal_all;
        }''', '''        if !self.reveal_all.unwrap_or_default() {
            self.reveal_all = group.reveal_all.or(self.reveal_all);
        }''')],
 r'''
use harness_core::bench::BenchItems;
fn main() {
    let f = |g: &str, b: &str| { let p: BenchItems = serde_json::from_str(&format!(r#"{{"group":[{{"name":"g"{g}}}],"bench":[{{"group":"g","name":"n"{b}}}]}}"#)).unwrap(); p.to_benches(1, false)[0].reveal_all };
    let (t, n) = (r#","reveal-all":true"#, r#","reveal-all":false"#);
    assert!(!f("", "")); assert!(f(t, "")); assert!(f(t, t)); assert!(f("", t)); assert!(f(n, t));
    assert!(!f(t, n), "item says false");
}
''', 'serde_json = "1"', HARNESS)
seed('s20-sort-name', 'C20', 'two benchmarks of the same group and name with different settings, listed in descending order of bandwidth',
 'benchmarks of one group and name do not run in the order of the file',
 [(H+'bench.rs', "benches.sort_by_key(|bench| (bench.group.clone(), bench.name.clone()));", "benches.sort_by_key(|bench| (bench.group.clone(), bench.name.clone(), bench.bandwidth));")],
 r'''
use harness_core::bench::BenchItems;
fn main() {
    let p: BenchItems = serde_json::from_str(r#"{"group":[],"bench":[{"name":"n","bandwidth":100},{"name":"n","bandwidth":10},{"name":"a","bandwidth":50}]}"#).unwrap();
    let b: Vec<usize> = p.to_benches(1, false).iter().map(|b| b.bandwidth).collect();
    assert_eq!(b, [50, 100, 10]);
}
''', 'serde_json = "1"', HARNESS)
seed('s21-mode-prefix', 'C21', 'a mode name that only begins with a known name',
 'unknown mode names are accepted',
 [(H+'lib.rs', '''        match value.to_lowercase().as_str() {
            "client" => Ok(IoMode::Client),
            "server" => Ok(IoMode::Server),
            _ => Err("Invalid io mode"),
        }''', '''        match value.to_lowercase().as_str() {
            "client" => Ok(IoMode::Client),
            "server" => Ok(IoMode::Server),
            value if value.starts_with("client") => Ok(IoMode::Client),
            _ => Err("Invalid io mode"),
        }''')],
 r'''
use harness_core::IoMode;
fn main() {
    assert_eq!(IoMode::try_from("CLIENT"), Ok(IoMode::Client));
    assert_eq!(IoMode::try_from("Server"), Ok(IoMode::Server));
    for n in ["", "clien", "clients", "client ", "servers", "client1"] { assert!(IoMode::try_from(n).is_err(), "{n}"); }
}
''', '', HARNESS)
seed('s21-subnet-wrap', 'C21', 'a subnet with room for fewer endpoints than the harness needs',
 'addresses are given out twice instead of the subnet being refused',
 [(H+'network.rs', "let mut hosts = subnet.hosts();", "let mut hosts = subnet.hosts().cycle();")],
 r'''
use harness_core::network::NetworkConfig;
fn main() {
    for p in 8..=32u8 {
        let net = format!("10.250.0.0/{p}").parse().unwrap();
        let ok = std::panic::catch_unwind(|| NetworkConfig::new(net)).is_ok();
        assert_eq!(ok, p <= 28, "/{p}");
    }
}
''', 'ipnet = "2"', HARNESS)
SFT = BARE.replace('[dependencies]', '[dependencies]\ntlsn-server-fixture = { path = "/repo/crates/server-fixture/server" }\ntlsn-server-fixture-certs = { path = "/repo/crates/server-fixture/certs" }')
TFT = BARE.replace('[dependencies]', '[dependencies]\ntls-server-fixture = { path = "/repo/crates/tls-server-fixture" }')
NET = 'futures = "0.3"\nfutures-rustls = "0.25"\ntokio = { version = "1", features = ["rt", "io-util", "time", "macros"] }\ntokio-util = { version = "0.7", features = ["compat"] }'
seed('s22-bearer', 'C22', 'an authorisation header with the right token followed by something else',
 'protected pages are given to requests whose token only begins with the right one',
 [(SF, '            if token == expected_token {', '            if token.split_whitespace().next() == Some(expected_token) {')],
 r'''
use futures::{AsyncReadExt, AsyncWriteExt};
use futures_rustls::{pki_types::*, rustls::*, TlsConnector};
use tokio_util::compat::TokioAsyncReadCompatExt;
use tlsn_server_fixture_certs::*;
async fn get(auth: &str) -> String {
    let (c, s) = tokio::io::duplex(1 << 16);
    let h = async { let _ = tlsn_server_fixture::bind(s.compat()).await; };
    let cl = async {
        let mut roots = RootCertStore::empty();
        roots.add(CertificateDer::from(CA_CERT_DER)).unwrap();
        let cfg = ClientConfig::builder().with_root_certificates(roots).with_no_client_auth();
        let mut t = TlsConnector::from(std::sync::Arc::new(cfg)).connect(ServerName::try_from(SERVER_DOMAIN).unwrap(), c.compat()).await.unwrap();
        t.write_all(format!("GET /protected HTTP/1.1\r\nHost: x\r\n{auth}\r\n").as_bytes()).await.unwrap();
        t.flush().await.unwrap();
        let mut b = vec![]; let _ = t.read_to_end(&mut b).await;
        String::from_utf8_lossy(&b[..12.min(b.len())]).to_string()
    };
    tokio::join!(h, cl).1
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    assert_eq!(rt.block_on(get("")), "HTTP/1.1 401");
    assert_eq!(rt.block_on(get("Authorization: Bearer random_auth_token\r\n")), "HTTP/1.1 200");
    assert_eq!(rt.block_on(get("Authorization: Bearer random_auth_tokens\r\n")), "HTTP/1.1 401");
    assert_eq!(rt.block_on(get("Authorization: Bearer random_auth_token x\r\n")), "HTTP/1.1 401");
}
''', NET, SFT)
seed('s23-upper', 'C23', 'an upper-casing echo request whose body contains bytes outside ASCII letters above 0x7f',
 'bytes that are no ASCII letters are changed',
 [(TF, '.map(|byte| byte.to_ascii_uppercase())', '.map(|byte| match byte & 0x7f {\n                            b\'a\'..=b\'z\' => byte - 32,\n                            _ => *byte,\n                        })')],
 r'''
use futures::{AsyncReadExt, AsyncWriteExt};
use futures_rustls::{pki_types::*, rustls::*, TlsConnector};
use tokio_util::compat::TokioAsyncReadCompatExt;
use tls_server_fixture::*;
async fn go(body: &[u8]) -> Vec<u8> {
    let (c, s) = tokio::io::duplex(1 << 16);
    let h = async { let _ = bind_test_server_hyper(s.compat()).await; };
    let cl = async {
        let mut roots = RootCertStore::empty();
        roots.add(CertificateDer::from(CA_CERT_DER)).unwrap();
        let cfg = ClientConfig::builder().with_root_certificates(roots).with_no_client_auth();
        let mut t = TlsConnector::from(std::sync::Arc::new(cfg)).connect(ServerName::try_from(SERVER_DOMAIN).unwrap(), c.compat()).await.unwrap();
        t.write_all(format!("POST /echo/uppercase HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: {}\r\n\r\n", body.len()).as_bytes()).await.unwrap();
        t.write_all(body).await.unwrap();
        t.flush().await.unwrap();
        let mut b = vec![]; let _ = t.read_to_end(&mut b).await;
        b
    };
    tokio::join!(h, cl).1
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for body in [&b"hello World"[..], &[b'a', 0xe1, 0xfa, b'z', 0x80, 0x7f]] {
        let r = rt.block_on(go(body));
        let want = body.to_ascii_uppercase();
        assert!(r.windows(want.len()).any(|w| w == want), "{body:?} {}", String::from_utf8_lossy(&r));
    }
}
''', NET, TFT)
