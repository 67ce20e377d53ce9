//! C22 and C23: the test servers, spoken to over TLS and in-memory pipes.

use std::{future::Future, sync::Arc, time::Duration};

use futures::{AsyncReadExt, AsyncWriteExt};
use futures_rustls::{
    client::TlsStream,
    pki_types::{CertificateDer, PrivateKeyDer, ServerName},
    rustls::{self, ClientConfig, RootCertStore},
    TlsConnector,
};
use proptest::{collection::vec, option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use tokio_util::compat::{Compat, TokioAsyncReadCompatExt};
use vpt::{
    cases, check, check_eq, fail,
    gen::{bytes, Bytes},
    law, CaseResult, Check, Cx, Failure,
};

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

/// Real time allowed to a case: a server that stops answering is a failure, and
/// virtual time would run away while a case waits for it.
fn within<T>(f: impl Future<Output = Result<T, Failure>>) -> Result<T, Failure> {
    rt().block_on(async {
        tokio::select! {
            r = f => r,
            _ = tokio::time::sleep(Duration::from_secs(3600)) => Err("no answer: server and client wait for each other".into()),
        }
    })
}

type Conn = TlsStream<Compat<tokio::io::DuplexStream>>;

fn config(ca: &'static [u8], cert: Option<(&'static [u8], &'static [u8])>) -> Arc<ClientConfig> {
    let mut roots = RootCertStore::empty();
    roots.add(CertificateDer::from(ca)).unwrap();
    let b = ClientConfig::builder().with_root_certificates(roots);
    Arc::new(match cert {
        None => b.with_no_client_auth(),
        Some((c, k)) => b.with_client_auth_cert(vec![CertificateDer::from(c)], PrivateKeyDer::Pkcs8(k.into())).unwrap(),
    })
}

async fn send_all(c: &mut Conn, data: &[u8], pieces: &[u16]) -> std::io::Result<()> {
    let mut rest = data;
    let mut i = 0;
    while !rest.is_empty() {
        let n = (pieces[i % pieces.len()].max(1) as usize).min(rest.len());
        c.write_all(&rest[..n]).await?;
        c.flush().await?;
        tokio::task::yield_now().await;
        rest = &rest[n..];
        i += 1;
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
struct Resp {
    status: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    close: bool,
}

/// Reads one response; `buf` keeps what follows it.
async fn read_response(c: &mut Conn, buf: &mut Vec<u8>) -> Result<Resp, Failure> {
    async fn more(c: &mut Conn, buf: &mut Vec<u8>) -> Result<bool, Failure> {
        let mut b = [0u8; 4096];
        let n = c.read(&mut b).await.map_err(|e| format!("connection broke: {e}"))?;
        buf.extend(&b[..n]);
        Ok(n > 0)
    }
    let (status, headers, head) = loop {
        let mut h = [httparse::EMPTY_HEADER; 64];
        let mut p = httparse::Response::new(&mut h);
        match p.parse(buf).map_err(|e| format!("response does not parse: {e}"))? {
            httparse::Status::Complete(n) => {
                let hs = p.headers.iter().map(|h| (h.name.to_ascii_lowercase(), String::from_utf8_lossy(h.value).to_string())).collect::<Vec<_>>();
                break (p.code.unwrap(), hs, n);
            }
            httparse::Status::Partial => check!(more(c, buf).await?, "connection ended before the response"),
        }
    };
    buf.drain(..head);
    let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
    let close = get("connection").is_some_and(|v| v.eq_ignore_ascii_case("close"));
    let mut body = vec![];
    if get("transfer-encoding").is_some_and(|v| v.eq_ignore_ascii_case("chunked")) {
        loop {
            let line = loop {
                if let Some(i) = buf.windows(2).position(|w| w == b"\r\n") {
                    break i;
                }
                check!(more(c, buf).await?, "connection ended within a chunk");
            };
            let n = usize::from_str_radix(std::str::from_utf8(&buf[..line]).map_err(|e| e.to_string())?, 16).map_err(|e| format!("chunk size: {e}"))?;
            while buf.len() < line + 2 + n + 2 {
                check!(more(c, buf).await?, "connection ended within a chunk");
            }
            body.extend(&buf[line + 2..line + 2 + n]);
            check_eq!(&buf[line + 2 + n..line + 4 + n], b"\r\n", "end of chunk");
            buf.drain(..line + 4 + n);
            if n == 0 {
                break;
            }
        }
    } else {
        let n: usize = get("content-length").ok_or("response without a length")?.parse().map_err(|e| format!("length: {e}"))?;
        while buf.len() < n {
            check!(more(c, buf).await?, "connection ended within the body");
        }
        body.extend(buf.drain(..n));
    }
    Ok(Resp { status, headers, body, close })
}

// ---------------------------------------------------------------- C22

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Get {
    path: u8,
    other_path: String,
    query: Vec<(u8, String)>,
    auth: Option<String>,
    extra: Vec<(u8, String)>,
    client_cert: u8,
    post: bool,
    pieces: Vec<u16>,
    pipe: u16,
}

const PATHS: &[&str] = &["/", "/bytes", "/formats/json", "/formats/html", "/protected", "/elster"];

fn get_req() -> impl Strategy<Value = Get> {
    let size = prop_oneof![
        6 => select(vec!["1", "4", "8", "0", "2", "16", "04", "1024", "16384", "70000"]).prop_map(String::from),
        3 => (0usize..3000).prop_map(|n| n.to_string()),
        2 => select(vec!["", "x", "-1", "4kb", "1.5", "99999999999999999999999", "%34"]).prop_map(String::from),
    ];
    let auth = prop_oneof![
        6 => select(vec!["random_auth_token", "Bearer random_auth_token"]).prop_map(String::from),
        6 => select(vec!["", "Bearer ", "Bearer", "random_auth_tokens", "random_auth_toke", "Random_auth_token", "xrandom_auth_token", "Bearer  random_auth_token x", "Basic random_auth_token", "Bearer RANDOM_AUTH_TOKEN", "bearer random_auth_token", "r\u{e9}ndom_auth_token", "random_auth_token,random_auth_token"]).prop_map(String::from),
        2 => "[ -~]{0,24}",
    ];
    (
        (prop_oneof![8 => 0u8..6, 1 => Just(200u8)], "/[a-z/]{0,12}"),
        vec((prop_oneof![4 => Just(0u8), 2 => 1u8..4], size), 0..3),
        option::weighted(0.6, auth),
        vec((0u8..3, "[a-zA-Z0-9]{0,30}"), 0..3),
        prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
        prop_oneof![12 => Just(false), 1 => Just(true)],
        vec(1u16..2000, 1..4),
        prop_oneof![3000u16..8192, 8192u16..9000, 9000u16..60000],
    )
        .prop_map(|((path, other_path), query, auth, extra, client_cert, post, pieces, pipe)| Get { path, other_path, query, auth, extra, client_cert, post, pieces, pipe })
}

macro_rules! data {
    ($f:literal) => {
        include_bytes!(concat!("/repo/crates/server-fixture/server/src/data/", $f))
    };
}

fn run_get(g: &Get, cx: &mut Cx) -> CaseResult {
    use tlsn_server_fixture_certs::*;
    let path = PATHS.get(g.path as usize).map(|p| p.to_string()).unwrap_or_else(|| g.other_path.clone());
    // One value per name: what repeated names mean is not specified.
    let mut query: Vec<(&str, &str)> = vec![];
    for (k, v) in &g.query {
        let k = ["size", "sizes", "foo", "shutdown"][*k as usize];
        if !query.iter().any(|q| q.0 == k) {
            query.push((k, v));
        }
    }
    let mut target = path.clone();
    for (i, (k, v)) in query.iter().enumerate() {
        target += &format!("{}{k}={v}", if i == 0 { '?' } else { '&' });
    }
    let size: usize = query.iter().find(|q| q.0 == "size").and_then(|q| q.1.replace("%34", "4").parse().ok()).unwrap_or(1);
    let authed = matches!(g.auth.as_deref(), Some("random_auth_token" | "Bearer random_auth_token"));
    // Spaces around a header value are not part of it, and a repeated scheme is not specified.
    let vague = g.auth.as_deref().is_some_and(|a| {
        let t = a.trim();
        !authed && t.trim_start_matches("Bearer").trim() == "random_auth_token"
    });
    let mut req = format!("{} {target} HTTP/1.1\r\nHost: {SERVER_DOMAIN}\r\n", if g.post { "POST" } else { "GET" });
    if let Some(a) = &g.auth {
        req += &format!("Authorization: {a}\r\n");
    }
    for (k, v) in &g.extra {
        req += &format!("{}: {v}\r\n", ["X-Token", "Accept", "Cookie"][*k as usize]);
    }
    if g.post {
        req += "Content-Length: 0\r\n";
    }
    req += "\r\n";
    // Ends the connection at once: a large answer may be cut.
    let stops = !g.post && (1..4).contains(&g.path) && query.iter().any(|q| q.0 == "shutdown");
    cx.label_if(stops, "shutdown");
    cx.nontrivial(g.path != 0);
    cx.label(if PATHS.contains(&path.as_str()) { path.as_str() } else { "unknown page" });
    let foreign = g.client_cert == 2;
    let cert: Option<(&'static [u8], &'static [u8])> = match g.client_cert {
        0 => None,
        1 => Some((CLIENT_CERT_DER, CLIENT_KEY_DER)),
        // Signed by another authority.
        _ => Some((include_bytes!("../keys/foreign.der"), include_bytes!("../keys/foreign-key.der"))),
    };
    let resp = within(async {
        let (a, b) = tokio::io::duplex(g.pipe as usize);
        let mut server = tokio::spawn(tlsn_server_fixture::bind(b.compat()));
        let mut ended = None;
        let conn = TlsConnector::from(config(CA_CERT_DER, cert)).connect(ServerName::try_from(SERVER_DOMAIN).unwrap(), a.compat()).await;
        let mut conn = match conn {
            Ok(c) => c,
            Err(e) if foreign => return Ok(Err(e.to_string())),
            Err(e) => fail!("the server's TLS is not accepted: {e}"),
        };
        let r = async {
            send_all(&mut conn, req.as_bytes(), &g.pieces).await.map_err(|e| Failure::from(format!("request not taken: {e}")))?;
            if stops && g.pieces.len() % 2 == 1 {
                // Nobody reads the answer: it ends all the same.
                ended = Some((&mut server).await);
            }
            let mut buf = vec![];
            let r = read_response(&mut conn, &mut buf).await?;
            let mut rest = vec![];
            let end = conn.read_to_end(&mut rest).await;
            check!(buf.is_empty() && rest.is_empty(), "data after the response");
            check!(stops || end.is_ok(), "the connection is not closed properly");
            Ok(r)
        }
        .await;
        if foreign {
            return match r {
                Ok(_) => Ok(Ok(Resp { status: 0, headers: vec![], body: vec![], close: false })),
                Err(e) => Ok(Err(e.msg)),
            };
        }
        let r = match r {
            Err(e) if stops => Err(e.msg),
            r => Ok(r?),
        };
        let _ = conn.close().await;
        let ended = match ended {
            Some(e) => e,
            None => server.await,
        };
        ended.map_err(|e| format!("server panicked: {e}"))?.map_err(|e| format!("server failed: {e}"))?;
        Ok(r)
    })?;
    if stops && resp.is_err() {
        cx.label("cut by the shutdown");
        return Ok(());
    }
    if foreign {
        check!(resp.is_err(), "a client with a certificate of another authority was served");
        return Ok(());
    }
    let resp = resp.map_err(Failure::from)?;
    let known = (g.path as usize) < PATHS.len() || PATHS.contains(&path.as_str());
    if g.post && known {
        check_eq!(resp.status, 405, "answer to a POST");
        return Ok(());
    }
    let json = |b: &[u8]| serde_json::from_slice::<serde_json::Value>(b).ok();
    let kind = |k: &str| resp.headers.iter().any(|h| h.0 == "content-type" && h.1.starts_with(k));
    match path.as_str() {
        "/" => check_eq!((resp.status, &resp.body[..]), (200, &b"Hello, World!"[..]), "greeting"),
        "/bytes" => {
            check_eq!((resp.status, resp.body.len()), (200, size), "bytes asked for");
            check!(resp.body.iter().all(|b| *b == 0x42), "content of the bytes");
        }
        "/formats/json" => {
            let want: Option<&[u8]> = match size {
                1 => Some(data!("1kb.json")),
                4 => Some(data!("4kb.json")),
                8 => Some(data!("8kb.json")),
                _ => None,
            };
            match want {
                None => check_eq!(resp.status, 404, "size {size} is not there"),
                Some(w) => {
                    check_eq!(resp.status, 200);
                    check!(kind("application/json"), "type of the JSON page");
                    check_eq!(json(&resp.body), json(w), "JSON page of size {size}");
                    check!(json(w).is_some(), "JSON page of size {size}");
                }
            }
        }
        "/formats/html" => {
            check_eq!(resp.status, 200);
            check!(kind("text/html"), "type of the HTML page");
            check!(resp.body == data!("4kb.html"), "HTML page");
        }
        "/protected" | "/elster" => {
            if vague {
                return Ok(());
            }
            cx.label(if authed { "authorised" } else { "not authorised" });
            let data: &[u8] = if path == "/protected" { data!("protected_data.json") } else { data!("elster.json") };
            if authed {
                check_eq!((resp.status, json(&resp.body)), (200, json(data)), "protected page");
                check!(json(data).is_some());
            } else {
                check_eq!(resp.status, 401, "page given without the token");
            }
        }
        _ => check_eq!(resp.status, 404, "unknown page"),
    }
    Ok(())
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        rule: "A case is one request - path, query, authorisation, other headers, client certificate - sent in pieces through a pipe of some capacity. \
               Non-trivial: not the greeting.",
        assumptions: &["Repeated query names, and spaces or repeated schemes around a right token, are not judged."],
        laws: vec![law("answers", cases(30_000), get_req, run_get)],
    }
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Req {
    route: u8,
    other: String,
    post: bool,
    body: Bytes,
    /// Sizes of the chunks; none: sent with its length.
    chunks: Option<Vec<u16>>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Http {
    reqs: Vec<Req>,
    pipelined: bool,
    pieces: Vec<u16>,
    pipe: u16,
}

fn http() -> impl Strategy<Value = Http> {
    let req = (0u8..5, "/[a-z]{0,8}", prop_oneof![4 => Just(true), 1 => Just(false)], prop_oneof![6 => bytes(0..200), 1 => bytes(200..20000)], option::of(vec(1u16..3000, 1..4)))
        .prop_map(|(route, other, post, body, chunks)| {
            let mut r = Req { route, other, post, body, chunks };
            if r.want().0 == 404 {
                // A server may close when it refuses a body unread.
                r.body = Bytes(vec![]);
                r.chunks = None;
            }
            r
        });
    (vec(req, 1..5), any::<bool>(), vec(1u16..4000, 1..4), prop_oneof![8192u16..9000, 9000u16..60000]).prop_map(|(reqs, pipelined, pieces, pipe)| Http { reqs, pipelined, pieces, pipe })
}

impl Req {
    fn path(&self) -> String {
        match self.route {
            0 => "/".into(),
            1 => "/echo".into(),
            2 => "/echo/uppercase".into(),
            3 => "/echo/reversed".into(),
            _ => self.other.clone(),
        }
    }
    fn wire(&self) -> Vec<u8> {
        let mut o = format!("{} {} HTTP/1.1\r\nHost: test\r\n", if self.post { "POST" } else { "GET" }, self.path()).into_bytes();
        if !self.post {
            o.extend(b"\r\n");
            return o;
        }
        match &self.chunks {
            None => {
                o.extend(format!("Content-Length: {}\r\n\r\n", self.body.len()).into_bytes());
                o.extend(&self.body.0);
            }
            Some(c) => {
                o.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                let mut rest = &self.body.0[..];
                let mut i = 0;
                while !rest.is_empty() {
                    let n = (c[i % c.len()] as usize).min(rest.len());
                    o.extend(format!("{n:x}\r\n").into_bytes());
                    o.extend(&rest[..n]);
                    o.extend(b"\r\n");
                    rest = &rest[n..];
                    i += 1;
                }
                o.extend(b"0\r\n\r\n");
            }
        }
        o
    }
    /// Status and body of the answer.
    fn want(&self) -> (u16, Option<Vec<u8>>) {
        match (self.path().as_str(), self.post) {
            ("/", false) => (200, None),
            ("/echo", true) => (200, Some(self.body.0.clone())),
            ("/echo/uppercase", true) => (200, Some(self.body.0.to_ascii_uppercase())),
            ("/echo/reversed", true) => (200, Some(self.body.0.iter().rev().copied().collect())),
            _ => (404, Some(vec![])),
        }
    }
}

fn run_http(h: &Http, cx: &mut Cx) -> CaseResult {
    use tls_server_fixture::*;
    cx.nontrivial(h.reqs.iter().any(|r| r.post && !r.body.is_empty()));
    cx.label_if(h.pipelined && h.reqs.len() > 1, "pipelined");
    within(async {
        let (a, b) = tokio::io::duplex(h.pipe as usize);
        let server = tokio::spawn(bind_test_server_hyper(b.compat()));
        let mut conn = TlsConnector::from(config(CA_CERT_DER, None))
            .connect(ServerName::try_from(SERVER_DOMAIN).unwrap(), a.compat())
            .await
            .map_err(|e| format!("the server's TLS is not accepted: {e}"))?;
        let mut buf = vec![];
        let small = h.reqs.iter().all(|r| r.body.len() <= 200);
        if h.pipelined && small {
            let all: Vec<u8> = h.reqs.iter().flat_map(|r| r.wire()).collect();
            send_all(&mut conn, &all, &h.pieces).await.map_err(|e| format!("requests not taken: {e}"))?;
            for r in &h.reqs {
                judge(r, read_response(&mut conn, &mut buf).await?)?;
            }
        } else {
            for r in &h.reqs {
                let w = r.wire();
                // Large echoed bodies are answered while they are sent: read and write at once.
                let got = exchange(&mut conn, &w, &h.pieces, &mut buf).await?;
                judge(r, got)?;
            }
        }
        check!(buf.is_empty(), "data after the last response");
        conn.close().await.map_err(|e| format!("close: {e}"))?;
        let mut rest = vec![];
        let _ = conn.read_to_end(&mut rest).await;
        check!(rest.is_empty(), "data after the last response");
        server.await.map_err(|e| format!("server panicked: {e}"))?.map_err(|e| format!("server failed: {e}"))?;
        Ok(())
    })
}

/// Sends a request and reads its response at the same time.
async fn exchange(c: &mut Conn, w: &[u8], pieces: &[u16], buf: &mut Vec<u8>) -> Result<Resp, Failure> {
    use futures::{io::AsyncWrite, AsyncRead};
    use std::{pin::Pin, task::Poll};
    let mut rest = w;
    let mut i = 0;
    // Interleave: whenever writing is not possible, take in what has arrived.
    while !rest.is_empty() {
        let n = (pieces[i % pieces.len()].max(1) as usize).min(rest.len());
        i += 1;
        let wrote = futures::future::poll_fn(|cx| {
            if let Poll::Ready(r) = Pin::new(&mut *c).poll_write(cx, &rest[..n]) {
                return Poll::Ready(r.map(Some));
            }
            let mut b = [0u8; 2048];
            match Pin::new(&mut *c).poll_read(cx, &mut b) {
                Poll::Ready(Ok(0)) => Poll::Ready(Err(std::io::ErrorKind::UnexpectedEof.into())),
                Poll::Ready(Ok(n)) => {
                    buf.extend(&b[..n]);
                    Poll::Ready(Ok(None))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
        .map_err(|e| format!("request not taken: {e}"))?;
        if let Some(n) = wrote {
            rest = &rest[n..];
        }
    }
    // Flush, still taking in what arrives.
    loop {
        let done = futures::future::poll_fn(|cx| {
            if let Poll::Ready(r) = Pin::new(&mut *c).poll_flush(cx) {
                return Poll::Ready(r.map(|_| true));
            }
            let mut b = [0u8; 2048];
            match Pin::new(&mut *c).poll_read(cx, &mut b) {
                Poll::Ready(Ok(0)) => Poll::Ready(Err(std::io::ErrorKind::UnexpectedEof.into())),
                Poll::Ready(Ok(n)) => {
                    buf.extend(&b[..n]);
                    Poll::Ready(Ok(false))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
        .map_err(|e| format!("request not taken: {e}"))?;
        if done {
            break;
        }
    }
    read_response(c, buf).await
}

fn judge(r: &Req, got: Resp) -> CaseResult {
    let (status, body) = r.want();
    check_eq!(got.status, status, "status of {}", r.path());
    match body {
        Some(b) => check!(got.body == b, "body answered to {} differs ({} bytes for {})", r.path(), got.body.len(), b.len()),
        None => check!(!got.body.is_empty(), "instructions are empty"),
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Raw {
    /// Texts answered with a greeting.
    texts: Vec<String>,
    /// Position at which the delay is asked for.
    delay: Option<u8>,
    /// 0: the client closes; 1..=6: a command.
    end: u8,
    pieces: Vec<u16>,
    pipe: u16,
}

const COMMANDS: &[&str] = &["", "send_close_notify", "send_close_notify_and_close_socket", "close_socket", "send_corrupted_message", "send_record_with_bad_mac", "send_alert"];

fn raw() -> impl Strategy<Value = Raw> {
    let text = prop_oneof![
        3 => "[ -~]{0,40}",
        1 => select(vec!["hello", "close", "close_socket ", "CLOSE_SOCKET", "send_alertt", "send_close_notif", "must_delay"]).prop_map(String::from),
        1 => "[a-zé€]{300,340}",
    ];
    (vec(text, 0..5), option::weighted(0.3, any::<u8>()), 0u8..7, vec(1u16..1500, 1..4), prop_oneof![8192u16..9000, 9000u16..60000]).prop_map(|(texts, delay, end, pieces, pipe)| Raw { texts, delay, end, pieces, pipe })
}

fn run_raw(r: &Raw, cx: &mut Cx) -> CaseResult {
    use tls_server_fixture::*;
    cx.nontrivial(!r.texts.is_empty() || r.end > 0);
    cx.label(if r.end == 0 { "client closes" } else { COMMANDS[r.end as usize] });
    within(async {
        let (a, b) = tokio::io::duplex(r.pipe as usize);
        let server = tokio::spawn(bind_test_server(b.compat()));
        let mut conn = TlsConnector::from(config(CA_CERT_DER, None))
            .connect(ServerName::try_from(SERVER_DOMAIN).unwrap(), a.compat())
            .await
            .map_err(|e| format!("the server's TLS is not accepted: {e}"))?;
        let record = |t: &str| {
            let mut v = t.as_bytes().to_vec();
            assert!(v.len() <= APP_RECORD_LENGTH);
            v.resize(APP_RECORD_LENGTH, 0);
            v
        };
        let delay_at = r.delay.map(|d| d as usize % (r.texts.len() + 1));
        let text = |t: &str| if t.len() > APP_RECORD_LENGTH || COMMANDS[1..].contains(&t) || t == "must_delay_when_closing" { "x".to_string() } else { t.to_string() };
        for i in 0..=r.texts.len() {
            if delay_at == Some(i) {
                send_all(&mut conn, &record("must_delay_when_closing"), &r.pieces).await.map_err(|e| format!("record not taken: {e}"))?;
            }
            let Some(t) = r.texts.get(i) else { break };
            send_all(&mut conn, &record(&text(t)), &r.pieces).await.map_err(|e| format!("record not taken: {e}"))?;
            let mut b = [0u8; 5];
            conn.read_exact(&mut b).await.map_err(|e| format!("no answer to {t:?}: {e}"))?;
            check_eq!(&b, b"hello", "answer to {t:?}");
        }
        let mut rest = vec![];
        if r.end == 0 {
            let before = tokio::time::Instant::now();
            conn.close().await.map_err(|e| format!("close: {e}"))?;
            server.await.map_err(|e| format!("server panicked: {e}"))?;
            let took = before.elapsed();
            let want = if r.delay.is_some() { CLOSE_DELAY } else { 0 };
            check!(took >= Duration::from_millis(want) && took < Duration::from_millis(want + 500), "server closed after {took:?} instead of {want} ms");
            return Ok(());
        }
        send_all(&mut conn, &record(COMMANDS[r.end as usize]), &r.pieces).await.map_err(|e| format!("record not taken: {e}"))?;
        let end = conn.read_to_end(&mut rest).await;
        check!(rest.is_empty(), "data instead of the end: {rest:?}");
        let tls = end.as_ref().err().and_then(|e| e.get_ref()).and_then(|e| e.downcast_ref::<rustls::Error>()).cloned();
        let (ok, what) = match r.end {
            1 | 2 => (end.is_ok(), "a clean end"),
            3 => (end.as_ref().err().is_some_and(|e| e.kind() == std::io::ErrorKind::UnexpectedEof), "an end without notice"),
            4 => (matches!(tls, Some(rustls::Error::InvalidMessage(_))), "a record that is not TLS"),
            5 => (matches!(tls, Some(rustls::Error::DecryptError)), "a record that does not decrypt"),
            _ => (matches!(tls, Some(rustls::Error::AlertReceived(rustls::AlertDescription::BadRecordMac))), "the alert bad_record_mac"),
        };
        check!(ok, "{} made the client see {end:?} instead of {what}", COMMANDS[r.end as usize]);
        server.await.map_err(|e| format!("server panicked: {e}"))?;
        Ok(())
    })
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        rule: "A case is a sequence of HTTP requests over one connection, or of raw records ending with a command or a closure, sent in pieces through a pipe of \
               some capacity. Non-trivial: a request with a body; a record sent.",
        assumptions: &["Time is tokio's virtual time, except within blocking sections of the server."],
        laws: vec![law("http", cases(20_000), http, run_http), law("commands", cases(20_000), raw, run_raw)],
    }
}
