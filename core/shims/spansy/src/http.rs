//! HTTP/1.1. The view of a start line or header includes its line end; that of a header's
//! value excludes the blanks around it; that of a chunked body includes the framing.
use crate::{
    json::{self, JsonDocument},
    viewed, ParseError, Store, View,
};
use bytes::Bytes;
use std::ops::Range;

macro_rules! part {
    ($($t:ident),*) => {$(
        #[derive(Debug, Clone)]
        pub struct $t<S = Bytes> {
            pub(crate) view: View<S>,
        }
    )*};
}
part!(HeaderName, HeaderValue, Method, Target, Code, Reason);

#[derive(Debug, Clone)]
pub struct Header<S = Bytes> {
    pub(crate) view: View<S>,
    pub name: HeaderName<S>,
    pub value: HeaderValue<S>,
}
#[derive(Debug, Clone)]
pub struct RequestLine<S = Bytes> {
    pub(crate) view: View<S>,
    pub method: Method<S>,
    pub target: Target<S>,
}
#[derive(Debug, Clone)]
pub struct Status<S = Bytes> {
    pub(crate) view: View<S>,
    pub code: Code<S>,
    pub reason: Reason<S>,
}
#[derive(Debug, Clone)]
#[non_exhaustive]
pub enum BodyContent<S = Bytes> {
    Json(JsonDocument<S>),
    Unknown(View<S>),
}
#[derive(Debug, Clone)]
pub struct Body<S = Bytes> {
    pub(crate) view: View<S>,
    pub content: BodyContent<S>,
}
#[derive(Debug, Clone)]
pub struct Request<S = Bytes> {
    pub(crate) view: View<S>,
    pub request: RequestLine<S>,
    pub headers: Vec<Header<S>>,
    pub body: Option<Body<S>>,
}
#[derive(Debug, Clone)]
pub struct Response<S = Bytes> {
    pub(crate) view: View<S>,
    pub status: Status<S>,
    pub headers: Vec<Header<S>>,
    pub body: Option<Body<S>>,
}
viewed!(HeaderName, HeaderValue, Method, Target, Code, Reason, Header, RequestLine, Status, Body, Request, Response);

fn named<'a, S>(h: &'a [Header<S>], name: &'a str) -> impl Iterator<Item = &'a Header<S>> {
    h.iter().filter(move |h| h.name.as_str().eq_ignore_ascii_case(name))
}
impl<S: Store> Header<S> {
    pub fn without_value(&self) -> View<S> {
        self.view.without(self.value.view.indices())
    }
}
impl<S: Store> Request<S> {
    pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> {
        named(&self.headers, name)
    }
    /// All but target, headers and body.
    pub fn without_data(&self) -> View<S> {
        let v = self.view.without(self.request.target.view.indices());
        let v = self.headers.iter().fold(v, |v, h| v.without(h.view.indices()));
        self.body.iter().fold(v, |v, b| v.without(b.view.indices()))
    }
}
impl<S: Store> Response<S> {
    pub fn headers_with_name<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Header<S>> {
        named(&self.headers, name)
    }
    /// All but headers and body.
    pub fn without_data(&self) -> View<S> {
        let v = self.headers.iter().fold(self.view.clone(), |v, h| v.without(h.view.indices()));
        self.body.iter().fold(v, |v, b| v.without(b.view.indices()))
    }
}

type R<T> = Result<T, ParseError>;
fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(ParseError(m.into()))
}

/// The line from `at`, without and with its line end.
fn line(s: &[u8], at: usize) -> R<(Range<usize>, usize)> {
    match s[at..].iter().position(|&b| b == b'\n') {
        Some(n) => {
            let end = at + n;
            let e = if end > at && s[end - 1] == b'\r' { end - 1 } else { end };
            Ok((at..e, end + 1))
        }
        None => bad("incomplete head"),
    }
}

fn headers<S: Store>(src: &S, mut at: usize) -> R<(Vec<Header<S>>, usize)> {
    let s = src.as_ref();
    let mut v = vec![];
    loop {
        let (l, next) = line(s, at)?;
        if l.is_empty() {
            return Ok((v, next));
        }
        let Some(c) = s[l.clone()].iter().position(|&b| b == b':') else { return bad("header without colon") };
        let name = l.start..l.start + c;
        let tchar = |b: &u8| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(b);
        if name.is_empty() || !s[name.clone()].iter().all(tchar) {
            return bad("header name");
        }
        let blank = |b: u8| b == b' ' || b == b'\t';
        let (mut a, mut b) = (name.end + 1, l.end);
        while a < b && blank(s[a]) {
            a += 1;
        }
        while b > a && blank(s[b - 1]) {
            b -= 1;
        }
        v.push(Header { view: View::range(src, at..next), name: HeaderName { view: View::range(src, name) }, value: HeaderValue { view: View::range(src, a..b) } });
        at = next;
    }
}

/// The body from `at`, if any, and where it ends.
fn body<S: Store>(src: &S, h: &[Header<S>], at: usize, to_end: bool) -> R<(Option<Body<S>>, usize)> {
    let s = src.as_ref();
    let mut pos: Vec<usize> = vec![];
    let end = if let Some(te) = named(h, "transfer-encoding").next() {
        if !te.value.as_str().eq_ignore_ascii_case("chunked") {
            return bad("transfer encoding");
        }
        let mut p = at;
        loop {
            let (l, next) = line(s, p)?;
            let text = std::str::from_utf8(&s[l]).ok().and_then(|t| t.split(';').next()).unwrap_or("");
            let Ok(n) = usize::from_str_radix(text.trim(), 16) else { return bad("chunk size") };
            if n == 0 {
                break headers(src, next)?.1;
            }
            if next + n + 2 > s.len() || &s[next + n..next + n + 2] != b"\r\n" {
                return bad("incomplete chunk");
            }
            pos.extend(next..next + n);
            p = next + n + 2;
        }
    } else if let Some(cl) = named(h, "content-length").next() {
        let Ok(n) = cl.value.as_str().parse::<usize>() else { return bad("content length") };
        if n > s.len() - at {
            return bad("incomplete body");
        }
        pos.extend(at..at + n);
        at + n
    } else if to_end {
        pos.extend(at..s.len());
        s.len()
    } else {
        at
    };
    if end == at {
        return Ok((None, end));
    }
    let view = View::range(src, at..end);
    let is_json = named(h, "content-type").next().is_some_and(|v| v.value.as_str().split(';').next().unwrap_or("").trim().eq_ignore_ascii_case("application/json"));
    let content = if is_json { BodyContent::Json(json::parse_at(src, &pos)?) } else { BodyContent::Unknown(view.clone()) };
    Ok((Some(Body { view, content }), end))
}

fn request<S: Store>(src: &S, at: usize) -> R<(Request<S>, usize)> {
    let s = src.as_ref();
    let (l, next) = line(s, at)?;
    let sp: Vec<usize> = l.clone().filter(|&i| s[i] == b' ').collect();
    let &[a, b] = sp.as_slice() else { return bad("request line") };
    if a == l.start || b == a + 1 || !matches!(&s[b + 1..l.end], b"HTTP/1.1" | b"HTTP/1.0") {
        return bad("request line");
    }
    let line = RequestLine { view: View::range(src, at..next), method: Method { view: View::range(src, l.start..a) }, target: Target { view: View::range(src, a + 1..b) } };
    let (headers, head) = headers(src, next)?;
    let (body, end) = body(src, &headers, head, false)?;
    Ok((Request { view: View::range(src, at..end), request: line, headers, body }, end))
}

fn response<S: Store>(src: &S, at: usize) -> R<(Response<S>, usize)> {
    let s = src.as_ref();
    let (l, next) = line(s, at)?;
    let t = &s[l.clone()];
    if t.len() < 12 || !(t.starts_with(b"HTTP/1.1 ") || t.starts_with(b"HTTP/1.0 ")) || !t[9..12].iter().all(u8::is_ascii_digit) || t.get(12).is_some_and(|&c| c != b' ') {
        return bad("status line");
    }
    let code = l.start + 9..l.start + 12;
    let status = Status { view: View::range(src, at..next), code: Code { view: View::range(src, code.clone()) }, reason: Reason { view: View::range(src, (code.end + 1).min(l.end)..l.end) } };
    let n = status.code.as_str();
    let none = n.starts_with('1') || n == "204" || n == "304";
    let (headers, head) = headers(src, next)?;
    let (body, end) = if none { (None, head) } else { body(src, &headers, head, true)? };
    Ok((Response { view: View::range(src, at..end), status, headers, body }, end))
}

pub fn parse_request<S: Store>(src: S) -> R<Request<S>> {
    request(&src, 0).map(|r| r.0)
}
pub fn parse_response<S: Store>(src: S) -> R<Response<S>> {
    response(&src, 0).map(|r| r.0)
}

macro_rules! all {
    ($t:ident, $m:ident, $f:ident) => {
        /// The messages of a stream, one after the other.
        #[derive(Debug)]
        pub struct $t<S = Bytes> {
            src: S,
            at: usize,
        }
        impl $t<Bytes> {
            pub fn new_from_slice(s: &[u8]) -> Self {
                $t { src: Bytes::copy_from_slice(s), at: 0 }
            }
        }
        impl<S: Store> $t<S> {
            pub fn new(src: S) -> Self {
                $t { src, at: 0 }
            }
        }
        impl<S: Store> Iterator for $t<S> {
            type Item = R<$m<S>>;
            fn next(&mut self) -> Option<Self::Item> {
                let n = self.src.as_ref().len();
                if self.at >= n {
                    return None;
                }
                Some(match $f(&self.src, self.at) {
                    Ok((m, end)) => {
                        self.at = end;
                        Ok(m)
                    }
                    Err(e) => {
                        self.at = n;
                        Err(e)
                    }
                })
            }
        }
    };
}
all!(Requests, Request, request);
all!(Responses, Response, response);
