//! HTTP messages written down together with the positions of their parts, without
//! any parsing.

use proptest::prelude::*;
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use std::ops::Range;
use vpt::gen::Bytes;

pub type Set = RangeSet<usize>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BodyG {
    None,
    Raw(Bytes),
    Json(J, Vec<u8>, String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Framing {
    Length,
    Chunked(Vec<u8>),
    End,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Msg {
    pub method: String,
    pub target: String,
    pub code: u16,
    pub reason: String,
    /// Name, value, blanks before and after the value.
    pub headers: Vec<(String, String, u8, u8)>,
    pub body: BodyG,
    pub framing: Framing,
    /// Where among the headers those describing the body go, and in which case.
    pub slot: u8,
    pub upper: bool,
}

fn jstr() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        6 => "[a-z][a-z0-9_]{0,8}",
        2 => "[ -!#-\\-/-\\[\\]-~]{0,12}",
        1 => Just(String::new()),
        1 => Just("\\\"quoted\\\" \\u00e9 \\\\".to_string()),
        1 => Just("é€😀".to_string()),
        1 => "[0-9]{1,2}",
        1 => Just("{\\\"a\\\": [1]}, ]}".to_string()),
    ]
}

pub fn json() -> impl Strategy<Value = J> + Clone {
    let leaf = prop_oneof![
        1 => Just(J::Null),
        1 => any::<bool>().prop_map(J::Bool),
        2 => prop_oneof![Just("0"), Just("-1"), Just("3.14"), Just("1e5"), Just("-0.5E-3"), Just("12345678901234567890")].prop_map(|s| J::Num(s.into())),
        3 => jstr().prop_map(J::Str),
    ];
    leaf.prop_recursive(4, 24, 5, |inner| {
        prop_oneof![
            1 => prop::collection::vec(inner.clone(), 0..4).prop_map(J::Arr),
            2 => prop::collection::vec((jstr(), inner), 0..5).prop_map(|v| {
                // A key occurs once and holds no dot.
                let mut out: Vec<(String, J)> = vec![];
                for (k, j) in v {
                    if !k.contains('.') && !k.is_empty() && out.iter().all(|o| o.0 != k) {
                        out.push((k, j));
                    }
                }
                J::Obj(out)
            }),
        ]
    })
}

fn header() -> impl Strategy<Value = (String, String, u8, u8)> {
    let name = prop_oneof![
        3 => "[A-Za-z][A-Za-z0-9-]{0,14}",
        2 => prop::sample::select(vec!["Host", "Cookie", "cookie", "Authorization", "X-Api-Key", "Set-Cookie", "Accept"]).prop_map(String::from),
    ];
    let value = prop_oneof![
        5 => "[!-~]([ -~]{0,30}[!-~])?",
        1 => Just(String::new()),
        1 => Just("a: b, c;d=\"e\"".to_string()),
    ];
    (name, value, 0u8..3, 0u8..3).prop_filter("describes the body", |(n, ..)| {
        !["content-length", "content-type", "transfer-encoding"].contains(&n.to_ascii_lowercase().as_str())
    })
}

pub fn msg() -> impl Strategy<Value = Msg> {
    let body = prop_oneof![
        2 => Just(BodyG::None),
        2 => vpt::gen::bytes(1..80).prop_map(BodyG::Raw),
        5 => (json(), prop::collection::vec(0u8..6, 1..6), prop::sample::select(vec!["application/json", "application/json; charset=utf-8"]))
            .prop_map(|(j, w, t)| BodyG::Json(j, w, t.into())),
    ];
    let framing = prop_oneof![3 => Just(Framing::Length), 2 => prop::collection::vec(1u8..40, 1..5).prop_map(Framing::Chunked), 1 => Just(Framing::End)];
    (
        prop::sample::select(vec!["GET", "POST", "PUT", "DELETE", "PATCH", "X"]),
        prop_oneof![Just("/".to_string()), "/[!-~]{0,40}", "https?://[a-z.]{1,12}/[a-z]{0,5}"],
        (prop::sample::select(vec![200u16, 201, 204, 304, 400, 404, 500, 999]), prop_oneof![Just(String::new()), "[A-Za-z]([A-Za-z ]{0,20}[A-Za-z])?"]),
        prop::collection::vec(header(), 0..6),
        body,
        framing,
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(method, target, (code, reason), headers, body, framing, slot, upper)| Msg {
            method: method.into(),
            target,
            code,
            reason,
            headers,
            body,
            framing,
            slot,
            upper,
        })
}

/// A value in the document, with ranges of the document.
#[derive(Debug, Clone)]
pub struct Node {
    pub view: Range<usize>,
    pub kids: Kids,
}
#[derive(Debug, Clone)]
pub enum Kids {
    Str,
    Other,
    Arr(Vec<Node>),
    /// Key, pair, value.
    Obj(Vec<(String, Range<usize>, Node)>),
}

struct Ws<'a>(&'a [u8], usize);
impl Ws<'_> {
    fn next(&mut self) -> &'static str {
        let v = self.0[self.1 % self.0.len()];
        self.1 += 1;
        ["", "", "", " ", "\n  ", "\t"][v as usize]
    }
}

fn write(j: &J, out: &mut String, ws: &mut Ws) -> Node {
    let s = out.len();
    let kids = match j {
        J::Null => {
            out.push_str("null");
            Kids::Other
        }
        J::Bool(b) => {
            out.push_str(if *b { "true" } else { "false" });
            Kids::Other
        }
        J::Num(n) => {
            out.push_str(n);
            Kids::Other
        }
        J::Str(t) => {
            out.push('"');
            out.push_str(t);
            out.push('"');
            return Node { view: s + 1..out.len() - 1, kids: Kids::Str };
        }
        J::Arr(v) => {
            out.push('[');
            let mut kids = vec![];
            for (i, j) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(ws.next());
                kids.push(write(j, out, ws));
                out.push_str(ws.next());
            }
            out.push(']');
            Kids::Arr(kids)
        }
        J::Obj(v) => {
            out.push('{');
            let mut kids = vec![];
            for (i, (k, j)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(ws.next());
                let s = out.len();
                out.push('"');
                out.push_str(k);
                out.push('"');
                out.push_str(ws.next());
                out.push(':');
                out.push_str(ws.next());
                let n = write(j, out, ws);
                kids.push((k.clone(), s..out.len(), n));
                out.push_str(ws.next());
            }
            out.push('}');
            Kids::Obj(kids)
        }
    };
    Node { view: s..out.len(), kids }
}

#[derive(Debug, Clone)]
pub struct HeaderAt {
    pub name: String,
    pub view: Range<usize>,
    pub value: Range<usize>,
}

/// Where everything is.
#[derive(Debug, Clone)]
pub struct At {
    pub view: Range<usize>,
    pub line: Range<usize>,
    /// Method and target, or code and reason.
    pub parts: [Range<usize>; 2],
    pub headers: Vec<HeaderAt>,
    pub body: Option<Range<usize>>,
    pub json: Option<Node>,
    /// Position of each byte of the document.
    pub pos: Vec<usize>,
}

pub fn set(r: Range<usize>) -> Set {
    let mut s = Set::default();
    if !r.is_empty() {
        s.union_mut(r);
    }
    s
}
pub fn minus(mut a: Set, b: &Set) -> Set {
    a.difference_mut(b);
    a
}
impl At {
    pub fn doc(&self, r: &Range<usize>) -> Set {
        let mut s = Set::default();
        for &p in &self.pos[r.clone()] {
            s.union_mut(p..p + 1);
        }
        s
    }
    pub fn find(&self, path: &str) -> Option<(&Node, Option<&Range<usize>>)> {
        let mut at = (self.json.as_ref()?, None);
        for p in path.split('.') {
            at = match &at.0.kids {
                Kids::Obj(v) => v.iter().find(|(k, ..)| k == p).map(|(_, r, n)| (n, Some(r)))?,
                Kids::Arr(v) => (v.get(p.parse::<usize>().ok()?)?, None),
                _ => return None,
            };
        }
        Some(at)
    }
    /// All paths that lead to a value.
    pub fn paths(&self) -> Vec<(String, bool)> {
        fn go(n: &Node, pre: &str, out: &mut Vec<(String, bool)>) {
            let mut each = |k: &str, n: &Node, o: bool| {
                let p = if pre.is_empty() { k.to_string() } else { format!("{pre}.{k}") };
                out.push((p.clone(), o));
                go(n, &p, out);
            };
            match &n.kids {
                Kids::Obj(v) => v.iter().for_each(|(k, _, n)| each(k, n, true)),
                Kids::Arr(v) => v.iter().enumerate().for_each(|(i, n)| each(&i.to_string(), n, false)),
                _ => {}
            }
        }
        let mut v = vec![];
        if let Some(n) = &self.json {
            go(n, "", &mut v);
        }
        v
    }
}

/// Writes a message after what is in `out`. `last`: nothing follows it.
pub fn render(m: &Msg, request: bool, last: bool, out: &mut Vec<u8>) -> At {
    let start = out.len();
    let put = |out: &mut Vec<u8>, b: &[u8]| {
        let s = out.len();
        out.extend_from_slice(b);
        s..out.len()
    };
    let parts = if request {
        let a = put(out, m.method.as_bytes());
        put(out, b" ");
        let b = put(out, m.target.as_bytes());
        put(out, b" HTTP/1.1\r\n");
        [a, b]
    } else {
        put(out, b"HTTP/1.1 ");
        let a = put(out, m.code.to_string().as_bytes());
        put(out, b" ");
        let b = put(out, m.reason.as_bytes());
        put(out, b"\r\n");
        [a, b]
    };
    let line = start..out.len();
    let mut doc = String::new();
    let mut json = None;
    let bodyless = !request && matches!(m.code, 204 | 304);
    let content: Option<Vec<u8>> = match &m.body {
        _ if bodyless => None,
        BodyG::None => None,
        BodyG::Raw(b) => Some(b.0.clone()),
        BodyG::Json(j, ws, _) => {
            let mut ws = Ws(ws, 0);
            doc.push_str(ws.next());
            json = Some(write(j, &mut doc, &mut ws));
            doc.push_str(ws.next());
            Some(doc.clone().into_bytes())
        }
    };
    let framing = match &m.framing {
        Framing::End if request || !last => Framing::Length,
        f => f.clone(),
    };
    let mut headers = m.headers.clone();
    let case = |s: &str| if m.upper { s.to_string() } else { s.to_ascii_lowercase() };
    let mut extra = vec![];
    match (&content, &framing) {
        (Some(c), Framing::Length) => extra.push((case("Content-Length"), c.len().to_string(), 1, 0)),
        (Some(_), Framing::Chunked(_)) => extra.push((case("Transfer-Encoding"), "chunked".to_string(), 1, 0)),
        (None, _) if !request && !last && !bodyless => extra.push((case("Content-Length"), "0".to_string(), 1, 0)),
        _ => {}
    }
    if let (Some(_), BodyG::Json(_, _, t)) = (&content, &m.body) {
        extra.push((case("Content-Type"), t.clone(), 1, 0));
    }
    for h in extra {
        headers.insert(m.slot as usize % (headers.len() + 1), h);
    }
    let headers: Vec<HeaderAt> = headers
        .into_iter()
        .map(|(name, value, a, b)| {
            let s = out.len();
            put(out, name.as_bytes());
            put(out, b":");
            put(out, &b"  "[..a as usize]);
            let v = put(out, value.as_bytes());
            put(out, &b" \t"[..b as usize]);
            put(out, b"\r\n");
            HeaderAt { name, view: s..out.len(), value: v }
        })
        .collect();
    put(out, b"\r\n");
    let s = out.len();
    let mut pos = vec![];
    if let Some(c) = &content {
        match &framing {
            Framing::Chunked(sizes) => {
                let mut rest = &c[..];
                let mut i = 0;
                while !rest.is_empty() {
                    let n = (sizes[i % sizes.len()] as usize).min(rest.len());
                    i += 1;
                    put(out, format!("{n:x}\r\n").as_bytes());
                    pos.extend(put(out, &rest[..n]));
                    put(out, b"\r\n");
                    rest = &rest[n..];
                }
                put(out, b"0\r\n\r\n");
            }
            _ => pos.extend(put(out, c)),
        }
    }
    let body = (out.len() > s).then(|| s..out.len());
    At { view: start..out.len(), line, parts, headers, body, json, pos }
}
