//! C51: the ranges computed for disclosure handlers are exactly those of the parts named.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tlsn_sdk_core::{compute_reveal, Handler, HandlerAction, HandlerParams, HandlerPart, HandlerType, HashAlgorithm};
use vpt::{cases, check, check_eq, fail, law, CaseResult, Check, Cx};

use crate::msg::*;

/// A handler, in terms of what the messages turn out to hold.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct H {
    sent: bool,
    part: u8,
    hash: Option<u8>,
    /// Which header, path or piece of the message; one that is not there if `odd` is 0.
    pick: u16,
    odd: u8,
    hide: u8,
    params: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    req: Msg,
    resp: Msg,
    handlers: Vec<H>,
}

fn case() -> impl Strategy<Value = Case> {
    let h = (any::<bool>(), prop_oneof![1 => 0u8..8, 2 => 5u8..8], prop::option::of(0u8..3), any::<u16>(), any::<u8>(), prop_oneof![3 => 0u8..3, 1 => 0u8..4], any::<u8>())
        .prop_map(|(sent, part, hash, pick, odd, hide, params)| H { sent, part, hash, pick, odd, hide, params });
    (msg(), msg(), prop::collection::vec(h, 0..5)).prop_map(|(req, resp, handlers)| Case { req, resp, handlers })
}

const PARTS: [HandlerPart; 8] = [
    HandlerPart::StartLine,
    HandlerPart::Protocol,
    HandlerPart::Method,
    HandlerPart::RequestTarget,
    HandlerPart::StatusCode,
    HandlerPart::Headers,
    HandlerPart::Body,
    HandlerPart::All,
];
const ALGS: [HashAlgorithm; 3] = [HashAlgorithm::Blake3, HashAlgorithm::Sha256, HashAlgorithm::Keccak256];

fn flags(h: &H, p: &mut HandlerParams) -> (bool, bool) {
    // An absent flag and a false one are the same.
    let (k, v) = (h.hide & 1 == 1, h.hide & 2 == 2);
    p.hide_key = if k { Some(true) } else { (h.odd & 1 == 0).then_some(false) };
    p.hide_value = if v { Some(true) } else { (h.odd & 2 == 0).then_some(false) };
    (k, v)
}

fn runs(raw: &[u8], f: impl Fn(u8) -> bool) -> Set {
    let mut s = Set::default();
    for (i, &b) in raw.iter().enumerate() {
        if f(b) {
            s.union_mut(i..i + 1);
        }
    }
    s
}

fn occurrences(raw: &[u8], lit: &[u8]) -> Set {
    let mut s = Set::default();
    let mut i = 0;
    while i + lit.len() <= raw.len() {
        if &raw[i..i + lit.len()] == lit {
            s.union_mut(i..i + lit.len());
            i += lit.len();
        } else {
            i += 1;
        }
    }
    s
}

/// The handler and what it is to yield; `None`: refused.
fn plan(h: &H, at: &At, raw: &[u8]) -> (Handler, Option<Set>) {
    let part = PARTS[h.part as usize];
    let mut p = HandlerParams::default();
    let mut given = h.params & 1 == 1;
    let whole = |r: &std::ops::Range<usize>| Some(set(r.clone()));
    let want = match (part, h.sent) {
        (HandlerPart::StartLine, _) => whole(&at.line),
        (HandlerPart::Protocol, _) => Some(minus(minus(set(at.line.clone()), &set(at.parts[0].clone())), &set(at.parts[1].clone()))),
        (HandlerPart::Method, true) | (HandlerPart::StatusCode, false) => whole(&at.parts[0]),
        (HandlerPart::RequestTarget, true) => whole(&at.parts[1]),
        (HandlerPart::Method | HandlerPart::RequestTarget, false) | (HandlerPart::StatusCode, true) => None,
        (HandlerPart::Headers, _) => {
            let name = (h.params & 6 != 0).then(|| match at.headers.len() {
                n if n > 0 && h.odd != 0 => {
                    let name = at.headers[h.pick as usize % n].name.clone();
                    match h.params >> 3 & 3 {
                        0 => name.to_ascii_uppercase(),
                        1 => name.to_ascii_lowercase(),
                        _ => name,
                    }
                }
                _ => "no-such-header-0".to_string(),
            });
            given |= name.is_some();
            let (k, v) = if given || h.hide != 0 {
                given = true;
                flags(h, &mut p)
            } else {
                (false, false)
            };
            p.key = name.clone();
            if k && v {
                None
            } else {
                let mut s = Set::default();
                for a in at.headers.iter().filter(|a| name.as_ref().is_none_or(|n| n.eq_ignore_ascii_case(&a.name))) {
                    s.union_mut(&match (k, v) {
                        (true, _) => set(a.value.clone()),
                        (_, true) => minus(set(a.view.clone()), &set(a.value.clone())),
                        _ => set(a.view.clone()),
                    });
                }
                Some(s)
            }
        }
        (HandlerPart::Body, _) => match (&at.body, h.params & 6 != 0) {
            (b, false) => {
                if given && h.params & 8 != 0 {
                    p.content_type = Some("text".into());
                }
                Some(b.clone().map(set).unwrap_or_default())
            }
            (b, true) => {
                given = true;
                p.content_type = Some("json".into());
                let paths = at.paths();
                // What hiding the value of an array's element means is left open.
                let paths: Vec<_> = paths.into_iter().filter(|(_, o)| *o || h.hide & 2 == 0 || h.hide == 3).collect();
                let found = !paths.is_empty() && h.odd > 8;
                let path = if found { paths[h.pick as usize % paths.len()].0.clone() } else { format!("no such key.{}", h.pick) };
                let without = h.odd == 8;
                p.path = (!without).then(|| path.clone());
                let (k, v) = flags(h, &mut p);
                if b.is_none() {
                    Some(Set::default())
                } else if at.json.is_none() || without || (k && v) || !found {
                    None
                } else {
                    let (n, pair) = at.find(&path).expect("the path leads somewhere");
                    let val = at.doc(&n.view);
                    Some(match (pair, k, v) {
                        (Some(_), true, _) | (None, _, _) => val,
                        (Some(pair), _, true) => minus(at.doc(pair), &val),
                        (Some(pair), ..) => at.doc(pair),
                    })
                }
            }
        },
        (HandlerPart::All, _) => {
            if h.params & 6 == 0 {
                if given && h.params & 8 != 0 {
                    p.content_type = Some("regex".into());
                }
                whole(&(0..raw.len()))
            } else {
                given = true;
                p.content_type = Some("regex".into());
                // Flags that make no difference: all matches count, and text is Unicode.
                p.flags = [None, Some(""), Some("g"), Some("gu")][h.params as usize >> 6].map(Into::into);
                let (re, s) = match (h.params >> 3 & 7) ^ 4 {
                    _ if h.odd == 0 => ("(".to_string(), None),
                    _ if h.odd == 1 => {
                        p.flags = Some("g\u{1}".into());
                        ("a".to_string(), None)
                    }
                    4 => {
                        p.flags = Some(if h.odd & 1 == 1 { "s" } else { "gs" }.into());
                        ("(?-u:.)+".to_string(), Some(set(0..raw.len())))
                    }
                    5 => {
                        p.flags = Some(if h.odd & 1 == 1 { "m" } else { "mg" }.into());
                        ("^(?-u:[^\\n])+".to_string(), Some(runs(raw, |b| b != b'\n')))
                    }
                    6 => ("^(?-u:.)+".to_string(), Some(set(0..raw.iter().position(|b| *b == b'\n').unwrap_or(raw.len())))),
                    7 => {
                        let a = h.pick as usize % raw.len();
                        let lit: Vec<u8> = raw[a..].iter().filter(|b| b.is_ascii_alphanumeric()).take(1 + h.odd as usize % 2).copied().collect();
                        p.flags = Some("i".into());
                        let fold = lit.iter().map(|b| if h.odd & 4 == 4 { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }).collect();
                        let re = if lit.is_empty() { "A ".to_string() } else { String::from_utf8(fold).unwrap() };
                        (format!("(?-u:{re})"), Some(occurrences(&raw.to_ascii_lowercase(), re.to_ascii_lowercase().as_bytes())))
                    }
                    0 => ("[0-9]+".to_string(), Some(runs(raw, |b| b.is_ascii_digit()))),
                    1 => ("(?-u:[^\\r\\n])+".to_string(), Some(runs(raw, |b| b != b'\r' && b != b'\n'))),
                    _ => {
                        let a = h.pick as usize % raw.len();
                        let lit: Vec<u8> = raw[a..].iter().take(1 + h.odd as usize % 20).copied().collect();
                        let re = lit.iter().map(|b| format!("\\x{b:02x}")).collect::<String>();
                        (format!("(?-u:{re})"), Some(occurrences(raw, &lit)))
                    }
                };
                p.regex = Some(re);
                s
            }
        }
    };
    let handler = Handler {
        handler_type: if h.sent { HandlerType::Sent } else { HandlerType::Recv },
        part,
        action: h.hash.map_or(HandlerAction::Reveal, |a| HandlerAction::Hash { algorithm: ALGS[a as usize] }),
        params: given.then_some(p),
    };
    (handler, want)
}

/// The handler as it is written in JSON.
fn wire(h: &Handler) -> serde_json::Value {
    use serde_json::{json, Map, Value};
    let part = ["START_LINE", "PROTOCOL", "METHOD", "REQUEST_TARGET", "STATUS_CODE", "HEADERS", "BODY", "ALL"][PARTS.iter().position(|p| *p == h.part).unwrap()];
    let action = match h.action {
        HandlerAction::Reveal => json!({"kind": "REVEAL"}),
        HandlerAction::Hash { algorithm } => json!({"kind": "HASH", "algorithm": (["BLAKE3", "SHA256", "KECCAK256"][ALGS.iter().position(|a| *a == algorithm).unwrap()])}),
    };
    let mut v = json!({"type": if h.handler_type == HandlerType::Sent { "SENT" } else { "RECV" }, "part": part, "action": action});
    if let Some(p) = &h.params {
        let mut m = Map::new();
        let fields: [(&str, Option<Value>); 7] = [
            ("key", p.key.clone().map(Into::into)),
            ("hideKey", p.hide_key.map(Into::into)),
            ("hideValue", p.hide_value.map(Into::into)),
            ("type", p.content_type.clone().map(Into::into)),
            ("path", p.path.clone().map(Into::into)),
            ("regex", p.regex.clone().map(Into::into)),
            ("flags", p.flags.clone().map(Into::into)),
        ];
        for (k, f) in fields {
            if let Some(f) = f {
                m.insert(k.into(), f);
            }
        }
        v["params"] = m.into();
    }
    v
}

fn test(c: &Case, cx: &mut Cx) -> CaseResult {
    let (mut sent, mut recv) = (vec![], vec![]);
    let req = render(&c.req, true, true, &mut sent);
    let resp = render(&c.resp, false, true, &mut recv);
    let plans: Vec<(Handler, Option<Set>)> = c.handlers.iter().map(|h| if h.sent { plan(h, &req, &sent) } else { plan(h, &resp, &recv) }).collect();
    let handlers: Vec<Handler> = plans.iter().map(|p| p.0.clone()).collect();
    cx.nontrivial(plans.iter().any(|p| p.1.as_ref().is_some_and(|s| !s.is_empty())));
    for (h, w) in &plans {
        cx.label(format!("{:?}{}", h.part, if w.is_none() { " refused" } else { "" }));
        cx.label_if(h.params.as_ref().is_some_and(|p| p.path.is_some()) && w.is_some(), "JSON path");
    }
    for h in &handlers {
        let w = wire(h);
        match serde_json::from_value::<Handler>(w.clone()) {
            Ok(g) => check!(g == *h, "{w} is read as {g:?}"),
            Err(e) => fail!("{w} is refused: {e}"),
        }
        check_eq!(serde_json::to_value(h).map_err(|e| e.to_string())?, w, "the handler as JSON");
    }
    let got = compute_reveal(&sent, &recv, &handlers);
    if plans.iter().any(|p| p.1.is_none()) {
        check!(got.is_err(), "a handler that cannot be followed is not refused");
        return Ok(());
    }
    let got = got.map_err(|e| format!("refused: {e}"))?;
    check!(got.reveal.server_identity, "the server's identity is not revealed");
    // What each handler yielded, in the order of the handlers.
    for (is_sent, list, reveal) in [(true, &got.sent_ranges_with_handlers, &got.reveal.sent), (false, &got.recv_ranges_with_handlers, &got.reveal.recv)] {
        let dir = if is_sent { "sent" } else { "received" };
        let plans: Vec<_> = plans.iter().filter(|p| (p.0.handler_type == HandlerType::Sent) == is_sent).collect();
        // The ranges are listed handler by handler, so cut the list into runs of one handler each.
        let mut i = 0;
        let mut revealed = vec![];
        let mut committed = vec![];
        let mut merged: Vec<(&Handler, Set)> = vec![];
        for (h, s) in plans.iter().map(|p| (&p.0, p.1.clone().unwrap())) {
            match merged.last_mut() {
                Some((g, t)) if *g == h => t.union_mut(&s),
                _ => merged.push((h, s)),
            }
        }
        for (h, s) in merged {
            let mut t = Set::default();
            let from = i;
            while i < list.len() && list[i].handler == *h {
                check!(list[i].start <= list[i].end, "a range that ends before it starts");
                t.union_mut(list[i].start..list[i].end);
                match h.action {
                    HandlerAction::Reveal => revealed.push(list[i].start..list[i].end),
                    HandlerAction::Hash { algorithm } => committed.push((list[i].start, list[i].end, algorithm)),
                }
                i += 1;
            }
            // Equal handlers apart are told apart by what lies between them, unless that is empty.
            if plans.iter().filter(|p| p.0 == *h).count() == 1 || from != i {
                check!(t == s, "{dir} {:?}: {:?} instead of {:?}", h.part, t, s);
            }
        }
        check_eq!(i, list.len(), "ranges accounted for");
        check_eq!(reveal, &revealed, "ranges to reveal");
        let commits: Vec<_> = got
            .commit
            .iter()
            .flat_map(|c| if is_sent { &c.sent } else { &c.recv })
            .map(|c| (c.start, c.end, c.algorithm))
            .collect();
        check_eq!(commits, committed, "ranges to commit to");
    }
    let any = plans.iter().any(|p| matches!(p.0.action, HandlerAction::Hash { .. }) && p.1.as_ref().is_some_and(|s| !s.is_empty()));
    check!(!any || got.commit.is_some(), "nothing to commit to");
    check!(got.commit.as_ref().is_none_or(|c| !c.sent.is_empty() || !c.recv.is_empty()), "an empty list of commitments");
    Ok(())
}

pub fn c51() -> Check {
    Check {
        id: "C51",
        rule: "some handler yields a range",
        assumptions: &["HTTP and JSON parsing is done by a stand-in for the spansy library (core/shims/spansy); where the parts of a message are is known from how it was written, not from parsing"],
        laws: vec![law("handlers", cases(60_000), case, test)],
    }
}
