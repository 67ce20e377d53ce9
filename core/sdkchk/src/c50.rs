//! C50: the default committers of tlsn-formats commit to every part that can be disclosed
//! on its own.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use tlsn_core::{
    hash::HashAlgId,
    transcript::{Direction, Transcript, TranscriptCommitConfig, TranscriptCommitmentKind},
};
use tlsn_formats::http::{DefaultHttpCommitter, HttpCommit, HttpTranscript};
use vpt::{cases, check, check_eq, law, trunc, CaseResult, Check, Cx};

use crate::msg::*;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Exchange {
    sent: Vec<Msg>,
    recv: Vec<Msg>,
    alg: Option<u8>,
    /// Commit through the whole transcript, or message by message.
    whole: bool,
}

fn exchange() -> impl Strategy<Value = Exchange> {
    (prop::collection::vec(msg(), 0..3), prop::collection::vec(msg(), 0..3), prop::option::of(0u8..3), any::<bool>())
        .prop_map(|(sent, recv, alg, whole)| Exchange { sent, recv, alg, whole })
}

fn value(at: &At, n: &Node, out: &mut Vec<Set>) {
    match &n.kids {
        Kids::Obj(v) => {
            let mut rest = at.doc(&n.view);
            for (_, pair, _) in v {
                rest = minus(rest, &at.doc(pair));
            }
            out.push(rest);
            for (_, pair, n) in v {
                out.push(minus(at.doc(pair), &at.doc(&n.view)));
                value(at, n, out);
            }
        }
        Kids::Arr(v) => {
            out.push(at.doc(&n.view));
            if !v.is_empty() {
                let mut rest = at.doc(&n.view);
                for n in v {
                    rest = minus(rest, &at.doc(&n.view));
                }
                out.push(rest);
            }
        }
        Kids::Str if n.view.is_empty() => {}
        _ => out.push(at.doc(&n.view)),
    }
}

/// Everything that is to be committed to for a message.
fn parts(at: &At, request: bool) -> Vec<Set> {
    let mut out = vec![set(at.view.clone())];
    if !at.headers.is_empty() || at.body.is_some() {
        let mut rest = set(at.view.clone());
        if request {
            rest = minus(rest, &set(at.parts[1].clone()));
        }
        for h in &at.headers {
            rest = minus(rest, &set(h.view.clone()));
        }
        if let Some(b) = &at.body {
            rest = minus(rest, &set(b.clone()));
        }
        out.push(rest);
    }
    if request {
        out.push(set(at.parts[1].clone()));
    }
    for h in &at.headers {
        out.push(set(h.view.clone()));
        if !h.value.is_empty() {
            out.push(minus(set(h.view.clone()), &set(h.value.clone())));
        }
    }
    match (&at.json, &at.body) {
        (Some(n), _) => value(at, n, &mut out),
        (None, Some(b)) => out.push(set(b.clone())),
        _ => {}
    }
    out
}

const ALGS: [HashAlgId; 3] = [HashAlgId::SHA256, HashAlgId::BLAKE3, HashAlgId::KECCAK256];

fn test(e: &Exchange, cx: &mut Cx) -> CaseResult {
    let (mut sent, mut recv) = (vec![], vec![]);
    let n = e.recv.len();
    let reqs: Vec<At> = e.sent.iter().map(|m| render(m, true, false, &mut sent)).collect();
    let resps: Vec<At> = e.recv.iter().enumerate().map(|(i, m)| render(m, false, i + 1 == n, &mut recv)).collect();
    cx.nontrivial(reqs.iter().chain(&resps).any(|a| !a.headers.is_empty() || a.body.is_some()));
    cx.label_if(reqs.len() > 1 || resps.len() > 1, "several messages");
    cx.label_if(reqs.iter().chain(&resps).any(|a| a.json.is_some()), "JSON");
    cx.label_if(reqs.iter().chain(&resps).any(|a| a.body.is_some() && a.json.is_none()), "other body");
    let t = Transcript::new(sent, recv);
    let http = HttpTranscript::parse(&t).map_err(|e| format!("a well-formed transcript is not parsed: {e}"))?;
    check_eq!((http.requests.len(), http.responses.len()), (reqs.len(), resps.len()), "messages found");
    let mut b = TranscriptCommitConfig::builder(&t);
    let alg = e.alg.map(|i| ALGS[i as usize]);
    if let Some(alg) = alg {
        b.default_kind(TranscriptCommitmentKind::Hash { alg });
    }
    let mut c = DefaultHttpCommitter::default();
    if e.whole {
        c.commit_transcript(&mut b, &http).map_err(|e| format!("not committed: {e}"))?;
    } else {
        for r in &http.responses {
            c.commit_response(&mut b, Direction::Received, r).map_err(|e| format!("response not committed: {e}"))?;
        }
        for r in &http.requests {
            c.commit_request(&mut b, Direction::Sent, r).map_err(|e| format!("request not committed: {e}"))?;
        }
    }
    let config = b.build().map_err(|e| format!("no configuration: {e}"))?;
    let got: HashSet<(Direction, Set)> = config.iter_hash().map(|(i, _)| i.clone()).collect();
    if let Some(alg) = alg {
        check!(config.iter_hash().all(|(_, a)| *a == alg), "another algorithm than the one chosen");
    }
    let want: HashSet<(Direction, Set)> = reqs
        .iter()
        .flat_map(|a| parts(a, true).into_iter().map(|s| (Direction::Sent, s)))
        .chain(resps.iter().flat_map(|a| parts(a, false).into_iter().map(|s| (Direction::Received, s))))
        .collect();
    for (d, s) in &want {
        check!(got.contains(&(*d, s.clone())), "no commitment to {} {}", d, trunc(s));
    }
    for (d, s) in &got {
        check!(want.contains(&(*d, s.clone())), "a commitment to {} {}, which is no part", d, trunc(s));
    }
    Ok(())
}

pub fn c50() -> Check {
    Check {
        id: "C50",
        rule: "some message has headers or a body",
        assumptions: &["HTTP and JSON parsing is done by a stand-in for the spansy library (core/shims/spansy); what the parts of a message are is known from how it was written, not from parsing"],
        laws: vec![law("parts", cases(20_000), exchange, test)],
    }
}
