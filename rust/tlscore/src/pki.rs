//! Generated server PKIs and a reference path validator for them, shared with
//! the checks of tlsn-core.

use crate::x509gen::*;
use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use vpt::gen::*;

// ---------------------------------------------------------------- scenario

/// Certificates presented, certificates trusted, name and time.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Scn {
    pub leaf: Cert,
    pub presented: Vec<Cert>,
    /// Bytes that are no certificate, presented after this many others.
    pub junk: Option<(u8, Bytes)>,
    pub trusted: Vec<Cert>,
    pub name: String,
    pub now: i64,
    pub nanos: u32,
}

#[derive(Debug, Clone)]
pub enum Mutate {
    Issuer(u8),
    Signer(u8),
    Tamper(u8, u8, u16),
    Expired(u8, u8),
    NotYet(u8, u8),
    NotCa(u8, bool),
    PathLen(u8, u8),
    LeafCa(bool),
    Eku(u8, u8),
    Unknown(u8, bool),
    WrongName(u8),
    Constrain(u8, u8, bool),
    DropIntermediate(u8),
    Untrust,
    TrustTwin,
    TrustIntermediate(u8),
    SmallRsa(u8),
    Decoy(u8, u8),
    SelfSigned,
    Junk(u8, u16),
}

pub fn mutate() -> impl Strategy<Value = Mutate> + Clone {
    let i = any::<u8>();
    prop_oneof![
        2 => i.prop_map(Mutate::Issuer),
        3 => i.prop_map(Mutate::Signer),
        4 => (any::<u8>(), any::<u8>(), any::<u16>()).prop_map(|(a, b, c)| Mutate::Tamper(a, b, c)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutate::Expired(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutate::NotYet(a, b)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Mutate::NotCa(a, b)),
        2 => (any::<u8>(), 0u8..4).prop_map(|(a, b)| Mutate::PathLen(a, b)),
        1 => any::<bool>().prop_map(Mutate::LeafCa),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutate::Eku(a, b)),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Mutate::Unknown(a, b)),
        4 => any::<u8>().prop_map(Mutate::WrongName),
        2 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| Mutate::Constrain(a, b, c)),
        2 => any::<u8>().prop_map(Mutate::DropIntermediate),
        2 => Just(Mutate::Untrust),
        2 => Just(Mutate::TrustTwin),
        2 => any::<u8>().prop_map(Mutate::TrustIntermediate),
        1 => any::<u8>().prop_map(Mutate::SmallRsa),
        6 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutate::Decoy(a, b)),
        1 => Just(Mutate::SelfSigned),
        1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Mutate::Junk(a, b)),
    ]
}

pub const DOMAINS: &[&str] = &["a.test", "b.test", "x.a.test", "y.x.a.test", "test", "xa.test", "a.test.b.test", "w-1.a.test", "sub.b.test", "2.b.test", "a_b.test"];

pub fn other_case(s: &str, n: u8) -> String {
    s.chars().enumerate().map(|(i, c)| if (n >> (i % 8)) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
}

/// Names for the leaf such that `name` is covered, among others.
pub fn cover(name: &str, pick: u8) -> Vec<San> {
    let mut v = vec![];
    let wild = name.split_once('.').filter(|(_, r)| r.contains('.')).map(|(_, r)| format!("*.{r}"));
    match pick % 5 {
        0 | 1 => v.push(San::Dns(name.into())),
        2 => v.push(San::Dns(other_case(name, pick))),
        _ => v.push(San::Dns(wild.unwrap_or_else(|| name.into()))),
    }
    if pick & 0x10 != 0 {
        v.insert(0, San::Dns("unrelated.test".into()));
    }
    if pick & 0x20 != 0 {
        v.insert(0, San::Ip(vec![127, 0, 0, 1]));
    }
    if pick & 0x40 != 0 {
        v.push(San::Mail("a@a.test".into()));
    }
    v
}

pub fn key_pick() -> impl Strategy<Value = u8> + Clone {
    // P-256 is the fastest to sign and verify.
    prop_oneof![12 => 0u8..6, 1 => 6u8..9, 3 => 9u8..12, 2 => 12u8..15]
}

pub fn scn() -> impl Strategy<Value = Scn> {
    (
        prop_oneof![1 => Just(0usize), 4 => Just(1usize), 3 => Just(2usize), 1 => Just(3usize)],
        vec(key_pick(), 5),
        vec((any::<u8>(), any::<u32>(), any::<u32>()), 5),
        (select(DOMAINS), any::<u8>(), any::<u8>()),
        prop_oneof![
            6 => 1_600_000_000i64..1_800_000_000,
            1 => 2_524_607_000i64..2_524_609_000,
            1 => 4_000_000_000i64..5_000_000_000,
            1 => 40_000_000i64..60_000_000
        ],
        prop_oneof![1 => Just(0u32), 1 => 0u32..1_000_000_000],
        vec(mutate(), 0..3),
        any::<u64>(),
    )
        .prop_map(|(depth, kp, per, (dom, san_pick, case), now, nanos, muts, shuffle)| {
            let mut used = vec![];
            let mut fresh = |p: u8| {
                let mut k = p;
                while used.contains(&k) {
                    k = (k + 1) % 15;
                }
                used.push(k);
                k
            };
            // chain[0] = leaf, chain.last() = root.
            let n = depth + 2;
            let ks: Vec<u8> = (0..n).map(|i| fresh(kp[i])).collect();
            let subj = |i: usize| if i == 0 { 10 } else if i == n - 1 { 30 } else { 20 + i as u8 };
            let mut chain: Vec<Cert> = (0..n)
                .map(|i| {
                    let (p, a, b) = per[i];
                    let signer = ks[(i + 1).min(n - 1)];
                    let algs = natural(keys()[signer as usize].kind);
                    let span = |x: u32| match x % 4 {
                        0 => 0,
                        1 => 1,
                        2 => (x % 100_000) as i64,
                        _ => 86_400 * 365,
                    };
                    Cert {
                        subject: subj(i),
                        issuer: subj((i + 1).min(n - 1)),
                        key: ks[i],
                        signer,
                        sig: algs[p as usize % algs.len()],
                        nb: (now - span(a)).max(0),
                        na: now + span(b),
                        bc: if i == 0 {
                            if p & 1 == 1 {
                                None
                            } else {
                                Some((false, None))
                            }
                        } else if p & 2 == 0 {
                            Some((true, None))
                        } else {
                            Some((true, Some((i as u8 - 1) + (p >> 6))))
                        },
                        eku: match (i, p % 4) {
                            (_, 0) => None,
                            (0, 1) => Some(vec![2, 1]),
                            (0, 2) => Some(vec![1]),
                            (0, _) => Some(vec![1, 2]),
                            (_, 1) => Some(vec![1, 2]),
                            _ => None,
                        },
                        sans: if i == 0 { cover(dom, san_pick) } else { vec![] },
                        nc: None,
                        unknown: if p & 0x30 == 0x30 { Some(false) } else { None },
                        tamper: None,
                    }
                })
                .collect();
            let mut name = if case & 1 == 1 { other_case(dom, case) } else { dom.to_string() };
            let mut dropped = vec![];
            let mut untrust = false;
            let mut extra: Vec<Cert> = vec![];
            let mut extra_trusted = vec![];
            let mut trust_inter = None;
            let mut junk = None;
            for m in muts {
                match m {
                    Mutate::Issuer(i) => chain[i as usize % n].issuer = 77,
                    Mutate::Signer(i) => {
                        let c = &mut chain[i as usize % n];
                        c.signer = (c.signer + 1) % 6;
                        c.sig = Sig::Ecdsa(Hsh::Sha256);
                    }
                    Mutate::Tamper(i, how, bit) => {
                        let c = &mut chain[i as usize % (n - 1)];
                        c.tamper = Some(match how % 5 {
                            0 => Tamper::Sig(bit),
                            1 => Tamper::Serial,
                            2 => Tamper::Spki((c.key + 1) % 6),
                            3 => Tamper::Validity,
                            _ if c.subject == 10 => Tamper::Names,
                            _ => Tamper::Serial,
                        });
                    }
                    Mutate::Expired(i, d) => chain[i as usize % (n - 1)].na = now - 1 - if d < 128 { 0 } else { d as i64 * 1000 },
                    Mutate::NotYet(i, d) => chain[i as usize % (n - 1)].nb = now + 1 + if d < 128 { 0 } else { d as i64 * 1000 },
                    Mutate::NotCa(i, none) => chain[1 + i as usize % (n - 1)].bc = if none { None } else { Some((false, None)) },
                    Mutate::PathLen(i, l) => chain[1 + i as usize % (n - 1)].bc = Some((true, Some(l))),
                    Mutate::LeafCa(b) => chain[0].bc = Some((true, if b { Some(0) } else { None })),
                    Mutate::Eku(i, e) => chain[i as usize % n].eku = Some([vec![2], vec![3], vec![1], vec![2, 3, 4], vec![9, 1]][e as usize % 5].clone()),
                    Mutate::Unknown(i, c) => chain[i as usize % n].unknown = Some(c),
                    Mutate::WrongName(k) => match k % 6 {
                        0 => name = DOMAINS[(k / 6) as usize % DOMAINS.len()].to_string(),
                        1 => name = format!("z.{name}"),
                        2 => name = name.split_once('.').map(|x| x.1.to_string()).unwrap_or("other".into()),
                        3 => name = format!("{name}.com"),
                        4 => chain[0].sans = vec![],
                        _ => chain[0].sans = vec![San::Dns(DOMAINS[(k / 6) as usize % DOMAINS.len()].into()), San::Dns("*.a.test".into())],
                    },
                    Mutate::Constrain(i, d, excl) => {
                        let base = vec![["test", "a.test", "x.a.test", "b.test", "c.test"][d as usize % 5].to_string()];
                        chain[1 + i as usize % (n - 1)].nc = Some(if excl { (vec![], base) } else { (base, vec![]) });
                    }
                    Mutate::DropIntermediate(i) => dropped.push(1 + i as usize % (n - 1)),
                    Mutate::Untrust => untrust = true,
                    Mutate::TrustTwin => {
                        // Same name, other key.
                        let mut t = chain[n - 1].clone();
                        t.key = (t.key + 1) % 6;
                        t.signer = t.key;
                        t.sig = Sig::Ecdsa(Hsh::Sha256);
                        extra_trusted.push(t);
                        untrust = shuffle & 3 != 0;
                    }
                    Mutate::TrustIntermediate(i) => trust_inter = Some(1 + i as usize % (n - 1)),
                    Mutate::SmallRsa(i) => {
                        let i = i as usize % n;
                        chain[i].key = 15;
                        let s = if i == 0 { i } else { i - 1 };
                        if s != i {
                            chain[s].signer = 15;
                            chain[s].sig = Sig::Pkcs1(Hsh::Sha256);
                        }
                        if i == n - 1 {
                            chain[i].signer = 15;
                            chain[i].sig = Sig::Pkcs1(Hsh::Sha256);
                        }
                    }
                    Mutate::Decoy(i, how) => {
                        let i = 1 + i as usize % (n - 1);
                        let mut t = chain[i].clone();
                        match how % 6 {
                            0 => t.na = now - 5,
                            1 => {
                                t.key = (t.key + 3) % 6;
                            }
                            2 => t.bc = None,
                            3 => t.tamper = Some(Tamper::Serial),
                            4 => t.subject = 88,
                            _ => t.eku = Some(vec![2]),
                        }
                        extra.push(t);
                    }
                    Mutate::SelfSigned => {
                        chain[0].issuer = chain[0].subject;
                        chain[0].signer = chain[0].key;
                        chain[0].sig = natural(keys()[chain[0].key as usize].kind)[0];
                    }
                    Mutate::Junk(at, len) => junk = Some((at, Bytes(filler(len as u64, len as usize % 300)))),
                }
            }
            if chain.iter().any(|c| c.nc.is_some()) {
                for s in &mut chain[0].sans {
                    if let San::Dns(d) = s {
                        *d = d.replace("*.", "w-1.");
                    }
                }
            }
            let mut presented: Vec<Cert> = (1..n).filter(|i| !dropped.contains(i) && (*i < n - 1 || shuffle & 4 != 0)).map(|i| chain[i].clone()).collect();
            presented.extend(extra);
            // Any order.
            let mut s = shuffle;
            for i in (1..presented.len()).rev() {
                presented.swap(i, (s % (i as u64 + 1)) as usize);
                s /= i as u64 + 1;
            }
            let mut trusted = extra_trusted;
            if !untrust {
                trusted.push(chain[n - 1].clone());
            }
            if let Some(i) = trust_inter {
                trusted.push(chain[i].clone());
            }
            Scn { leaf: chain[0].clone(), presented, junk, trusted, name, now, nanos }
        })
}

// ---------------------------------------------------------------- reference validator

pub fn name_matches(pattern: &str, name: &str) -> bool {
    let (p, n) = (pattern.to_ascii_lowercase(), name.to_ascii_lowercase());
    match p.strip_prefix("*.") {
        Some(rest) => n.split_once('.').is_some_and(|(first, r)| !first.is_empty() && r == rest),
        None => p == n,
    }
}

pub fn in_subtree(name: &str, base: &str) -> bool {
    let (n, b) = (name.to_ascii_lowercase(), base.to_ascii_lowercase());
    n == b || n.ends_with(&format!(".{b}"))
}

pub fn strong(key: u8) -> bool {
    keys()[key as usize].kind != Kind::RsaSmall
}

/// Content checks for one certificate, independent of its issuer.
pub fn content_ok(c: &Cert, now: i64, issuer: bool, below: usize) -> bool {
    let (mut nb, mut na) = (c.nb, c.na);
    if c.tamper == Some(Tamper::Validity) {
        nb = (nb - 40 * 31_536_000).max(0);
        na += 40 * 31_536_000;
    }
    if now < nb || now > na || c.unknown == Some(true) {
        return false;
    }
    if c.eku.as_ref().is_some_and(|e| !e.contains(&1)) {
        return false;
    }
    match (issuer, &c.bc) {
        (false, Some((true, _))) => false,
        (false, _) => true,
        (true, Some((true, len))) => len.is_none_or(|l| below <= l as usize),
        (true, _) => false,
    }
}

pub fn dns(c: &Cert) -> Vec<&str> {
    c.sans.iter().filter_map(|s| if let San::Dns(d) = s { Some(d.as_str()) } else { None }).collect()
}

pub fn constraints_ok(ca: &Cert, leaf: &Cert) -> bool {
    let Some((permitted, excluded)) = &ca.nc else { return true };
    dns(leaf).iter().all(|d| (permitted.is_empty() || permitted.iter().any(|b| in_subtree(d, b))) && !excluded.iter().any(|b| in_subtree(d, b)))
}

pub fn path_exists<'a>(s: &'a Scn, path: &mut Vec<&'a Cert>) -> bool {
    let head = *path.last().unwrap();
    if !content_ok(head, s.now, path.len() > 1, path.len().saturating_sub(2)) || !head.intact() {
        return false;
    }
    if path.len() > 1 && !constraints_ok(head, path[0]) {
        return false;
    }
    for t in &s.trusted {
        if t.subject == head.issuer && t.carried_key() == head.signer && strong(head.signer) && constraints_ok(t, path[0]) {
            return true;
        }
    }
    for c in &s.presented {
        if c.subject != head.issuer || c.carried_key() != head.signer || !strong(head.signer) {
            continue;
        }
        if path.iter().any(|p| p.subject == c.subject && p.carried_key() == c.carried_key()) {
            continue;
        }
        path.push(c);
        if path_exists(s, path) {
            return true;
        }
        path.pop();
    }
    false
}

pub fn acceptable(s: &Scn) -> (bool, bool) {
    let chain = path_exists(s, &mut vec![&s.leaf]);
    let name = dns(&s.leaf).iter().any(|d| name_matches(d, &s.name));
    (chain, name)
}

pub fn der_cached(c: &Cert) -> Vec<u8> {
    c.der()
}

/// Trusted certificates with unknown critical extensions cannot be made into
/// trust anchors; the model has to know.
pub fn normalise(s: &Scn) -> Scn {
    let mut s = s.clone();
    s.trusted.retain(|c| {
        let der = der_cached(c);
        webpki::anchor_from_trusted_cert(&rustls_pki_types::CertificateDer::from(der.as_slice())).is_ok()
    });
    s
}
