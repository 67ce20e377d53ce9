//! C39: configurations that the parties exchange.

use crate::{names::*, util::*};
use proptest::prelude::*;
use rangeset::set::RangeSet;
use serde::{Deserialize, Serialize};
use serde_json::json;
use tlsn_core::{
    config::{
        prove::{ProveConfig, ProveConfigBuilder, ProveRequest},
        prover::ProverConfig,
        tls::TlsClientConfig,
        tls_commit::{
            mpc::{MpcTlsConfig, NetworkSetting},
            proxy::ProxyTlsConfig,
            TlsCommitConfig,
        },
        verifier::VerifierConfig,
    },
    connection::{DnsName, ServerName},
    transcript::{Transcript, TranscriptCommitConfig, TranscriptCommitmentKind},
    webpki::{CertificateDer, PrivateKeyDer, RootCertStore},
};
use vpt::{cases, catch, check, check_eq, gen::*, law, CaseResult, Check, Cx};

// ---------------------------------------------------------------- proving

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Identity,
    Reveal { how: u8, dir: bool, idx: Picks, past: u8 },
    All(bool),
    Commit(Vec<(bool, Picks, u8)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prove {
    lens: Lens,
    steps: Vec<Step>,
}

fn proves() -> impl Strategy<Value = Prove> {
    let step = prop_oneof![
        1 => Just(Step::Identity),
        8 => (0u8..2, any::<bool>(), picks(3), prop_oneof![6 => Just(0u8), 1 => 1u8..4]).prop_map(|(how, dir, idx, past)| Step::Reveal { how, dir, idx, past }),
        1 => any::<bool>().prop_map(Step::All),
        2 => proptest::collection::vec((any::<bool>(), picks(2), any::<u8>()), 0..4).prop_map(Step::Commit),
    ];
    (lens(), many(step, 0..7, 30)).prop_map(|(lens, steps)| Prove { lens, steps })
}

fn prove(c: &Prove, cx: &mut Cx) -> CaseResult {
    let (s, r) = c.lens.data();
    let t = Transcript::new(s.clone(), r.clone());
    let n = [s.len(), r.len()];
    let mut b = if c.lens.tag % 2 == 0 { ProveConfig::builder(&t) } else { ProveConfigBuilder::new(&t) };
    let mut identity = false;
    let mut asked = false;
    let mut want = [vec![false; n[0]], vec![false; n[1]]];
    let mut commit: Option<Vec<u8>> = None;
    let mut request: Option<Vec<u8>> = None;
    for st in &c.steps {
        match st {
            Step::Identity => {
                identity = true;
                b.server_identity();
            }
            Step::Reveal { how, dir: d, idx, past } => {
                let k = *d as usize;
                let mut v: Vec<_> = within(idx, n[k]).iter().collect();
                if *past > 0 {
                    v.push(n[k]..n[k] + *past as usize);
                }
                let set = RangeSet::from(v);
                let got = match (how, d) {
                    (0, _) => b.reveal(dir(*d), &set).map(|_| ()),
                    (_, false) => b.reveal_sent(&set).map(|_| ()),
                    (_, true) => b.reveal_recv(&set).map(|_| ()),
                };
                check_eq!(got.is_ok(), *past == 0, "reveal {set:?} of {} bytes", n[k]);
                if *past == 0 {
                    asked = true;
                    or(&mut want[k], &mask(&set, n[k]));
                } else {
                    cx.label("out of bounds");
                }
            }
            Step::All(d) => {
                if *d { b.reveal_recv_all() } else { b.reveal_sent_all() }.map_err(|e| e.to_string())?;
                asked = true;
                want[*d as usize].fill(true);
            }
            Step::Commit(list) => {
                let mut cb = TranscriptCommitConfig::builder(&t);
                for (d, p, a) in list {
                    cb.commit_with_kind(&within(p, n[*d as usize]), dir(*d), TranscriptCommitmentKind::Hash { alg: alg(*a) }).map_err(|e| e.to_string())?;
                }
                let cc = cb.build().map_err(|e| e.to_string())?;
                request = Some(enc(&cc.to_request()));
                commit = Some(enc(&cc));
                b.transcript_commit(cc);
            }
        }
    }
    cx.nontrivial(asked && c.steps.len() > 1);
    let cfg = b.build().map_err(|e| e.to_string())?;
    let cfg2: ProveConfig = dec(&enc(&cfg))?;
    for cfg in [cfg, cfg2] {
        let req = cfg.to_request();
        let req2: ProveRequest = dec(&enc(&req))?;
        check_eq!(cfg.server_identity(), identity);
        check_eq!(cfg.reveal().is_some(), asked, "whether anything is revealed");
        let sets = asked.then(|| (set_of(&want[0]), set_of(&want[1])));
        check_eq!(cfg.reveal().cloned(), sets, "ranges revealed");
        check_eq!(cfg.transcript_commit().map(enc), commit, "commitments configured");
        for r in [req, req2] {
            check_eq!(r.server_identity(), identity, "request");
            check_eq!(r.reveal().cloned(), sets, "ranges in the request");
            check_eq!(r.transcript_commit().map(enc), request, "commitments in the request");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- TLS commitment

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mpc {
    sent: Option<u64>,
    sent_records: Option<u64>,
    online: Option<u64>,
    recv: Option<u64>,
    recv_records: Option<u64>,
    defer: Option<bool>,
    bandwidth: Option<bool>,
    drop: Option<u8>,
}

fn size() -> impl Strategy<Value = u64> + Clone {
    prop_oneof![4 => 0u64..70, 2 => 30u64..35, 2 => 0u64..1 << 20, 1 => any::<u64>(), 1 => Just(u64::MAX)]
}

fn mpcs() -> impl Strategy<Value = Mpc> {
    let o = || proptest::option::weighted(0.6, size());
    let most = || proptest::option::weighted(0.9, size());
    (most(), o(), o(), most(), o(), any::<Option<bool>>(), any::<Option<bool>>(), proptest::option::weighted(0.2, 0u8..7)).prop_map(
        |(sent, sent_records, online, recv, recv_records, defer, bandwidth, drop)| Mpc { sent, sent_records, online, recv, recv_records, defer, bandwidth, drop },
    )
}

type View = (u64, Option<u64>, u64, u64, Option<u64>, bool, bool);

fn view(c: &MpcTlsConfig) -> View {
    (
        c.max_sent_data() as u64,
        c.max_sent_records().map(|x| x as u64),
        c.max_recv_data_online() as u64,
        c.max_recv_data() as u64,
        c.max_recv_records_online().map(|x| x as u64),
        c.defer_decryption_from_start(),
        matches!(c.network(), NetworkSetting::Bandwidth),
    )
}

fn mpc(c: &Mpc, cx: &mut Cx) -> CaseResult {
    let mut b = MpcTlsConfig::builder();
    if let Some(x) = c.sent {
        b = b.max_sent_data(x as usize);
    }
    if let Some(x) = c.sent_records {
        b = b.max_sent_records(x as usize);
    }
    if let Some(x) = c.online {
        b = b.max_recv_data_online(x as usize);
    }
    if let Some(x) = c.recv {
        b = b.max_recv_data(x as usize);
    }
    if let Some(x) = c.recv_records {
        b = b.max_recv_records_online(x as usize);
    }
    if let Some(x) = c.defer {
        b = b.defer_decryption_from_start(x);
    }
    if let Some(x) = c.bandwidth {
        b = b.network(if x { NetworkSetting::Bandwidth } else { NetworkSetting::Latency });
    }
    let online = c.online.unwrap_or(32);
    let want: Option<View> = match (c.sent, c.recv) {
        (Some(s), Some(r)) if online <= r => Some((s, c.sent_records, online, r, c.recv_records, c.defer.unwrap_or(true), c.bandwidth.unwrap_or(false))),
        _ => None,
    };
    cx.nontrivial(c.sent.is_some() && c.recv.is_some());
    cx.label(if want.is_some() { "valid" } else { "not valid" });
    let got = b.build();
    check_eq!(got.as_ref().ok().map(view), want, "{:?}", got.as_ref().err().map(|e| e.to_string()));
    // What a peer sends is held to the same rules.
    let net = if c.bandwidth.unwrap_or(false) { "Bandwidth" } else { "Latency" };
    let (s, r) = (c.sent.unwrap_or(9), c.recv.unwrap_or(31));
    let fields = json!({
        "max_sent_data": s, "max_sent_records": c.sent_records, "max_recv_data_online": online, "max_recv_data": r,
        "max_recv_records_online": c.recv_records, "defer_decryption_from_start": c.defer.unwrap_or(true), "network": net,
    });
    let read = serde_json::from_value::<MpcTlsConfig>(fields.clone());
    let sent = (online <= r).then(|| (s, c.sent_records, online, r, c.recv_records, c.defer.unwrap_or(true), c.bandwidth.unwrap_or(false)));
    check_eq!(read.as_ref().ok().map(view), sent, "read from a peer: {:?}", read.as_ref().err().map(|e| e.to_string()));
    // A peer that leaves a required field out is refused.
    if let Some(d) = c.drop {
        let name = ["max_sent_data", "max_recv_data_online", "max_recv_data", "defer_decryption_from_start", "network", "max_recv_data", "max_sent_data"][d as usize];
        let mut f = fields;
        f.as_object_mut().unwrap().remove(name);
        check!(serde_json::from_value::<MpcTlsConfig>(f).is_err(), "accepted without {name}");
    }
    let raw =
    {
        #[derive(Serialize)]
        enum Net {
            Bandwidth,
            Latency,
        }
        #[derive(Serialize)]
        enum Kind {
            Mpc(u64, Option<u64>, u64, u64, Option<u64>, bool, Net),
        }
        enc(&Kind::Mpc(s, c.sent_records, online, r, c.recv_records, c.defer.unwrap_or(true), if c.bandwidth.unwrap_or(false) { Net::Bandwidth } else { Net::Latency }))
    };
    let bin = dec::<TlsCommitConfig>(&raw);
    check_eq!(bin.is_ok(), sent.is_some(), "binary form from a peer");
    if let Ok(k) = bin {
        let TlsCommitConfig::Mpc(m) = &k else { return Err("protocol changed".to_string().into()) };
        check_eq!(Some(view(m)), sent);
        check_eq!(enc(&k), raw);
    }
    if let Ok(m) = got {
        let back: MpcTlsConfig = serde_json::from_str(&serde_json::to_string(&m).unwrap()).map_err(|e| e.to_string())?;
        check_eq!(view(&back), view(&m));
        let k: TlsCommitConfig = dec(&enc(&TlsCommitConfig::from(m.clone())))?;
        let TlsCommitConfig::Mpc(back) = k else { return Err("protocol changed".to_string().into()) };
        check_eq!(view(&back), view(&m));
    }
    Ok(())
}

// ---------------------------------------------------------------- the rest

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tls {
    name: Option<String>,
    roots: Option<Vec<Bytes>>,
    auth: Option<(Vec<Bytes>, Bytes)>,
    twice: bool,
}

fn tls(c: &Tls, cx: &mut Cx) -> CaseResult {
    let legal = c.name.as_ref().is_none_or(|n| legal_dns(n.as_bytes()));
    let name = match (&c.name, legal) {
        (Some(n), true) => Some(DnsName::try_from(n.as_str()).map_err(|e| e.to_string())?),
        _ => None,
    };
    let store = |v: &[Bytes]| RootCertStore { roots: v.iter().map(|b| CertificateDer(b.0.clone())).collect() };
    let list = |s: &RootCertStore| s.roots.iter().map(|c| Bytes(c.0.clone())).collect::<Vec<_>>();
    let mut b = TlsClientConfig::builder();
    let mut p = ProxyTlsConfig::builder();
    let mut v = VerifierConfig::builder();
    if let Some(n) = &name {
        if c.twice {
            // The last value counts.
            b = b.server_name(ServerName::Dns(DnsName::try_from("first.test").unwrap()));
            p = p.server_name(DnsName::try_from("first.test").unwrap());
        }
        b = b.server_name(ServerName::Dns(n.clone()));
        p = p.server_name(n.clone());
    }
    if let Some(r) = &c.roots {
        if c.twice {
            b = b.root_store(store(&[Bytes(vec![1])]));
            v = v.root_store(store(&[Bytes(vec![1])]));
        }
        b = b.root_store(store(r));
        v = v.root_store(store(r));
    }
    if let Some((certs, key)) = &c.auth {
        b = b.client_auth((certs.iter().map(|x| CertificateDer(x.0.clone())).collect(), PrivateKeyDer(key.0.clone())));
    }
    cx.nontrivial(name.is_some() && c.roots.is_some());
    let got = b.build();
    check_eq!(got.is_ok(), name.is_some() && c.roots.is_some(), "client configuration");
    if let Ok(cfg) = got {
        let back: TlsClientConfig = dec(&enc(&cfg))?;
        for cfg in [cfg, back] {
            check_eq!(*cfg.server_name(), ServerName::Dns(name.clone().unwrap()));
            check_eq!(Some(list(cfg.root_store())), c.roots);
            check_eq!(cfg.client_auth().map(|(x, k)| (x.iter().map(|c| Bytes(c.0.clone())).collect::<Vec<_>>(), Bytes(k.0.clone()))), c.auth);
        }
    }
    let got = v.build();
    check_eq!(got.is_ok(), c.roots.is_some(), "verifier configuration");
    if let Ok(cfg) = got {
        let back: VerifierConfig = dec(&enc(&cfg))?;
        check_eq!(Some(list(cfg.root_store())), c.roots);
        check_eq!(Some(list(back.root_store())), c.roots);
    }
    let got = p.build();
    check_eq!(got.is_ok(), name.is_some(), "proxy configuration");
    if let Ok(cfg) = got {
        let back: TlsCommitConfig = dec(&enc(&TlsCommitConfig::from(cfg.clone())))?;
        let TlsCommitConfig::Proxy(back) = back else { return Err("protocol changed".to_string().into()) };
        check_eq!(Some(cfg.server_name()), name.as_ref());
        check_eq!(back.server_name(), cfg.server_name());
    }
    // A peer cannot name an impossible server.
    if let Some(n) = &c.name {
        let r = catch(|| serde_json::from_value::<TlsCommitConfig>(json!({"Proxy": {"server_name": n}})).is_ok()).map_err(|e| format!("panic: {e}"))?;
        check_eq!(r, legal, "server name {n:?} from a peer");
    }
    check!(ProverConfig::builder().build().is_ok());
    Ok(())
}

pub fn c39() -> Check {
    Check {
        id: "C39",
        rule: "proving configurations of more than one step that reveal something; TLS configurations with the required fields",
        assumptions: &[],
        laws: vec![
            law("prove", cases(450_000), proves, prove),
            law("mpc", cases(600_000), mpcs, mpc),
            law(
                "tls",
                cases(300_000),
                || {
                    let list = || proptest::collection::vec(bytes(0..10), 0..3);
                    (proptest::option::weighted(0.85, name_string()), proptest::option::weighted(0.85, list()), proptest::option::weighted(0.4, (list(), bytes(0..20))), any::<bool>())
                        .prop_map(|(name, roots, auth, twice)| Tls { name, roots, auth, twice })
                },
                tls,
            ),
        ],
    }
}
