//! C20 and C21: what the test and benchmark harness is configured to do.

use std::net::Ipv4Addr;

use harness_core::{bench::*, network::*, rpc::*, test::*, *};
use proptest::{collection::vec, option, prelude::*, sample::select};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use vpt::{catch, cases, check, check_eq, fail, law, CaseResult, Check, Cx};

/// The optional settings a group and an item share, in file form.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Opts {
    samples: Option<usize>,
    nums: [Option<usize>; 5],
    flags: [Option<bool>; 4],
}
const NUMS: [&str; 5] = ["protocol_latency", "app_latency", "bandwidth", "upload-size", "download-size"];
const FLAGS: [&str; 4] = ["defer-decryption", "memory-profile", "reveal-all", "proxy"];
const NUM_DEFAULTS: [usize; 5] = [50, 50, 1000, 1024, 4096];
const FLAG_DEFAULTS: [bool; 4] = [true, false, false, false];

impl Opts {
    fn fill(&self, m: &mut Map<String, Value>) {
        if let Some(s) = self.samples {
            m.insert("samples".into(), json!(s));
        }
        for (k, v) in NUMS.iter().zip(&self.nums) {
            if let Some(v) = v {
                m.insert(k.to_string(), json!(v));
            }
        }
        for (k, v) in FLAGS.iter().zip(&self.flags) {
            if let Some(v) = v {
                m.insert(k.to_string(), json!(v));
            }
        }
    }
}

fn opts(p: f64) -> impl Strategy<Value = Opts> + Clone {
    let n = || option::weighted(p, prop_oneof![select(vec![0usize, 1, 50, 1000, 1024, 4096]), any::<u32>().prop_map(|x| x as usize)]);
    let b = || option::weighted(p, any::<bool>());
    (option::weighted(p, 0usize..5), [n(), n(), n(), n(), n()], [b(), b(), b(), b()]).prop_map(|(samples, nums, flags)| Opts { samples, nums, flags })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Plan {
    groups: Vec<(String, Opts)>,
    items: Vec<(Option<String>, Option<String>, Opts)>,
    samples: usize,
    over: bool,
}

const GROUPS: [&str; 4] = ["latency", "bandwidth", "Proxy", ""];

fn plan() -> impl Strategy<Value = Plan> {
    let item = (
        option::weighted(0.7, prop_oneof![60 => select(GROUPS.map(String::from).to_vec()), 1 => Just("nowhere".to_string())]),
        option::weighted(0.8, select(vec!["a".to_string(), "b".into(), "A".into(), "a b".into(), "".into(), "zz".into()])),
        opts(0.4),
    );
    (prop_oneof![4 => proptest::sample::subsequence(GROUPS.map(String::from).to_vec(), 4), 1 => proptest::sample::subsequence(GROUPS.map(String::from).to_vec(), 0..=4)], vec(opts(0.5), 4), vec(item, 0..7), 0usize..5, any::<bool>())
        .prop_map(|(g, o, items, samples, over)| Plan { groups: g.into_iter().zip(o).collect(), items, samples, over })
}

/// Everything observable about a bench, in file form.
fn seen(b: &Bench) -> Value {
    json!([b.group, b.name, b.protocol_latency, b.app_latency, b.bandwidth, b.upload_size, b.download_size, b.defer_decryption, b.memory_profile, b.reveal_all, b.proxy])
}

fn check_plan(p: &Plan, cx: &mut Cx) -> CaseResult {
    let mut file = Map::new();
    let groups: Vec<Value> = p
        .groups
        .iter()
        .map(|(n, o)| {
            let mut m = Map::new();
            m.insert("name".into(), json!(n));
            o.fill(&mut m);
            Value::Object(m)
        })
        .collect();
    let items: Vec<Value> = p
        .items
        .iter()
        .map(|(g, n, o)| {
            let mut m = Map::new();
            if let Some(g) = g {
                m.insert("group".into(), json!(g));
            }
            if let Some(n) = n {
                m.insert("name".into(), json!(n));
            }
            o.fill(&mut m);
            Value::Object(m)
        })
        .collect();
    file.insert("group".into(), json!(groups));
    file.insert("bench".into(), json!(items));
    let parsed: BenchItems = serde_json::from_value(Value::Object(file)).map_err(|e| format!("plan refused: {e}"))?;
    let known = |g: &Option<String>| g.as_ref().is_none_or(|g| p.groups.iter().any(|(n, _)| n == g));
    let got = catch(|| parsed.to_benches(p.samples, p.over));
    cx.nontrivial(p.items.len() > 1);
    if !p.items.iter().all(|(g, _, _)| known(g)) {
        cx.label("undefined group");
        check!(got.is_err(), "a bench of an undefined group was run");
        return Ok(());
    }
    let got = got?;
    let mut want: Vec<((Option<String>, Option<String>), Value)> = vec![];
    for (g, n, o) in &p.items {
        let group = g.as_ref().and_then(|g| p.groups.iter().find(|(n, _)| n == g)).map(|x| &x.1);
        let count = if p.over { p.samples } else { o.samples.or(group.and_then(|g| g.samples)).unwrap_or(p.samples) };
        let num = |i: usize| o.nums[i].or(group.and_then(|g| g.nums[i])).unwrap_or(NUM_DEFAULTS[i]);
        let flag = |i: usize| o.flags[i].or(group.and_then(|g| g.flags[i])).unwrap_or(FLAG_DEFAULTS[i]);
        let v = json!([g, n, num(0), num(1), num(2), num(3), num(4), flag(0), flag(1), flag(2), flag(3)]);
        for _ in 0..count {
            want.push(((g.clone(), n.clone()), v.clone()));
        }
    }
    want.sort_by(|a, b| a.0.cmp(&b.0));
    cx.label_if(p.over, "samples overridden");
    check_eq!(got.iter().map(seen).collect::<Vec<_>>(), want.into_iter().map(|w| w.1).collect::<Vec<_>>(), "benches run for the plan");
    // The expansion is repeatable.
    check_eq!(got.iter().map(seen).collect::<Vec<_>>(), parsed.to_benches(p.samples, p.over).iter().map(seen).collect::<Vec<_>>(), "second expansion");
    for b in &got {
        let again: Bench = serde_json::from_value(serde_json::to_value(b).unwrap()).map_err(|e| format!("bench refused after storing: {e}"))?;
        check_eq!(seen(&again), seen(b), "stored bench");
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Meas {
    group: Option<String>,
    name: Option<String>,
    n: [u32; 5],
    f: [bool; 4],
    m: [u64; 9],
    heap: Option<usize>,
}

fn meas() -> impl Strategy<Value = Meas> {
    (option::of("[a-z]{0,6}"), option::of("[a-z]{0,6}"), any::<[u32; 5]>(), any::<[bool; 4]>(), any::<[u64; 9]>(), option::of(any::<u32>().prop_map(|x| x as usize)))
        .prop_map(|(group, name, n, f, m, heap)| Meas { group, name, n, f, m, heap })
}

fn check_meas(c: &Meas, cx: &mut Cx) -> CaseResult {
    cx.nontrivial(true);
    let bench = Bench {
        group: c.group.clone(),
        name: c.name.clone(),
        protocol_latency: c.n[0] as usize,
        app_latency: c.n[1] as usize,
        bandwidth: c.n[2] as usize,
        upload_size: c.n[3] as usize,
        download_size: c.n[4] as usize,
        defer_decryption: c.f[0],
        memory_profile: c.f[1],
        reveal_all: c.f[2],
        proxy: c.f[3],
    };
    let metrics = ProverMetrics {
        time_preprocess: c.m[0],
        time_online: c.m[1],
        time_total: c.m[2],
        uploaded_preprocess: c.m[3],
        downloaded_preprocess: c.m[4],
        uploaded_online: c.m[5],
        downloaded_online: c.m[6],
        uploaded_total: c.m[7],
        downloaded_total: c.m[8],
        heap_max_bytes: c.heap,
    };
    let m = Measurement::new(bench.clone(), metrics);
    let want = json!([c.group, c.name, c.n[0], c.n[2], c.n[3], c.n[4], c.f[0], c.f[3], c.m, c.heap]);
    let view = |m: &Measurement| {
        json!([
            m.group, m.name, m.latency, m.bandwidth, m.upload_size, m.download_size, m.defer_decryption, m.proxy,
            [m.time_preprocess, m.time_online, m.time_total, m.uploaded_preprocess, m.downloaded_preprocess, m.uploaded_online, m.downloaded_online, m.uploaded_total, m.downloaded_total],
            m.heap_max_bytes
        ])
    };
    check_eq!(view(&m), want, "measurement");
    let js = serde_json::to_value(&m).unwrap();
    check_eq!(view(&serde_json::from_value(js).map_err(|e| e.to_string())?), want, "stored measurement");
    let bin = bincode::serialize(&m).unwrap();
    check_eq!(view(&bincode::deserialize(&bin).map_err(|e| e.to_string())?), want, "measurement stored in binary");
    Ok(())
}

pub fn c20() -> Check {
    Check {
        id: "C20",
        rule: "A case is a benchmark plan (groups and items with any subset of settings, repeated names, undefined groups, sample counts and override), or a \
               bench with its metrics. Non-trivial: more than one item.",
        assumptions: &["Group names are distinct within a plan."],
        laws: vec![law("plan_expansion", cases(300_000), plan, check_plan), law("measurement", cases(100_000), meas, check_meas)],
    }
}

// ---------------------------------------------------------------- C21

fn subnet() -> impl Strategy<Value = (u32, u8)> {
    (any::<u32>(), prop_oneof![8 => 8u8..=28, 2 => 0u8..=7, 3 => 29u8..=32])
}

fn check_net(&(addr, len): &(u32, u8), cx: &mut Cx) -> CaseResult {
    let net = ipnet::Ipv4Net::new(Ipv4Addr::from(addr), len).unwrap();
    let mask = if len == 0 { 0 } else { u32::MAX << (32 - len) };
    let usable = match len {
        32 => 1u64,
        31 => 2,
        _ => (1u64 << (32 - len)) - 2,
    };
    cx.nontrivial(usable >= 10);
    let got = catch(|| NetworkConfig::new(net));
    if usable < 10 {
        cx.label("too small");
        check!(got.is_err(), "a subnet of {usable} hosts was accepted");
        return Ok(());
    }
    let c = got?;
    let again: NetworkConfig = serde_json::from_str(&serde_json::to_string(&c).unwrap()).map_err(|e| e.to_string())?;
    for c in [&c, &again] {
        check_eq!(c.subnet, net, "subnet");
        let addrs = [c.host, c.proto_proxy.0, c.app_proxy.0, c.rpc_0.0, c.rpc_1.0, c.proto_0.0, c.proto_1.0, c.app.0, c.app_0, c.app_1];
        for (i, a) in addrs.iter().enumerate() {
            let a = u32::from(*a);
            check!(a & mask == addr & mask, "address {i} outside of the subnet");
            if len < 31 {
                check!(a & !mask != 0 && a | mask != u32::MAX, "address {i} is the network or broadcast address");
            }
            for (j, b) in addrs[..i].iter().enumerate() {
                check!(a != u32::from(*b), "addresses {i} and {j} are the same");
            }
        }
        check_eq!([c.proto_proxy.1, c.app_proxy.1, c.rpc_0.1, c.rpc_1.1, c.proto_0.1, c.proto_1.1, c.app.1], [8000; 7], "ports");
        check_eq!((c.wasm.0.is_loopback(), c.wasm.1), (true, 8080), "address of the page server");
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Msg {
    GetTests,
    Test(String, bool),
    Bench(Meas, bool),
    OutEmpty,
    OutTests(Vec<String>),
    OutTest(u8, Option<String>),
    OutBench(Option<Meas>),
    Error(String),
    Config(bool, bool, (u32, u8)),
}

fn msg() -> impl Strategy<Value = Msg> {
    let s = || prop_oneof!["[a-zA-Z_:]{0,12}".boxed(), any::<String>().boxed()];
    prop_oneof![
        Just(Msg::GetTests),
        (s(), any::<bool>()).prop_map(|(a, b)| Msg::Test(a, b)),
        (meas(), any::<bool>()).prop_map(|(a, b)| Msg::Bench(a, b)),
        Just(Msg::OutEmpty),
        vec(s(), 0..5).prop_map(Msg::OutTests),
        (0u8..3, option::of(s())).prop_map(|(a, b)| Msg::OutTest(a, b)),
        option::of(meas()).prop_map(Msg::OutBench),
        s().prop_map(Msg::Error),
        (any::<bool>(), any::<bool>(), (any::<u32>(), 8u8..28)).prop_map(|(a, b, c)| Msg::Config(a, b, c)),
    ]
}

fn bench_of(c: &Meas) -> Bench {
    Bench {
        group: c.group.clone(),
        name: c.name.clone(),
        protocol_latency: c.n[0] as usize,
        app_latency: c.n[1] as usize,
        bandwidth: c.n[2] as usize,
        upload_size: c.n[3] as usize,
        download_size: c.n[4] as usize,
        defer_decryption: c.f[0],
        memory_profile: c.f[1],
        reveal_all: c.f[2],
        proxy: c.f[3],
    }
}

fn through<T: Serialize + for<'a> Deserialize<'a>>(t: &T) -> Result<[T; 2], vpt::Failure> {
    let a = serde_json::from_str(&serde_json::to_string(t).unwrap()).map_err(|e| format!("refused after storing: {e}"))?;
    let b = bincode::deserialize(&bincode::serialize(t).unwrap()).map_err(|e| format!("refused after storing in binary: {e}"))?;
    Ok([a, b])
}

fn role(prover: bool) -> Role {
    if prover {
        Role::Prover
    } else {
        Role::Verifier
    }
}
fn is_prover(r: &Role) -> bool {
    matches!(r, Role::Prover)
}

fn check_msg(m: &Msg, cx: &mut Cx) -> CaseResult {
    cx.nontrivial(true);
    match m {
        Msg::GetTests => {
            for c in through(&Cmd::GetTests)? {
                check!(matches!(c, Cmd::GetTests), "command changed");
            }
        }
        Msg::Test(n, p) => {
            for c in through(&Cmd::Test(TestCmd { name: n.clone(), role: role(*p) }))? {
                let Cmd::Test(t) = c else { fail!("command changed") };
                check_eq!((&t.name, is_prover(&t.role)), (n, *p), "test command");
            }
        }
        Msg::Bench(b, p) => {
            let want = bench_of(b);
            for c in through(&Cmd::Bench(BenchCmd { config: want.clone(), role: role(*p) }))? {
                let Cmd::Bench(t) = c else { fail!("command changed") };
                check_eq!((seen(&t.config), is_prover(&t.role)), (seen(&want), *p), "bench command");
            }
        }
        Msg::OutEmpty => {
            for o in through(&CmdOutput::Empty)? {
                check!(matches!(o, CmdOutput::Empty), "output changed");
                let e = RpcError::from(o.clone().try_into_test().err().ok_or("empty output taken for a test")?);
                check!(e.reason().contains("Test") && e.reason().contains("Empty"), "error does not name both kinds: {}", e.reason());
                let e = RpcError::from(o.try_into_get_tests().err().ok_or("empty output taken for a list")?);
                check!(e.reason().contains("GetTests") && e.reason().contains("Empty"), "error does not name both kinds: {}", e.reason());
            }
        }
        Msg::OutTests(l) => {
            for o in through(&CmdOutput::GetTests(l.clone()))? {
                check!(o.clone().try_into_bench().is_err() && o.clone().try_into_test().is_err(), "list taken for a result");
                check_eq!(&o.try_into_get_tests().map_err(|e| RpcError::from(e).reason().to_string())?, l, "list of tests");
            }
        }
        Msg::OutTest(k, r) => {
            let status = match k {
                0 => TestStatus::Passed,
                1 => TestStatus::Failed { reason: r.clone() },
                _ => TestStatus::TimedOut,
            };
            for o in through(&CmdOutput::Test(TestOutput { status }))? {
                let t = o.try_into_test().map_err(|e| RpcError::from(e).reason().to_string())?;
                check_eq!(t.status.is_passed(), *k == 0, "verdict");
                match (&t.status, k) {
                    (TestStatus::Passed, 0) | (TestStatus::TimedOut, 2) => {}
                    (TestStatus::Failed { reason }, 1) => check_eq!(reason, r, "reason"),
                    (s, _) => fail!("status became {s:?}"),
                }
            }
        }
        Msg::OutBench(b) => {
            let out = match b {
                None => BenchOutput::Verifier,
                Some(c) => BenchOutput::Prover {
                    metrics: ProverMetrics {
                        time_preprocess: c.m[0],
                        time_online: c.m[1],
                        time_total: c.m[2],
                        uploaded_preprocess: c.m[3],
                        downloaded_preprocess: c.m[4],
                        uploaded_online: c.m[5],
                        downloaded_online: c.m[6],
                        uploaded_total: c.m[7],
                        downloaded_total: c.m[8],
                        heap_max_bytes: c.heap,
                    },
                },
            };
            for o in through(&CmdOutput::Bench(out.clone()))? {
                let t = o.try_into_bench().map_err(|e| RpcError::from(e).reason().to_string())?;
                check_eq!(serde_json::to_value(&t).unwrap(), serde_json::to_value(&out).unwrap(), "bench output");
                check_eq!(matches!(t, BenchOutput::Verifier), b.is_none(), "kind of bench output");
            }
        }
        Msg::Error(s) => {
            for e in through(&RpcError::new(s))? {
                check_eq!(e.reason(), s, "reason");
                check_eq!(e.to_string(), format!("rpc error: {s}"), "text of the error");
            }
        }
        Msg::Config(id, mode, (a, l)) => {
            let net = NetworkConfig::new(ipnet::Ipv4Net::new(Ipv4Addr::from(*a), *l).unwrap());
            let c = ExecutorConfig::builder()
                .id(if *id { Id::One } else { Id::Zero })
                .io_mode(if *mode { IoMode::Server } else { IoMode::Client })
                .network_config(net.clone())
                .build();
            for c in through(&c)? {
                check_eq!(matches!(c.id(), Id::One), *id, "id");
                check_eq!(*c.io_mode() == IoMode::Server, *mode, "mode");
                check_eq!(serde_json::to_value(c.network()).unwrap(), serde_json::to_value(&net).unwrap(), "network");
            }
        }
    }
    Ok(())
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        rule: "A case is a subnet of any size, a harness command or its output, an executor configuration, or a mode name. Non-trivial: a subnet large enough; \
               every other case.",
        assumptions: &["Stored forms exercised: JSON and bincode."],
        laws: vec![
            law("address_plan", cases(200_000), subnet, check_net),
            law("commands_and_outputs", cases(200_000), msg, check_msg),
            law(
                "mode_names",
                cases(100_000),
                || prop_oneof![select(vec!["client", "server", "CLIENT", "Server", "sErVeR", " client", "client ", "clients", "serve", "", "clıent"]).prop_map(String::from), "[cCsSlLiIeErRnNtTvV]{5,7}", any::<String>()],
                |s: &String, cx| {
                    cx.nontrivial(!s.is_empty());
                    let want = if s.eq_ignore_ascii_case("client") {
                        Some(IoMode::Client)
                    } else if s.eq_ignore_ascii_case("server") {
                        Some(IoMode::Server)
                    } else {
                        None
                    };
                    let got = IoMode::try_from(s.as_str()).ok();
                    check_eq!(got, want, "mode named {s:?}");
                    if let Some(m) = got {
                        check_eq!(m.to_string(), s.to_ascii_lowercase(), "name of the mode");
                        check_eq!(IoMode::try_from(m.to_string().as_str()).ok(), Some(m), "name read back");
                    }
                    Ok(())
                },
            ),
        ],
    }
}
