//! The benchmark network.
use crate::{
    kernel::{Kernel, Link, Ns},
    network::Network,
};
use harness_core::network::*;
use ipnet::Ipv4Net;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, net::Ipv4Addr, rc::Rc};
use vpt::{CaseResult, Check, Cx, Failure, cases, check, check_eq, fail, law};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Foreign {
    Space(u8),
    Bridge(u8, u32),
    Veth(u8, Option<u8>),
    Rule(u8),
    Shaped(u8, u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Past {
    /// Ended after so many commands.
    Create(u8, Option<u8>),
    Delete(u8, Option<u8>),
    Shape(u8, bool, u16, u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    foreign: Vec<Foreign>,
    past: Vec<Past>,
    subnets: Vec<(u32, u8)>,
    /// The command that fails for no reason of its own.
    fail: Option<u8>,
    shapes: Vec<(bool, u16, u16)>,
    again: bool,
}
fn case() -> impl Strategy<Value = Case> + Clone {
    let foreign = prop_oneof![
        any::<u8>().prop_map(Foreign::Space),
        (any::<u8>(), any::<u32>()).prop_map(|(n, a)| Foreign::Bridge(n, a)),
        (any::<u8>(), any::<Option<u8>>()).prop_map(|(n, s)| Foreign::Veth(n, s)),
        any::<u8>().prop_map(Foreign::Rule),
        (any::<u8>(), any::<u16>()).prop_map(|(n, r)| Foreign::Shaped(n, r)),
    ];
    let stop = || prop::option::weighted(0.8, 0u8..110);
    let num = || prop_oneof![2 => Just(0u16), 6 => 1u16..400, 1 => any::<u16>()];
    let past = prop_oneof![
        4 => (0u8..3, stop()).prop_map(|(s, n)| Past::Create(s, n)),
        2 => (0u8..3, prop::option::of(0u8..20)).prop_map(|(s, n)| Past::Delete(s, n)),
        1 => (0u8..3, any::<bool>(), num(), num()).prop_map(|(s, p, b, d)| Past::Shape(s, p, b, d)),
    ];
    (
        prop::collection::vec(foreign, 0..5),
        prop::collection::vec(past, 0..4),
        prop::collection::vec((any::<u32>(), 8u8..28), 3),
        prop::option::weighted(0.25, 0u8..110),
        prop::collection::vec((any::<bool>(), num(), num()), 0..6),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(foreign, past, subnets, fail, shapes, again)| Case { foreign, past, subnets, fail, shapes, again })
}
fn subnet(s: (u32, u8)) -> Ipv4Net {
    Ipv4Net::new(Ipv4Addr::from(s.0), s.1).unwrap().trunc()
}

struct World(Rc<RefCell<Kernel>>);
impl World {
    /// Runs something with the kernel behind its commands. After `stop` commands
    /// nothing happens any more; command `fail` alone does not happen.
    fn with<T>(&self, stop: Option<u8>, fail: Option<u8>, f: impl FnOnce() -> T) -> Result<T, Failure> {
        let k = self.0.clone();
        let n = Rc::new(RefCell::new(0usize));
        let m = n.clone();
        duct::commands_to(Some(Box::new(move |c| {
            let i = *m.borrow();
            *m.borrow_mut() += 1;
            if i > 4000 {
                panic!("endless commands");
            }
            if stop.is_some_and(|s| i >= s as usize) || fail == Some(i.min(255) as u8) {
                return (1, String::new(), "sudo: not now\n".into());
            }
            k.borrow_mut().run(c)
        })));
        let r = vpt::catch(f);
        duct::commands_to(None);
        r.map_err(|e| Failure::from(format!("panic: {e}")))
    }
    fn unknown(&self) -> bool {
        self.0.borrow().unknown.is_some()
    }
    fn run(&self, c: &[&str]) {
        self.0.borrow_mut().run(&c.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    }
}
fn ours(k: &Kernel, l: &Link) -> bool {
    l.name.starts_with("tlsn-") || l.ns.as_deref().is_some_and(|n| [NS_0, NS_1, NS_APP].contains(&n)) || l.master.and_then(|m| k.by_id(m)).is_some_and(|b| b.name == BRIDGE)
}
/// What is not the harness's.
fn foreign(k: &Kernel) -> String {
    let is_ours = |n: &Ns| n.as_deref().is_some_and(|n| [NS_0, NS_1, NS_APP].contains(&n));
    let spaces: Vec<_> = k.spaces.iter().filter(|s| !is_ours(&Some(s.to_string()))).collect();
    let links: Vec<_> = k.links.iter().filter(|l| !ours(k, l)).collect();
    let ids: Vec<_> = links.iter().map(|l| l.id).collect();
    let routes: Vec<_> = k.routes.iter().filter(|r| ids.contains(&r.dev)).collect();
    let rules: Vec<_> = k
        .rules
        .iter()
        .filter(|(c, _)| !is_ours(&c.0))
        .map(|(c, r)| (c, r.iter().filter(|r| !r.iter().any(|w| w == BRIDGE)).collect::<Vec<_>>()))
        .filter(|(_, r)| !r.is_empty())
        .collect();
    let sysctl: Vec<_> = k.sysctl.iter().filter(|(c, _)| !is_ours(&c.0)).collect();
    format!("{spaces:?} {links:?} {routes:?} {rules:?} {sysctl:?}")
}
fn ns(n: &str) -> Ns {
    Some(n.into())
}
type Addr = Ipv4Addr;
/// The link with an address, in its place and connected.
fn at<'a>(k: &'a Kernel, n: Ns, a: Addr, len: u8, what: &str) -> Result<&'a Link, Failure> {
    let with: Vec<&Link> = k.links.iter().filter(|l| l.addrs.iter().any(|x| x.0 == a) && ours(k, l)).collect();
    check_eq!(with.len(), 1, "links with the address of {what}");
    let l = with[0];
    check_eq!(l.ns, n, "namespace of {what}");
    check_eq!(l.addrs, vec![(a, len)], "addresses of {what}");
    check!(l.up, "{what} is down");
    Ok(l)
}
fn plugged(k: &Kernel, l: &Link, bridge: usize, what: &str) -> CaseResult {
    let Some(p) = l.peer.and_then(|p| k.by_id(p)) else { fail!("{what} is not connected") };
    check_eq!(p.ns, None, "other end of {what}");
    check!(p.up, "the other end of {what} is down");
    check_eq!(p.master, Some(bridge), "bridge of {what}");
    Ok(())
}
struct Net {
    proto: Vec<usize>,
    app: Vec<usize>,
}
fn judge(k: &Kernel, c: &NetworkConfig) -> Result<Net, Failure> {
    let len = c.subnet.prefix_len();
    for n in [NS_0, NS_1, NS_APP] {
        check!(k.spaces.contains(n), "no namespace {n}");
    }
    let b = at(k, None, c.host, len, "the host")?;
    check!(b.bridge, "the host's address is not on a bridge");
    let b = b.id;
    let mut ids = vec![];
    for (n, a, what) in [
        (ns(NS_0), c.rpc_0.0, "rpc 0"),
        (ns(NS_1), c.rpc_1.0, "rpc 1"),
        (ns(NS_0), c.proto_0.0, "protocol 0"),
        (ns(NS_1), c.proto_1.0, "protocol 1"),
        (None, c.proto_proxy.0, "the protocol proxy"),
        (None, c.app_proxy.0, "the app proxy"),
        (ns(NS_APP), c.app.0, "the app"),
    ] {
        let l = at(k, n, a, len, what)?;
        plugged(k, l, b, what)?;
        check!(!ids.contains(&l.id), "{what} shares an interface");
        ids.push(l.id);
    }
    let [rpc_0, rpc_1, proto_0, proto_1, _, _, app] = ids[..] else { unreachable!() };
    let world = Addr::new(198, 51, 100, 1);
    let way = |n: &str, to: Addr, what: &str| -> Result<usize, Failure> {
        match k.out(&ns(n), to) {
            Some(l) => Ok(l.id),
            None => fail!("no way from {n} to {what}"),
        }
    };
    let mut apps = vec![app];
    for (n, rpc, proto, other) in [(NS_0, rpc_0, proto_0, c.proto_1.0), (NS_1, rpc_1, proto_1, c.proto_0.0)] {
        check_eq!(way(n, other, "the other party")?, proto, "way of the protocol from {n}");
        check_eq!(way(n, c.proto_proxy.0, "the protocol proxy")?, proto, "way to the protocol proxy from {n}");
        let a = way(n, c.app.0, "the app")?;
        check!(a != rpc && a != proto, "app traffic of {n} takes another way");
        let l = k.by_id(a).unwrap();
        plugged(k, l, b, &format!("the app interface of {n}"))?;
        check_eq!(way(n, c.app_proxy.0, "the app proxy")?, a, "way to the app proxy from {n}");
        if !c.subnet.contains(&world) {
            check_eq!(way(n, world, "the world")?, rpc, "way out of {n}");
        }
        apps.push(a);
    }
    for a in [c.rpc_0.0, c.proto_0.0, c.proto_1.0, world] {
        check_eq!(way(NS_APP, a, "others")?, app, "way of the app");
    }
    // The browser of party 0.
    check!(k.lo.contains(&ns(NS_0)), "no loopback in {NS_0}");
    check_eq!(k.sysctl.get(&(ns(NS_0), "net.ipv4.conf.all.route_localnet".into())).map(|s| s.as_str()), Some("1"));
    let nat = k.rules.get(&(ns(NS_0), "nat".into(), "PREROUTING".into())).cloned().unwrap_or_default();
    let value = |r: &[String], k: &str| r.windows(2).find(|w| w[0] == k).map(|w| w[1].clone());
    let port = PORT_BROWSER.to_string();
    let rules: Vec<_> = nat.iter().filter(|r| value(r, "--dport").as_ref() == Some(&port) && value(r, "-d") == Some(c.rpc_0.0.to_string())).collect();
    check!(!rules.is_empty(), "the browser's port is not forwarded");
    for r in rules {
        check_eq!(value(r, "--to-destination"), Some(format!("127.0.0.1:{PORT_BROWSER}")), "where the browser's port is forwarded to");
        check_eq!([value(r, "-j"), value(r, "-p")], [Some("DNAT".to_string()), Some("tcp".into())]);
    }
    let fw = k.rules.get(&(None, "filter".into(), "FORWARD".into())).cloned().unwrap_or_default();
    let allowed = fw.iter().position(|r| value(r, "-i").as_deref() == Some(BRIDGE) && value(r, "-o").as_deref() == Some(BRIDGE) && value(r, "-j").as_deref() == Some("ACCEPT"));
    let Some(allowed) = allowed else { fail!("traffic over the bridge is not forwarded") };
    // Before anything that could refuse it.
    check!(fw[..allowed].iter().all(|r| r.iter().any(|w| w == BRIDGE)), "other rules come first");
    Ok(Net { proto: vec![proto_0, proto_1], app: apps })
}
fn shaped(k: &Kernel, net: &Net, proto: Option<(u16, u16)>, app: Option<(u16, u16)>) -> CaseResult {
    let number = |s: Option<String>, units: &[(&str, u64)]| -> Result<u64, Failure> {
        let Some(s) = s else { return Ok(0) };
        let (n, u) = s.split_at(s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len()));
        let n: u64 = n.parse().map_err(|_| Failure::from(format!("amount {s}")))?;
        match units.iter().find(|x| x.0 == u) {
            Some(x) => Ok(n * x.1),
            None => fail!("unit of {s}"),
        }
    };
    for l in k.links.iter().filter(|l| ours(k, l)) {
        let (rate, delay) = Kernel::shape(l);
        let got = (number(rate, &[("bit", 1), ("kbit", 1000), ("mbit", 1_000_000), ("gbit", 1_000_000_000)])?, number(delay, &[("us", 1), ("ms", 1000), ("s", 1_000_000)])?);
        let want = if net.proto.contains(&l.id) {
            proto
        } else if net.app.contains(&l.id) {
            app
        } else {
            None
        };
        let want = want.unwrap_or((0, 0));
        check_eq!(got, (want.0 as u64 * 1_000_000, want.1 as u64 * 1000), "rate in bit/s and delay in us of {}", l.name);
    }
    Ok(())
}
fn run(c: &Case, cx: &mut Cx) -> CaseResult {
    let w = World(Rc::new(RefCell::new(Kernel::default())));
    for f in &c.foreign {
        match f {
            Foreign::Space(n) => w.run(&["ip", "netns", "add", &format!("other{n}")]),
            Foreign::Bridge(n, a) => {
                w.run(&["ip", "link", "add", &format!("br{n}"), "type", "bridge"]);
                w.run(&["ip", "addr", "add", &format!("{}/24", Addr::from(*a)), "dev", &format!("br{n}")]);
                w.run(&["ip", "link", "set", &format!("br{n}"), "up"]);
            }
            Foreign::Veth(n, s) => {
                w.run(&["ip", "link", "add", &format!("veth{n}a"), "type", "veth", "peer", "name", &format!("veth{n}b")]);
                if let Some(s) = s {
                    w.run(&["ip", "link", "set", &format!("veth{n}a"), "netns", &format!("other{s}")]);
                }
            }
            Foreign::Rule(n) => w.run(&["iptables", "-A", "FORWARD", "-s", &format!("10.0.0.{n}"), "-j", "DROP"]),
            Foreign::Shaped(n, r) => w.run(&["tc", "qdisc", "add", "dev", &format!("br{n}"), "root", "netem", "delay", &format!("{r}ms")]),
        }
    }
    let before = foreign(&w.0.borrow());
    let clean = w.0.borrow().clone();
    let net = |i: u8| -> Result<Network, Failure> { Network::new(NetworkConfig::new(subnet(c.subnets[i as usize % c.subnets.len()]))).map_err(|e| Failure::from(format!("no network: {e}"))) };
    let same = |w: &World, when: &str| -> CaseResult {
        let now = foreign(&w.0.borrow());
        check!(now == before, "{when} changes what is not the harness's: {before} becomes {now}");
        Ok(())
    };
    let mut clear = true;
    for p in &c.past {
        let i = match p {
            Past::Create(i, _) | Past::Delete(i, _) | Past::Shape(i, ..) => *i,
        };
        let mut n = net(i)?;
        match p {
            Past::Create(_, stop) => drop(w.with(*stop, None, || n.create())?),
            Past::Delete(_, stop) => drop(w.with(*stop, None, || n.delete())?),
            Past::Shape(_, proto, b, d) => drop(w.with(None, None, || if *proto { n.set_proto_config(*b as usize, *d as usize) } else { n.set_app_config(*b as usize, *d as usize) })?),
        }
        if w.unknown() {
            cx.label("a command not known here");
            return Ok(());
        }
        same(&w, "a past run")?;
        clear = false;
    }
    cx.label_if(!clear, "leftovers");
    cx.nontrivial(!clear || !c.shapes.is_empty());
    let mut n = net(0)?;
    let cfg = NetworkConfig::new(subnet(c.subnets[0]));
    check_eq!([n.ns_0().name(), n.ns_1().name(), n.ns_app().name()], [NS_0, NS_1, NS_APP], "names of the namespaces");
    // What the kernel holds is all there is: the same value may be used again.
    let mut made = w.with(None, c.fail, || n.create())?;
    if w.unknown() {
        cx.label("a command not known here");
        return Ok(());
    }
    if c.fail.is_some() && made.is_err() {
        cx.label("a command failed");
        made = w.with(None, None, || n.create())?;
        clear = false;
    } else if c.fail.is_some() {
        clear = false;
    }
    for _ in 0..1 + c.again as u8 {
        if let Err(e) = made {
            fail!("the network cannot be made: {e}");
        }
        same(&w, "making the network")?;
        let (mut proto, mut app) = (None, None);
        let topo = judge(&w.0.borrow(), &cfg)?;
        shaped(&w.0.borrow(), &topo, proto, app)?;
        for (p, b, d) in &c.shapes {
            let r = w.with(None, None, || if *p { n.set_proto_config(*b as usize, *d as usize) } else { n.set_app_config(*b as usize, *d as usize) })?;
            if w.unknown() {
                cx.label("a command not known here");
                return Ok(());
            }
            if let Err(e) = r {
                fail!("{b} Mbit/s and {d} ms cannot be set: {e}");
            }
            *if *p { &mut proto } else { &mut app } = Some((*b, *d));
            let k = w.0.borrow();
            judge(&k, &cfg)?;
            shaped(&k, &topo, proto, app)?;
        }
        same(&w, "shaping")?;
        made = if c.again {
            clear = false;
            w.with(None, None, || n.create())?
        } else {
            Ok(())
        };
    }
    if let Err(e) = w.with(None, None, || n.delete())? {
        fail!("the network cannot be deleted: {e}");
    }
    same(&w, "deleting the network")?;
    let k = w.0.borrow();
    if let Some(l) = k.links.iter().find(|l| ours(&k, l)) {
        fail!("{} is left", l.name);
    }
    for s in [NS_0, NS_1, NS_APP] {
        check!(!k.spaces.contains(s), "namespace {s} is left");
    }
    if clear {
        let rules = |k: &Kernel| k.rules.iter().filter(|r| !r.1.is_empty()).map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>();
        check_eq!(rules(&k), rules(&clean), "rules left");
    }
    Ok(())
}
/// A create that ended early, then a deletion: nothing is left.
fn run_part(c: &(u8, (u32, u8)), cx: &mut Cx) -> CaseResult {
    let w = World(Rc::new(RefCell::new(Kernel::default())));
    let mut n = Network::new(NetworkConfig::new(subnet(c.1))).map_err(|e| Failure::from(e.to_string()))?;
    let r = w.with(Some(c.0), None, || n.create())?;
    cx.nontrivial(r.is_err());
    w.with(None, None, || n.delete())?.map_err(|e| Failure::from(format!("not deleted: {e}")))?;
    let k = w.0.borrow();
    if w.unknown() {
        return Ok(());
    }
    if let Some(l) = k.links.iter().find(|l| ours(&k, l)) {
        fail!("{} is left", l.name);
    }
    for s in [NS_0, NS_1, NS_APP] {
        check!(!k.spaces.contains(s), "namespace {s} is left");
    }
    Ok(())
}

pub fn c24() -> Check {
    Check {
        id: "C24",
        rule: "A case is one kernel with things that are not the harness's and leftovers of earlier runs (made or deleted in whole or up to any command), \
               a subnet, a command that fails, and a sequence of settings. Non-trivial: there are leftovers or settings; a creation that really ended early.",
        assumptions: &["Commands are applied to a model of the kernel's configuration; if one is used that the model does not know, the case is not judged."],
        laws: vec![
            law("histories", cases(40_000), case, run),
            law("ended early", cases(4_000), || (0u8..110, (any::<u32>(), 8u8..28)), run_part),
        ],
    }
}
