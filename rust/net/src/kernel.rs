//! The network configuration of a kernel, as far as `ip`, `tc`, `iptables` and
//! `sysctl` change it here. Nothing real is touched.
use std::{
    collections::{BTreeMap, BTreeSet},
    net::Ipv4Addr,
};

pub type Ns = Option<String>;

#[derive(Debug, Clone, PartialEq)]
pub struct Qdisc {
    pub parent: String,
    pub handle: String,
    pub kind: String,
    pub opts: BTreeMap<String, String>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Link {
    pub id: usize,
    pub name: String,
    pub ns: Ns,
    pub bridge: bool,
    pub peer: Option<usize>,
    pub addrs: Vec<(Ipv4Addr, u8)>,
    pub up: bool,
    pub master: Option<usize>,
    pub qdiscs: Vec<Qdisc>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Route {
    pub ns: Ns,
    pub dest: (Ipv4Addr, u8),
    pub dev: usize,
    pub order: usize,
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Kernel {
    pub spaces: BTreeSet<String>,
    pub links: Vec<Link>,
    pub routes: Vec<Route>,
    /// Namespace, table and chain: rules.
    pub rules: BTreeMap<(Ns, String, String), Vec<Vec<String>>>,
    pub sysctl: BTreeMap<(Ns, String), String>,
    pub lo: BTreeSet<Ns>,
    next: usize,
    /// A command that is not known here.
    pub unknown: Option<Vec<String>>,
}
type R = Result<(), String>;
fn rt<T>(s: &str) -> Result<T, String> {
    Err(format!("RTNETLINK answers: {s}\n"))
}
fn prefix(s: &str) -> Option<(Ipv4Addr, u8)> {
    if s == "default" {
        return Some((Ipv4Addr::UNSPECIFIED, 0));
    }
    match s.split_once('/') {
        Some((a, l)) => Some((a.parse().ok()?, l.parse().ok().filter(|l| *l <= 32)?)),
        None => Some((s.parse().ok()?, 32)),
    }
}
pub fn inside(a: Ipv4Addr, (n, l): (Ipv4Addr, u8)) -> bool {
    l == 0 || (u32::from(a) ^ u32::from(n)) >> (32 - l as u32) == 0
}

impl Kernel {
    pub fn link(&self, ns: &Ns, name: &str) -> Option<&Link> {
        self.links.iter().find(|l| l.name == name && l.ns == *ns)
    }
    pub fn by_id(&self, id: usize) -> Option<&Link> {
        self.links.iter().find(|l| l.id == id)
    }
    fn get(&mut self, ns: &Ns, name: &str) -> Result<&mut Link, String> {
        self.links.iter_mut().find(|l| l.name == name && l.ns == *ns).ok_or(format!("Cannot find device \"{name}\"\n"))
    }
    fn add_link(&mut self, ns: &Ns, name: &str, bridge: bool) -> Result<usize, String> {
        if name.is_empty() || name.len() > 15 || name.contains(['/', ' ']) {
            return Err(format!("Error: argument \"{name}\" is wrong: \"name\" not a valid ifname\n"));
        }
        if self.link(ns, name).is_some() || name == "lo" {
            return rt("File exists");
        }
        self.next += 1;
        self.links.push(Link { id: self.next, name: name.into(), ns: ns.clone(), bridge, peer: None, addrs: vec![], up: false, master: None, qdiscs: vec![] });
        Ok(self.next)
    }
    fn remove_link(&mut self, id: usize) {
        let Some(l) = self.by_id(id).cloned() else { return };
        self.links.retain(|x| x.id != id);
        self.routes.retain(|r| r.dev != id);
        self.links.iter_mut().filter(|x| x.master == Some(id)).for_each(|x| x.master = None);
        if let Some(p) = l.peer {
            self.remove_link(p);
        }
    }
    /// Where a packet leaves.
    pub fn out(&self, ns: &Ns, to: Ipv4Addr) -> Option<&Link> {
        let mut best: Option<(u8, usize, usize)> = None;
        for r in self.routes.iter().filter(|r| r.ns == *ns && inside(to, r.dest)) {
            if best.is_none_or(|b| (r.dest.1, usize::MAX - r.order) > (b.0, usize::MAX - b.1)) {
                best = Some((r.dest.1, r.order, r.dev));
            }
        }
        self.by_id(best?.2).filter(|l| l.up)
    }
    /// Rate and delay of what leaves by a link.
    pub fn shape(l: &Link) -> (Option<String>, Option<String>) {
        let of = |k: &str| l.qdiscs.iter().find_map(|q| q.opts.get(k).cloned());
        (of("rate"), of("delay"))
    }
    /// The routes that come with addresses.
    fn connected(&mut self, id: usize) {
        let Some(l) = self.by_id(id).cloned() else { return };
        if !l.up {
            self.routes.retain(|r| r.dev != id);
            return;
        }
        for (a, n) in l.addrs {
            let net = if n == 0 { 0 } else { u32::from(a) >> (32 - n as u32) << (32 - n as u32) };
            let dest = (Ipv4Addr::from(net), n);
            if !self.routes.iter().any(|r| r.dev == id && r.dest == dest) {
                self.next += 1;
                self.routes.push(Route { ns: l.ns.clone(), dest, dev: id, order: self.next });
            }
        }
    }
    pub fn run(&mut self, cmd: &[String]) -> (i32, String, String) {
        let a: Vec<&str> = cmd.iter().map(|s| s.as_str()).collect();
        match self.exec(&None, &a) {
            Ok(()) => (0, String::new(), String::new()),
            Err(e) => (2, String::new(), e),
        }
    }
    fn exec(&mut self, ns: &Ns, a: &[&str]) -> R {
        match a {
            ["sudo", "-n", rest @ ..] | ["sudo", rest @ ..] => self.exec(ns, rest),
            ["ip", "netns", "exec", n, rest @ ..] => {
                if !self.spaces.contains(*n) {
                    return Err(format!("Cannot open network namespace \"{n}\": No such file or directory\n"));
                }
                self.exec(&Some(n.to_string()), rest)
            }
            ["ip", "-n" | "-netns", n, rest @ ..] => {
                let mut c = vec!["ip", "netns", "exec", n, "ip"];
                c.extend(rest);
                self.exec(ns, &c)
            }
            ["ip", "netns", "add", n] => match self.spaces.insert(n.to_string()) {
                true => Ok(()),
                false => Err(format!("Cannot create namespace file \"/var/run/netns/{n}\": File exists\n")),
            },
            ["ip", "netns", "delete" | "del", n] => {
                if !self.spaces.remove(*n) {
                    return Err(format!("Cannot remove namespace file \"/var/run/netns/{n}\": No such file or directory\n"));
                }
                let n = Some(n.to_string());
                for id in self.links.iter().filter(|l| l.ns == n).map(|l| l.id).collect::<Vec<_>>() {
                    self.remove_link(id);
                }
                self.rules.retain(|k, _| k.0 != n);
                self.sysctl.retain(|k, _| k.0 != n);
                self.lo.remove(&n);
                Ok(())
            }
            ["ip", "link", "add", "name" | "dev", rest @ ..] => {
                let mut c = vec!["ip", "link", "add"];
                c.extend(rest);
                self.exec(ns, &c)
            }
            ["ip", "link", "add", n, "type", "bridge"] => self.add_link(ns, n, true).map(|_| ()),
            ["ip", "link", "add", n, "type", "veth", "peer", "name", p] | ["ip", "link", "add", n, "type", "veth", "peer", p] => {
                if n == p || self.link(ns, p).is_some() {
                    return rt("File exists");
                }
                let i = self.add_link(ns, n, false)?;
                let j = match self.add_link(ns, p, false) {
                    Ok(j) => j,
                    Err(e) => {
                        self.remove_link(i);
                        return Err(e);
                    }
                };
                self.links.iter_mut().for_each(|l| {
                    if l.id == i {
                        l.peer = Some(j);
                    } else if l.id == j {
                        l.peer = Some(i);
                    }
                });
                Ok(())
            }
            ["ip", "link", "delete" | "del", n] | ["ip", "link", "delete" | "del", "dev", n] => {
                let id = self.get(ns, n)?.id;
                self.remove_link(id);
                Ok(())
            }
            ["ip", "link", "set", "dev", rest @ ..] => {
                let mut c = vec!["ip", "link", "set"];
                c.extend(rest);
                self.exec(ns, &c)
            }
            ["ip", "link", "set", "lo", "up"] => {
                self.lo.insert(ns.clone());
                Ok(())
            }
            ["ip", "link", "set", n, s @ ("up" | "down")] => {
                let l = self.get(ns, n)?;
                l.up = *s == "up";
                let id = l.id;
                self.connected(id);
                Ok(())
            }
            ["ip", "link", "set", n, "netns", to] => {
                let id = self.get(ns, n)?.id;
                if !self.spaces.contains(*to) {
                    return Err("Error: argument is wrong: Invalid \"netns\" value\n".into());
                }
                if self.link(&Some(to.to_string()), n).is_some() {
                    return rt("File exists");
                }
                let l = self.get(ns, n)?;
                (l.ns, l.up, l.master) = (Some(to.to_string()), false, None);
                l.addrs.clear();
                l.qdiscs.clear();
                self.routes.retain(|r| r.dev != id);
                Ok(())
            }
            ["ip", "link", "set", n, "master", b] => {
                let id = self.get(ns, b).map_err(|_| format!("Device does not exist: {b}\n"))?;
                if !id.bridge {
                    return rt("Operation not supported");
                }
                let id = id.id;
                self.get(ns, n)?.master = Some(id);
                Ok(())
            }
            ["ip", "addr" | "address", "add", p, "dev", n] => {
                let Some(p) = prefix(p) else { return Err(format!("Error: any valid prefix is expected rather than \"{p}\".\n")) };
                let l = self.get(ns, n)?;
                if l.addrs.contains(&p) {
                    return rt("File exists");
                }
                l.addrs.push(p);
                let id = l.id;
                self.connected(id);
                Ok(())
            }
            ["ip", "route", "add", d, "dev", n] => {
                let Some(dest) = prefix(d) else { return Err(format!("Error: any valid prefix is expected rather than \"{d}\".\n")) };
                let l = self.get(ns, n)?;
                let (id, up) = (l.id, l.up);
                if !up {
                    return rt("Network is down");
                }
                if self.routes.iter().any(|r| r.ns == *ns && r.dest == dest) {
                    return rt("File exists");
                }
                self.next += 1;
                let order = self.next;
                self.routes.push(Route { ns: ns.clone(), dest, dev: id, order });
                Ok(())
            }
            ["tc", "qdisc", "del" | "delete", "dev", n, "root"] => {
                let l = self.get(ns, n)?;
                if l.qdiscs.is_empty() {
                    return Err("Error: Cannot delete qdisc with handle of zero.\n".into());
                }
                l.qdiscs.clear();
                Ok(())
            }
            ["tc", "qdisc", op @ ("add" | "replace"), "dev", n, at @ ..] => {
                let (parent, at) = match at {
                    ["root", at @ ..] => ("root", at),
                    ["parent", p, at @ ..] => (*p, at),
                    _ => return self.unknown(a),
                };
                let (handle, at) = match at {
                    ["handle", h, at @ ..] => (*h, at),
                    at => ("", at),
                };
                let (kind, at) = match at {
                    [k @ ("tbf" | "netem"), at @ ..] if at.len() % 2 == 0 => (*k, at),
                    _ => return self.unknown(a),
                };
                let opts: BTreeMap<String, String> = at.chunks(2).map(|c| (c[0].to_string(), c[1].to_string())).collect();
                let amount = |k: &str| -> Option<u64> {
                    let v = opts.get(k)?;
                    v.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok()
                };
                if kind == "tbf" && (amount("rate").unwrap_or(0) == 0 || amount("burst").unwrap_or(0) == 0) {
                    return Err("Both \"rate\" and \"burst\" are required.\n".into());
                }
                if kind == "tbf" && !opts.contains_key("latency") && !opts.contains_key("limit") {
                    return Err("Either \"limit\" or \"latency\" is required.\n".into());
                }
                let l = self.get(ns, n)?;
                if parent == "root" {
                    if !l.qdiscs.is_empty() && *op == "add" {
                        return Err("Error: Exclusivity flag on, cannot modify.\n".into());
                    }
                    l.qdiscs.clear();
                } else {
                    // The only class of a token bucket.
                    let p = parent.split_once(':').is_some_and(|(h, c)| c == "1" && l.qdiscs.iter().any(|q| q.kind == "tbf" && q.handle.trim_end_matches(':') == h));
                    if !p {
                        return Err("Error: Specified class not found.\n".into());
                    }
                    if l.qdiscs.iter().any(|q| q.parent == parent) {
                        return Err("Error: Exclusivity flag on, cannot modify.\n".into());
                    }
                }
                l.qdiscs.push(Qdisc { parent: parent.into(), handle: handle.into(), kind: kind.into(), opts });
                Ok(())
            }
            ["iptables", rest @ ..] => {
                let (table, rest) = match rest {
                    ["-t", t, rest @ ..] => (*t, rest),
                    rest => ("filter", rest),
                };
                let [op, chain, rule @ ..] = rest else { return self.unknown(a) };
                let rules = self.rules.entry((ns.clone(), table.into(), chain.to_string())).or_default();
                let rule: Vec<String> = rule.iter().map(|s| s.to_string()).collect();
                let at = rules.iter().position(|r| *r == rule);
                match (*op, at) {
                    ("-A", _) => rules.push(rule),
                    ("-I", _) => rules.insert(0, rule),
                    ("-D", Some(i)) => drop(rules.remove(i)),
                    ("-C", Some(_)) => {}
                    ("-D" | "-C", None) => return Err("iptables: Bad rule (does a matching rule exist in that chain?).\n".into()),
                    _ => return self.unknown(a),
                }
                Ok(())
            }
            ["sysctl", "-w", kv] | ["sysctl", "-q", "-w", kv] => {
                let Some((k, v)) = kv.split_once('=') else { return self.unknown(a) };
                self.sysctl.insert((ns.clone(), k.into()), v.into());
                Ok(())
            }
            _ => self.unknown(a),
        }
    }
    fn unknown(&mut self, a: &[&str]) -> R {
        self.unknown.get_or_insert_with(|| a.iter().map(|s| s.to_string()).collect());
        Err("unknown command".into())
    }
}
