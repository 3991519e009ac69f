//! The model of remote chains: treasuries of a DAO on other chains, commanded over IBC.
use crate::model::{no, Model, Tre, Why, R, SEC};
use crate::types::*;
use std::collections::BTreeMap;

pub const DEFAULT_TIMEOUT: u64 = 15 * 60 * SEC;
pub const CALLBACK_TIMEOUT: u64 = 3600 * SEC;

/// A contract on a remote chain. Number i on chain c is called "r{c}.{i}".
#[derive(Clone, Debug, PartialEq)]
pub enum RC {
    Proxy { owner: Option<N>, admin: Option<N> },
    Ext { count: u64 },
    Treasury { tre: Tre, admin: Option<N> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Remote {
    /// seconds its clock is ahead of the main chain's
    pub skew: i64,
    pub timeout: Option<u64>,
    pub contracts: Vec<RC>,
    pub bank: BTreeMap<(N, String), Amt>,
}
impl Remote {
    pub fn now(&self, main: u64) -> u64 {
        (main as i64 + self.skew * SEC as i64) as u64
    }
    pub fn credit(&mut self, n: &str, d: &str, x: Amt) {
        if x > 0 {
            *self.bank.entry((n.to_string(), d.to_string())).or_insert(0) += x;
        }
    }
    pub fn bal(&self, n: &str, d: &str) -> Amt {
        self.bank.get(&(n.to_string(), d.to_string())).copied().unwrap_or(0)
    }
    fn mv(&mut self, from: &str, to: &str, d: &str, x: Amt) -> R {
        if x == 0 {
            return no(&["X01"], "zero coin");
        }
        let b = self.bal(from, d);
        if b < x {
            return no(&["X01"], format!("{from} has {b}{d}, needs {x}"));
        }
        self.bank.insert((from.to_string(), d.to_string()), b - x);
        self.credit(to, d, x);
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    NewProxy { dao: usize, id: u32, w: u8 },
    NewTreasury { dao: usize, id: u32, proxy: N, w: u8 },
    Run { dao: usize, proxy: N, treasury: N, m: M },
    Callback { dao: usize, id: u32, addr: N },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Received,
    Refused,
    Expired,
}
/// A packet on the wire between the main chain and a remote chain.
#[derive(Clone, Debug, PartialEq)]
pub struct Packet {
    pub chain: u8,
    pub to_main: bool,
    pub sender: N,
    pub receiver: N,
    pub timeout: u64,
    pub body: Body,
    pub end: Option<End>,
}

/// A proxy or a treasury a DAO waits for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wait {
    pub chain: u8,
    pub treasury: bool,
    pub w: u8,
}

pub fn voucher(c: u8) -> String {
    format!("ibc/ULUNA{c}")
}
fn rvalid(c: u8, n: &str) -> bool {
    n.starts_with(&format!("r{c}."))
}
fn rasset_ok(c: u8, a: &Asset) -> bool {
    match a {
        Asset::Nat(_) => true,
        Asset::Cw20(n) | Asset::Cw1155(n, _) => rvalid(c, n),
    }
}
fn index(c: u8, n: &str) -> Option<usize> {
    n.strip_prefix(&format!("r{c}."))?.parse().ok()
}
fn x<T>(what: impl Into<String>) -> R<T> {
    no(&["X01"], what)
}
macro_rules! need {
    ($c:expr, $($w:tt)*) => {
        if !$c { return x(format!($($w)*)); }
    };
}

impl Model {
    pub fn rnow(&self, c: u8) -> u64 {
        self.remotes[c as usize].now(self.now)
    }
    /// The clock that decides whether the packet is late.
    pub fn dest_now(&self, p: &Packet) -> u64 {
        if p.to_main {
            self.now
        } else {
            self.rnow(p.chain)
        }
    }
    fn send(&mut self, k: usize, c: u8, receiver: N, body: Body) -> R {
        let out = format!("d{k}.out");
        self.pay(&out, &format!("escrow{c}"), 1)?;
        let timeout = self.now + self.remotes[c as usize].timeout.unwrap_or(DEFAULT_TIMEOUT);
        self.packets.push(Packet { chain: c, to_main: false, sender: out, receiver, timeout, body, end: None });
        Ok(())
    }
    fn pay(&mut self, from: &str, to: &str, amount: Amt) -> R {
        self.mv(from, to, "uluna", amount, &["X01"])
    }
    pub fn deploy_remote(&mut self, k: usize, c: u8, w: u8) -> R {
        need!((c as usize) < self.remotes.len(), "no such chain");
        let o = &mut self.daos[k].out;
        need!(!o.treasuries.contains_key(&c), "the DAO already has a treasury there");
        let id = o.next;
        o.next += 1;
        let proxy = o.proxies.get(&c).cloned();
        o.pending.insert(id, Wait { chain: c, treasury: proxy.is_some(), w });
        self.e("X01", format!("deploy proxy known={}", proxy.is_some()));
        let body = match proxy {
            None => Body::NewProxy { dao: k, id, w },
            Some(proxy) => Body::NewTreasury { dao: k, id, proxy, w },
        };
        self.send(k, c, format!("r{c}.0"), body)
    }
    pub fn outposts(&mut self, k: usize, s: &str, m: &M) -> R {
        match m {
            M::OutDeploy { chain, w } => {
                if s != format!("d{k}.ctl") {
                    return no(&["A01", "X01"], format!("{s} may not deploy treasuries"));
                }
                self.deploy_remote(k, *chain, *w)
            }
            M::OutExec { chain, to, amount } => {
                let m = M::Spend { to: to.clone(), assets: vec![(Asset::Nat("uosmo".into()), *amount)] };
                self.out_run(k, s, *chain, m)
            }
            M::OutRun { chain, m } => self.out_run(k, s, *chain, (**m).clone()),
            M::OutCallback { .. } => no(&["A01", "X01"], "forged callback"),
            _ => no(&["A01"], "unknown message"),
        }
    }
    fn out_run(&mut self, k: usize, s: &str, c: u8, m: M) -> R {
        if s != format!("d{k}.ctl") {
            return no(&["A01", "X01"], format!("{s} may not command remote treasuries"));
        }
        need!((c as usize) < self.remotes.len(), "no such chain");
        let o = &self.daos[k].out;
        let (proxy, treasury) = match (o.proxies.get(&c), o.treasuries.get(&c)) {
            (Some(p), Some(t)) => (p.clone(), t.clone()),
            _ => {
                self.e("X01", "command without a treasury");
                return x("no treasury there");
            }
        };
        self.e("X01", "command sent");
        self.send(k, c, proxy.clone(), Body::Run { dao: k, proxy, treasury, m })
    }

    /// A report arrives that contract `addr` was created. `from` is who reports it, on which chain.
    pub fn out_callback(&mut self, k: usize, from: (u8, &str), id: u32, addr: &str) -> R {
        let wait = match self.daos[k].out.pending.get(&id) {
            Some(w) => *w,
            None => return no(&["A01", "X01"], "nothing is expected under this number"),
        };
        let c = wait.chain;
        if from.0 != c || from.1 != format!("r{c}.0") {
            return no(&["A01", "X01"], format!("{} is not the proxy the report is expected from", from.1));
        }
        let o = &mut self.daos[k].out;
        o.pending.remove(&id);
        if wait.treasury {
            need!(!o.treasuries.contains_key(&c), "second treasury");
            o.treasuries.insert(c, addr.to_string());
            self.e("X01", "treasury registered");
            return Ok(());
        }
        need!(!o.proxies.contains_key(&c), "second proxy");
        o.proxies.insert(c, addr.to_string());
        let next = o.next;
        o.next += 1;
        o.pending.insert(next, Wait { chain: c, treasury: true, w: wait.w });
        self.e("X01", "proxy registered");
        self.send(k, c, format!("r{c}.0"), Body::NewTreasury { dao: k, id: next, proxy: addr.to_string(), w: wait.w })
    }

    /// What a packet does where it arrives. On failure nothing changes there.
    pub fn receive(&mut self, seq: usize) -> R {
        self.start();
        let save = self.clone();
        let r = self.receive_inner(seq);
        if r.is_err() {
            let ev = std::mem::take(&mut self.ev);
            *self = save;
            self.ev = ev;
        }
        r
    }
    fn receive_inner(&mut self, seq: usize) -> R {
        let p = self.packets[seq].clone();
        let c = p.chain;
        let now = self.rnow(c);
        match &p.body {
            Body::Callback { dao, id, addr } => {
                self.pay(&format!("escrow{c}"), &p.receiver, 1)?;
                self.out_callback(*dao, (c, &p.sender), *id, addr)
            }
            Body::NewProxy { dao, id, .. } => {
                let r = &mut self.remotes[c as usize];
                r.credit(&p.receiver, &voucher(c), 1);
                let addr = format!("r{c}.{}", r.contracts.len());
                r.contracts.push(RC::Proxy { owner: Some(format!("i{c}.{}", p.sender)), admin: None });
                self.e("X01", "proxy created");
                self.report(c, *dao, *id, addr, now)
            }
            Body::NewTreasury { dao, id, proxy, w } => {
                let (assets, nfts) = deploy_lists(c, *w);
                let r = &mut self.remotes[c as usize];
                r.credit(&p.receiver, &voucher(c), 1);
                let assets = assets.unwrap_or_default();
                let nfts = nfts.unwrap_or_default();
                need!(assets.iter().all(|a| rasset_ok(c, a)), "invalid asset");
                need!(nfts.iter().all(|n| rvalid(c, n)), "invalid NFT");
                let addr = format!("r{c}.{}", r.contracts.len());
                let tre = Tre { admin: proxy.clone(), assets: assets.into_iter().collect(), nfts: nfts.into_iter().collect(), legacy: None };
                r.contracts.push(RC::Treasury { tre, admin: Some(proxy.clone()) });
                self.e("X01", "treasury created");
                self.report(c, *dao, *id, addr, now)
            }
            Body::Run { proxy, treasury, m, .. } => {
                self.remotes[c as usize].credit(&p.receiver, &voucher(c), 1);
                let kind = match m {
                    M::TreAssets { .. } => "assets",
                    M::TreNfts { .. } => "nfts",
                    M::Spend { .. } => "spend",
                    _ => "messages",
                };
                let act = Act::ex(treasury.clone(), m.clone());
                let r = self.ract(c, &format!("i{c}.{}", p.sender), &Act::ex(proxy.clone(), M::ProxyRun(vec![act])));
                self.e("X01", format!("command {kind} ok={}", r.is_ok()));
                r
            }
        }
    }
    fn report(&mut self, c: u8, dao: usize, id: u32, addr: N, now: u64) -> R {
        let g = format!("r{c}.0");
        self.remotes[c as usize].mv(&g, &format!("r{c}.escrow"), &voucher(c), 1)?;
        self.packets.push(Packet {
            chain: c,
            to_main: true,
            sender: g,
            receiver: format!("d{dao}.out"),
            timeout: now + CALLBACK_TIMEOUT,
            body: Body::Callback { dao, id, addr },
            end: None,
        });
        Ok(())
    }
    /// The sender gets its token back.
    pub fn refund(&mut self, seq: usize, end: End) {
        let p = self.packets[seq].clone();
        let c = p.chain;
        let r = if p.to_main {
            self.remotes[c as usize].mv(&format!("r{c}.escrow"), &p.sender, &voucher(c), 1)
        } else {
            self.pay(&format!("escrow{c}"), &p.sender, 1)
        };
        debug_assert!(r.is_ok());
        self.packets[seq].end = Some(end);
    }

    /// A transaction on a remote chain.
    pub fn rtx(&mut self, c: u8, s: &str, a: &Act) -> R {
        self.start();
        let save = self.clone();
        let r = self.ract(c, s, a);
        if r.is_err() {
            let ev = std::mem::take(&mut self.ev);
            *self = save;
            self.ev = ev;
        }
        r
    }
    fn ract(&mut self, c: u8, s: &str, a: &Act) -> R {
        match a {
            Act::Bank { to, coins } => {
                need!(rvalid(c, to), "invalid recipient");
                need!(!coins.is_empty(), "empty send");
                for (d, n) in coins {
                    self.remotes[c as usize].mv(s, to, d, *n)?;
                }
                Ok(())
            }
            Act::Ex { to, m, funds } => {
                let Some(i) = index(c, to) else { return x("not a contract") };
                need!(i < self.remotes[c as usize].contracts.len(), "not a contract");
                for (d, n) in funds {
                    self.remotes[c as usize].mv(s, to, d, *n)?;
                }
                match self.remotes[c as usize].contracts[i].clone() {
                    RC::Proxy { owner, .. } => {
                        let M::ProxyRun(v) = &**m else { return x("unknown message") };
                        need!(owner.is_none() || owner.as_deref() == Some(s), "{s} does not own the proxy");
                        for a in v {
                            self.ract(c, to, a)?;
                        }
                        Ok(())
                    }
                    RC::Ext { count } => match &**m {
                        M::Bump => {
                            self.remotes[c as usize].contracts[i] = RC::Ext { count: count + 1 };
                            Ok(())
                        }
                        _ => x("external contract fails"),
                    },
                    RC::Treasury { tre, admin } => {
                        let t = self.rtreasury(c, s, to, tre, m)?;
                        if let RC::Treasury { tre, .. } = &mut self.remotes[c as usize].contracts[i] {
                            *tre = t;
                        }
                        let _ = admin;
                        Ok(())
                    }
                }
            }
            Act::Migrate { c: n, .. } => {
                let admin = match index(c, n).and_then(|i| self.remotes[c as usize].contracts.get(i)) {
                    Some(RC::Treasury { admin, .. }) => admin.clone(),
                    _ => None,
                };
                if admin.as_deref() == Some(s) {
                    return no(&["?"], "remote migration");
                }
                x("not the migration admin")
            }
            Act::Garbage => x("not a message"),
        }
    }
    fn rtreasury(&mut self, c: u8, s: &str, me: &str, mut t: Tre, m: &M) -> Result<Tre, Why> {
        need!(
            matches!(m, M::SetAdmin { .. } | M::TreAssets { .. } | M::TreNfts { .. } | M::Spend { .. } | M::Cosmos(_)),
            "unknown message"
        );
        if s != t.admin {
            return no(&["X01", "A01", "T01"], format!("{s} does not control the treasury {me}"));
        }
        match m {
            M::SetAdmin { to } => {
                need!(rvalid(c, to), "invalid admin");
                t.admin = to.clone();
            }
            M::TreAssets { add, remove } => {
                need!(add.iter().chain(remove).all(|a| rasset_ok(c, a)), "invalid asset");
                need!(!add.iter().any(|a| matches!(a, Asset::Cw1155(..))), "cw1155");
                for a in add {
                    t.assets.insert(a.clone());
                }
                for a in remove {
                    t.assets.remove(a);
                }
            }
            M::TreNfts { add, remove } => {
                need!(add.iter().chain(remove).all(|n| rvalid(c, n)), "invalid NFT");
                for a in add {
                    t.nfts.insert(a.clone());
                }
                for a in remove {
                    t.nfts.remove(a);
                }
            }
            M::Spend { to, assets } => {
                need!(rvalid(c, to), "invalid recipient");
                need!(assets.iter().all(|a| rasset_ok(c, &a.0)), "invalid asset");
                for (a, n) in assets {
                    match a {
                        Asset::Nat(d) => self.remotes[c as usize].mv(me, to, d, *n)?,
                        _ => return x("not a token"),
                    }
                }
            }
            M::Cosmos(v) => {
                need!(!v.contains(&Act::Garbage), "not a message");
                for a in v {
                    self.ract(c, me, a)?;
                }
                // a nested message may have changed the treasury itself
                if let Some(RC::Treasury { tre, .. }) = index(c, me).and_then(|i| self.remotes[c as usize].contracts.get(i)) {
                    t = tre.clone();
                }
            }
            _ => {}
        }
        Ok(t)
    }
}
