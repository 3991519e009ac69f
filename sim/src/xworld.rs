//! Remote chains in the simulated system: relaying, expiry, forged reports, and the comparison.
use crate::chain::{intermediate_sender, Chain, FaultPlan, MsgTransfer, TxOutcome};
use crate::codes;
use crate::model::Model;
use crate::types::*;
use crate::world::{brief, Cmp, Mis, StepOut, World};
use crate::xmodel::{voucher, Body, End, Remote, RC};
use cosmwasm_std::{Binary, CosmosMsg, WasmMsg};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const RUSERS: usize = 2;

/// A real remote chain.
pub struct RChain {
    pub chain: Chain,
    pub rev: BTreeMap<String, N>,
    pub known: usize,
}
impl RChain {
    pub fn n(&self, a: &str) -> N {
        self.rev.get(a).cloned().unwrap_or_else(|| format!("?{a}"))
    }
}

const PREFIXES: [&str; 3] = ["juno", "osmo", "terra"];
const TIMEOUTS: [Option<u64>; 4] = [None, Some(60_000_000_000), Some(600_000_000_000), Some(86_400_000_000_000)];

impl World {
    pub fn add_remotes(&mut self) {
        for c in 0..self.cfg.remotes as u8 {
            // which prefix, clock and timeout: from the run's salt
            let z = self.cfg.salt as usize;
            let prefix = if z % 2 == 0 { PREFIXES[0] } else { PREFIXES[(c as usize + z / 2) % 2] };
            let timeout = TIMEOUTS[(z / 4 + c as usize) % TIMEOUTS.len()];
            let skew = [0i64, 7, -7, 40, -300][(z / 16 + 2 * c as usize) % 5];
            let id = format!("{}-{}", ["juno", "zeta"][c as usize % 2], c + 1);
            let chain = Chain::new(prefix, &id, self.chain.codes.clone());
            let target = (self.chain.now().nanos() as i64 + skew * 1_000_000_000) as u64;
            chain.set_time(target);
            let mut r = RChain { chain, rev: BTreeMap::new(), known: 0 };
            let admin = crate::chain::hash_addr(prefix, &format!("{id}/admin"));
            let inst = |r: &RChain, code: u64, m: Value| {
                let o = r.chain.tx(
                    &admin,
                    vec![CosmosMsg::Wasm(WasmMsg::Instantiate { admin: None, code_id: code, msg: Binary(m.to_string().into_bytes()), funds: vec![], label: "x".into() })],
                    FaultPlan::default(),
                );
                assert!(o.ok(), "{}", o.err());
            };
            inst(&r, codes::STUB_ICS_PROXY, json!({"allow_cross_chain_msgs": true, "owner": null, "whitelist": null, "msgs": null}));
            inst(&r, codes::STUB_EXTERNAL, json!({}));
            let dest = format!("channel-{}", 70 + c);
            let src = format!("channel-{}", 3 + c);
            let mut model = Remote { skew, timeout, contracts: vec![RC::Proxy { owner: None, admin: None }, RC::Ext { count: 0 }], bank: BTreeMap::new() };
            for i in 0..RUSERS {
                let a = crate::chain::hash_addr(prefix, &format!("{id}/user/{i}"));
                let n = format!("r{c}.u{i}");
                r.chain.mint(&a, "uosmo", self.cfg.coins);
                model.credit(&n, "uosmo", self.cfg.coins);
                self.rname(&mut r, &n, &a);
            }
            let esc = r.chain.escrow(&dest);
            self.rname(&mut r, &format!("r{c}.escrow"), &esc);
            let e = self.chain.escrow(&src);
            self.names.set(&format!("escrow{c}"), &e);
            for u in self.users.clone() {
                let a = intermediate_sender(&dest, &self.names.a(&u), prefix);
                self.rname(&mut r, &format!("i{c}.{u}"), &a);
            }
            self.names.remotes.push(RemoteSpec {
                chain_id: id,
                prefix: prefix.into(),
                src_channel: src,
                dest_channel: dest,
                uluna_denom: voucher(c),
                global_proxy: r.chain.contracts()[0].addr.clone(),
                timeout_nanos: timeout,
            });
            self.model.remotes.push(model);
            self.remotes.push(r);
            self.learn_remote(c);
        }
        if self.cfg.remotes > 0 {
            let f = self.names.a("fac");
            let n = [0, 1, 2, 3, 9, 9, 9][(self.cfg.salt % 7) as usize];
            self.chain.mint(&f, "uluna", n);
            self.model.credit("fac", "uluna", n);
        }
    }
    fn rname(&mut self, r: &mut RChain, n: &str, a: &str) {
        self.names.map.insert(n.to_string(), a.to_string());
        r.rev.insert(a.to_string(), n.to_string());
    }
    fn learn_remote(&mut self, c: u8) {
        let r = &mut self.remotes[c as usize];
        let all = r.chain.contracts();
        for (i, m) in all.iter().enumerate().skip(r.known.min(all.len())) {
            let n = format!("r{c}.{i}");
            self.names.map.insert(n.clone(), m.addr.clone());
            r.rev.insert(m.addr.clone(), n);
        }
        r.known = all.len();
    }
    /// The accounts through which the new DAOs act on the remote chains.
    pub fn learn_intermediates(&mut self) {
        for c in 0..self.remotes.len() {
            for k in 0..self.model.daos.len() {
                let n = format!("i{c}.d{k}.out");
                let out = format!("d{k}.out");
                if !self.names.known(&n) && self.names.known(&out) {
                    let s = &self.names.remotes[c];
                    let a = intermediate_sender(&s.dest_channel, &self.names.a(&out), &s.prefix);
                    self.names.map.insert(n.clone(), a.clone());
                    self.remotes[c].rev.insert(a, n);
                }
            }
        }
    }

    /// Compares what was put on the wire with what the model sent.
    pub fn cmp_wire(&mut self, mis: &mut Vec<Mis>) {
        let mut sent: Vec<(Option<u8>, MsgTransfer)> = self.chain.take_outbox().into_iter().map(|t| (None, t)).collect();
        for (c, r) in self.remotes.iter().enumerate() {
            sent.extend(r.chain.take_outbox().into_iter().map(|t| (Some(c as u8), t)));
        }
        let want = self.model.packets[self.wire.len().min(self.model.packets.len())..].to_vec();
        let mut c = Cmp { mis, n: 0, ev: vec![] };
        c.eq(&["X01"], "packets sent", sent.len(), want.len());
        for ((from, t), p) in sent.iter().zip(&want) {
            let s = &self.names.remotes[p.chain as usize];
            let tok = t.token.clone().unwrap_or_default();
            let real = (from.is_some(), t.source_port.clone(), t.source_channel.clone(), tok.denom, tok.amount, t.sender.clone(), t.receiver.clone(), t.timeout_timestamp);
            let (ch, d) = if p.to_main { (s.dest_channel.clone(), voucher(p.chain)) } else { (s.src_channel.clone(), "uluna".to_string()) };
            let exp = (p.to_main, "transfer".to_string(), ch, d, "1".to_string(), self.names.a(&p.sender), self.names.a(&p.receiver), p.timeout);
            c.eq(&["X01"], "packet (from remote, port, channel, denom, amount, sender, receiver, timeout)", real, exp);
        }
        self.checks += c.n;
        self.wire.extend(sent.into_iter().map(|x| x.1));
    }

    fn fault(abort: Option<u32>, fail: Option<u32>) -> FaultPlan {
        FaultPlan { abort_at: abort, fail_at: fail }
    }
    pub fn open_packet(&self, seq: usize) -> bool {
        seq < self.wire.len() && self.model.packets.get(seq).map(|p| p.end.is_none()).unwrap_or(false)
    }

    pub fn relay(&mut self, seq: usize, abort: Option<u32>, fail: Option<u32>) -> StepOut {
        let mut out = StepOut::default();
        if !self.open_packet(seq) || self.model.dest_now(&self.model.packets[seq]) >= self.model.packets[seq].timeout {
            out.skipped = true;
            return out;
        }
        let p = self.model.packets[seq].clone();
        let t = self.wire[seq].clone();
        let before = self.model.clone();
        let spec = self.names.remotes[p.chain as usize].clone();
        let real = if p.to_main {
            let esc = self.chain.escrow(&spec.src_channel);
            self.chain.ibc_receive(Self::fault(abort, fail), Some(&esc), "uluna", &spec.src_channel, &t)
        } else {
            self.remotes[p.chain as usize].chain.ibc_receive(Self::fault(abort, fail), None, &spec.uluna_denom, &spec.dest_channel, &t)
        };
        out.fired = real.fired.clone();
        out.dispatches = real.dispatches;
        out.ok = real.ok();
        out.err = real.err();
        let what = format!("packet {seq} {:?}", p.body);
        let tags: BTreeSet<&'static str> = ["X01"].into();
        if !real.fired.is_empty() && real.ok() {
            out.mis.push(Mis { tags, what: format!("a failure on arrival was swallowed: {what}") });
            return out;
        }
        if real.fired.contains(&"tx_abort_out_of_gas") {
            // the relayer's transaction ran out of gas: as if never submitted
            return out;
        }
        let pred = if real.fired.is_empty() { self.model.receive(seq) } else { no_fault() };
        out.why = pred.as_ref().err().map(|w| w.what.clone());
        match (&pred, real.ok()) {
            (Ok(()), false) => {
                out.mis.push(Mis { tags, what: format!("refused on arrival ({}) although it is legitimate: {what}", real.err()) });
                self.model = before;
                return out;
            }
            (Err(w), true) => {
                let tags = w.tags.iter().copied().collect();
                out.mis.push(Mis { tags, what: format!("accepted on arrival although it has to be refused ({}): {what}", w.what) });
                return out;
            }
            (Ok(()), true) => self.model.packets[seq].end = Some(End::Received),
            (Err(_), false) => {
                self.give_back(seq, End::Refused, &mut out.mis);
                out.fired.push("error_acknowledgement");
            }
        }
        self.after(&before, &real, p.to_main, &what, &mut out.mis);
        out
    }
    fn give_back(&mut self, seq: usize, end: End, mis: &mut Vec<Mis>) {
        let p = self.model.packets[seq].clone();
        let t = self.wire[seq].clone();
        let o = if p.to_main { self.remotes[p.chain as usize].chain.ibc_refund(&t) } else { self.chain.ibc_refund(&t) };
        if !o.ok() {
            mis.push(Mis { tags: ["X01"].into(), what: format!("the refund of packet {seq} failed: {}", o.err()) });
        }
        self.model.refund(seq, end);
    }
    fn after(&mut self, before: &Model, real: &TxOutcome, on_main: bool, what: &str, mis: &mut Vec<Mis>) {
        for c in 0..self.remotes.len() as u8 {
            self.learn_remote(c);
        }
        self.cmp_wire(mis);
        if on_main {
            self.compare(before, real, mis);
        } else {
            let mut c = Cmp { mis, n: 0, ev: vec![] };
            self.cmp_bank(&mut c);
            self.cmp_remotes(&mut c);
            let n = c.n;
            self.checks += n;
        }
        for m in mis.iter_mut() {
            m.tags.insert("X01");
            m.what = format!("{} | after {what}", m.what);
        }
    }

    pub fn expire(&mut self, seq: usize) -> StepOut {
        let mut out = StepOut { ok: true, ..Default::default() };
        if !self.open_packet(seq) || self.model.dest_now(&self.model.packets[seq]) < self.model.packets[seq].timeout {
            out.skipped = true;
            return out;
        }
        self.model.start();
        let before = self.model.clone();
        self.give_back(seq, End::Expired, &mut out.mis);
        out.fired.push("packet_expired");
        let none = self.chain.simulate("", vec![]);
        let body = format!("expiry of packet {seq} {:?}", self.model.packets[seq].body);
        self.after(&before, &none, false, &body, &mut out.mis);
        out
    }

    /// Somebody else reports the creation that packet `seq` asked for.
    pub fn fake(&mut self, chain: u8, from: &str, seq: usize, addr: &str) -> StepOut {
        let mut out = StepOut::default();
        let skip = StepOut { skipped: true, ..Default::default() };
        if seq >= self.wire.len() || chain as usize >= self.remotes.len() || !self.names.known(from) || !self.names.known(addr) {
            return skip;
        }
        let p = self.model.packets[seq].clone();
        let (k, id) = match p.body {
            Body::NewProxy { dao, id, .. } | Body::NewTreasury { dao, id, .. } => (dao, id),
            _ => return skip,
        };
        let honest = from == format!("r{}.0", p.chain) && chain == p.chain;
        if honest && self.model.daos[k].out.pending.contains_key(&id) {
            return skip;
        }
        // the number the contract itself gave out
        let Some(rid) = callback_id(&self.wire[seq].memo) else { return skip };
        let before = self.model.clone();
        self.model.start();
        let pred = self.model.out_callback(k, (chain, from), id, addr);
        let src = self.names.remotes[chain as usize].src_channel.clone();
        let sender = intermediate_sender(&src, &self.names.a(from), "terra");
        let msg = json!({"execute_msg_reply_callback": {"callback_id": rid, "events": [], "data": forged_instantiate_data(&self.names.a(addr))}});
        let real = self.chain.tx(
            &sender,
            vec![CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: self.names.a(&format!("d{k}.out")), msg: Binary(msg.to_string().into_bytes()), funds: vec![] })],
            FaultPlan::default(),
        );
        out.ok = real.ok();
        out.fired.push("forged_report");
        out.why = pred.as_ref().err().map(|w| w.what.clone());
        self.model = before;
        self.model.ev = vec![("X01", format!("forged report pending={} honest={honest}", self.model.daos[k].out.pending.contains_key(&id)))];
        match (pred, real.ok()) {
            (Err(w), true) => out.mis.push(Mis {
                tags: w.tags.iter().copied().collect(),
                what: format!("a report was accepted although {}: {from} on chain {chain} says {addr} was created for packet {seq}", w.what),
            }),
            (Ok(()), _) => out.mis.push(Mis { tags: ["X01"].into(), what: "model accepts a forged report".into() }),
            _ => {}
        }
        out
    }

    /// A transaction on a remote chain.
    pub fn rtx(&mut self, chain: u8, s: &str, a: &Act) -> StepOut {
        let mut out = StepOut::default();
        if chain as usize >= self.remotes.len() || !self.names.known(s) || (s.starts_with('i') && s.ends_with(".out")) {
            out.skipped = true;
            return out;
        }
        let before = self.model.clone();
        let pred = self.model.rtx(chain, s, a);
        if let Err(w) = &pred {
            if w.tags.contains(&"?") {
                self.model = before;
                out.skipped = true;
                return out;
            }
        }
        let real = self.remotes[chain as usize].chain.tx(&self.names.a(s), vec![self.names.cosmos(a)], FaultPlan::default());
        out.ok = real.ok();
        out.why = pred.as_ref().err().map(|w| w.what.clone());
        out.why_tags = pred.as_ref().err().map(|w| w.tags.clone()).unwrap_or_default();
        let what = format!("{s} on chain {chain}: {}", brief(std::slice::from_ref(a)));
        match (&pred, real.ok()) {
            (Ok(()), false) => out.mis.push(Mis { tags: ["X01", "T01"].into(), what: format!("refused on a remote chain ({}) although it is legitimate: {what}", real.err()) }),
            (Err(w), true) => out.mis.push(Mis { tags: w.tags.iter().copied().collect(), what: format!("accepted on a remote chain although it has to be refused ({}): {what}", w.what) }),
            (Ok(()), true) => self.after(&before, &real, false, &what, &mut out.mis),
            _ => {}
        }
        out
    }

    pub fn cmp_remotes(&self, c: &mut Cmp) {
        for i in 0..self.remotes.len() {
            self.cmp_remote(i as u8, c);
        }
    }
    fn cmp_remote(&self, i: u8, c: &mut Cmp) {
        let r = &self.remotes[i as usize];
        let m = &self.model.remotes[i as usize];
        let real: BTreeMap<(N, String), Amt> = r.chain.all_balances().into_iter().map(|((a, d), x)| ((r.n(&a), d), x)).collect();
        let want: BTreeMap<(N, String), Amt> = m.bank.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect();
        c.eq(&["X01"], &format!("balances on chain {i}"), real, want);
        let all = r.chain.contracts();
        c.eq(&["X01"], &format!("contracts on chain {i}"), all.len(), m.contracts.len());
        for (j, (meta, want)) in all.iter().zip(&m.contracts).enumerate() {
            let n = format!("r{i}.{j}");
            let admin = meta.admin.as_ref().map(|a| r.n(a));
            match want {
                RC::Ext { count } => {
                    let x = q(&r.chain, &meta.addr, json!({})).ok().and_then(|v| v.as_u64());
                    c.eq(&["X01"], &format!("calls of {n}"), x, Some(*count));
                }
                RC::Proxy { owner, admin: a } => {
                    c.eq(&["X01"], &format!("code of {n}"), meta.code_id, codes::STUB_ICS_PROXY);
                    c.eq(&["X01"], &format!("migration admin of {n}"), admin, a.clone());
                    let o = q(&r.chain, &meta.addr, json!({})).ok().map(|v| v.as_str().map(|a| r.n(a)));
                    c.eq(&["X01"], &format!("owner of the proxy {n}"), o, Some(owner.clone()));
                }
                RC::Treasury { tre, admin: a } => {
                    c.eq(&["X01"], &format!("code of {n}"), meta.code_id, codes::TREASURY);
                    c.eq(&["X01"], &format!("migration admin of {n}"), admin, a.clone());
                    let o = q(&r.chain, &meta.addr, json!({"config": {}})).ok().and_then(|v| v["admin"].as_str().map(|a| r.n(a)));
                    c.eq(&["X01", "T01"], &format!("admin of the treasury {n}"), o, Some(tre.admin.clone()));
                    let list = |what: &str, key: &str| -> BTreeSet<String> {
                        let v = q(&r.chain, &meta.addr, json!({what: {"start_after": null, "limit": 100}})).unwrap_or_default();
                        v[key].as_array().map(|v| v.iter().map(|x| x.to_string()).collect()).unwrap_or_default()
                    };
                    let want: BTreeSet<String> = tre.assets.iter().map(|a| self.names.asset_v(a).to_string()).collect();
                    c.eq(&["X01", "T01"], &format!("asset whitelist of {n}"), list("asset_whitelist", "assets"), want);
                    let want: BTreeSet<String> = tre.nfts.iter().map(|a| json!(self.names.a(a)).to_string()).collect();
                    c.eq(&["X01", "T01"], &format!("NFT whitelist of {n}"), list("nft_whitelist", "nfts"), want);
                }
            }
        }
    }
    /// What the DAO knows about its remote treasuries.
    pub fn cmp_out(&self, k: usize, c: &mut Cmp) {
        if self.remotes.is_empty() {
            return;
        }
        let n = format!("d{k}.out");
        let o = &self.model.daos[k].out;
        let rn = |i: usize, a: &str| self.remotes[i].n(a);
        for (i, s) in self.names.remotes.iter().enumerate() {
            let v = self.qn(&n, json!({"cross_chain_deployments": {"chain_id": s.chain_id}})).unwrap_or_default();
            let p = v["proxy_addr"].as_str().map(|a| rn(i, a));
            let t = v["treasury_addr"].as_str().map(|a| rn(i, a));
            c.eq(&["X01"], &format!("deployment of {n} on chain {i}"), (p, t), (o.proxies.get(&(i as u8)).cloned(), o.treasuries.get(&(i as u8)).cloned()));
        }
        let mut want: Vec<(String, N)> = o.treasuries.iter().map(|(i, t)| (self.names.remotes[*i as usize].chain_id.clone(), t.clone())).collect();
        want.sort();
        for lim in [Value::Null, json!(1)] {
            let mut got: Vec<(String, N)> = vec![];
            let mut after = Value::Null;
            for _ in 0..5 {
                let v = self.qn(&n, json!({"cross_chain_treasuries": {"start_after": after, "limit": lim}})).unwrap_or_default();
                let page = v["treasuries"].as_array().cloned().unwrap_or_default();
                if page.is_empty() {
                    break;
                }
                for x in &page {
                    let id = x["chain_id"].as_str().unwrap_or("?").to_string();
                    let i = self.names.remotes.iter().position(|s| s.chain_id == id).unwrap_or(0);
                    got.push((id, rn(i, x["treasury_addr"].as_str().unwrap_or("?"))));
                }
                after = json!(got.last().map(|x| x.0.clone()));
            }
            c.eq(&["X01", "Q01"], &format!("treasuries of {n}"), got, want.clone());
        }
    }
}

fn no_fault() -> crate::model::R {
    crate::model::no(&["X01"], "injected failure")
}

/// The number under which the report is expected, as it is on the wire.
fn callback_id(memo: &str) -> Option<u64> {
    fn walk(v: &Value) -> Option<u64> {
        match v {
            Value::Object(o) => match o.get("callback_id") {
                Some(x) => num(x).map(|x| x as u64),
                None => o.values().find_map(walk),
            },
            Value::Array(a) => a.iter().find_map(walk),
            _ => None,
        }
    }
    walk(&serde_json::from_str(memo).ok()?)
}
