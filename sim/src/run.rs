//! One simulated run, its replay and its minimisation.
use crate::gen::{profile, Gen, GenStats};
use crate::model::Quirks;
use crate::rng::fnv;
use crate::types::*;
use crate::world::{Mis, SetupFailed, Step, WCfg, World};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trace {
    pub cfg: WCfg,
    pub steps: Vec<Step>,
}

#[derive(Default)]
pub struct RunOut {
    pub steps: u64,
    pub txs: u64,
    pub ok: u64,
    pub refused: u64,
    pub skipped: u64,
    pub checks: u64,
    pub simulated_ns: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub why: BTreeMap<String, u64>,
    pub ev: BTreeMap<(&'static str, String), u64>,
    pub gen: GenStats,
    pub digest: u64,
    pub head: Vec<Step>,
    pub states: BTreeSet<u64>,
    pub found: Option<(Mis, Trace)>,
    pub foreign: Option<Mis>,
}

pub fn class(m: &Mis) -> String {
    m.what.split(['(', ':', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']).next().unwrap().to_string()
}
fn hits(m: &Mis, prop: &str) -> bool {
    // leaving with everything takes stakes, claims, rewards and deposits that are right
    prop == "*" || m.tags.contains(prop) || (prop == "W01" && ["S01", "S02", "D01", "G06"].iter().any(|t| m.tags.contains(t)))
}

struct Driver<'a> {
    w: World,
    out: RunOut,
    done: Vec<Step>,
    prop: &'a str,
    start: u64,
    /// why the last refused step was refused
    why: Option<String>,
}
impl<'a> Driver<'a> {
    fn new(cfg: &WCfg, quirks: Quirks, prop: &'a str) -> Result<Driver<'a>, RunOut> {
        let mut w = match std::panic::catch_unwind(|| World::new(cfg)) {
            Ok(w) => w,
            Err(p) => match p.downcast::<SetupFailed>() {
                Ok(f) => {
                    let m = f.0;
                    let mut o = RunOut::default();
                    if hits(&m, prop) {
                        o.found = Some((m, Trace { cfg: cfg.clone(), steps: vec![] }));
                    } else {
                        o.foreign = Some(m);
                    }
                    return Err(o);
                }
                Err(p) => std::panic::resume_unwind(p),
            },
        };
        w.model.quirks = quirks;
        let start = w.model.now;
        Ok(Driver { w, out: RunOut::default(), done: vec![], prop, start, why: None })
    }
    fn judge(&mut self, mis: Vec<Mis>) -> bool {
        if mis.is_empty() {
            return true;
        }
        if let Some(m) = mis.iter().find(|m| hits(m, self.prop)) {
            self.out.found = Some((m.clone(), Trace { cfg: self.w.cfg.clone(), steps: self.done.clone() }));
        } else {
            self.out.foreign = Some(mis[0].clone());
        }
        false
    }
    /// false: the run ends here
    fn step(&mut self, st: &Step) -> bool {
        let o = self.w.step(st);
        if o.skipped {
            self.out.skipped += 1;
            return true;
        }
        self.done.push(st.clone());
        self.out.steps += 1;
        if !matches!(st, Step::Block { .. }) {
            self.out.txs += 1;
            if o.ok {
                self.out.ok += 1;
            } else {
                self.out.refused += 1;
                self.why = o.why.clone();
                if let (Some(w), true) = (&o.why, o.fired.is_empty()) {
                    let n: String = w.chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
                    for t in &o.why_tags {
                        *self.out.ev.entry((t, format!("refused: {n}"))).or_insert(0) += 1;
                    }
                    *self.out.why.entry(w.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(40).collect()).or_insert(0) += 1;
                }
            }
            for f in &o.fired {
                *self.out.faults.entry(f).or_insert(0) += 1;
            }
            if o.absorbed {
                *self.out.faults.entry("failure_absorbed_by_proposal").or_insert(0) += 1;
            }
            if o.fired.is_empty() || o.absorbed {
                for (t, s) in self.w.model.ev.drain(..) {
                    *self.out.ev.entry((t, s)).or_insert(0) += 1;
                }
            }
        }
        self.judge(o.mis)
    }
    fn deep(&mut self) -> bool {
        let m = self.w.deep_compare();
        for (t, s) in self.w.model.ev.drain(..) {
            *self.out.ev.entry((t, s)).or_insert(0) += 1;
        }
        self.judge(m)
    }
    fn finish(mut self) -> RunOut {
        if self.out.found.is_none() && self.out.foreign.is_none() {
            self.deep();
        }
        self.out.checks = self.w.checks;
        self.out.simulated_ns = self.w.model.now - self.start;
        self.out.digest = self.w.chain.digest();
        self.out.head = self.done.iter().take(30).cloned().collect();
        self.out
    }
}

pub fn run(seed: u64, prof: &str, prop: &str, quirks: Quirks) -> RunOut {
    let p = profile(prof);
    let mut g = Gen::new(seed, p.clone());
    let (cfg, setup) = g.world();
    let n = g.r.range(g.p.steps.0, g.p.steps.1);
    let mut d = match Driver::new(&cfg, quirks, prop) {
        Ok(d) => d,
        Err(o) => return o,
    };
    let mut alive = true;
    for s in setup {
        alive = alive && d.step(&s);
    }
    if alive {
        let more = g.endow(&cfg, &d.w.model);
        for s in more {
            alive = alive && d.step(&s);
        }
    }
    // often the first packets arrive without trouble
    if p.cross > 20 && g.r.chance(75) {
        let upto = g.r.range(1, 6);
        for _ in 0..upto {
            let Some(seq) = (0..d.w.model.packets.len()).find(|i| d.w.model.packets[*i].end.is_none()) else { break };
            alive = alive && d.step(&Step::Relay { seq, abort: None, fail: None });
        }
    }
    let mut i = 0;
    while alive && i < n {
        let s = g.next(&cfg, &d.w.model);
        alive = d.step(&s);
        i += 1;
        if alive && i % 25 == 0 {
            alive = d.deep();
        }
        if i % 8 == 0 {
            d.out.states.insert(d.w.chain.digest());
        }
    }
    // once the faults stop, every packet is delivered or expires
    let mut left = 60;
    while alive && left > 0 {
        let Some(seq) = (0..d.w.model.packets.len()).find(|i| d.w.model.packets[*i].end.is_none()) else { break };
        let p = &d.w.model.packets[seq];
        let late = d.w.model.dest_now(p) >= p.timeout;
        alive = d.step(&if late { Step::Expire { seq } } else { Step::Relay { seq, abort: None, fail: None } });
        left -= 1;
    }
    // likewise everything that was left behind is moved in the end, unless a user is barred from staking
    let mut left = 120;
    let mut k = 0;
    while alive && left > 0 && k < d.w.model.daos.len() {
        left -= 1;
        let open = d.w.model.daos[k].tre.legacy.as_ref().map(|l| !l.empty()).unwrap_or(false);
        let ok = d.out.ok;
        if open {
            let limit = Some(1 + (left % 4) as u32);
            alive = d.step(&Step::tx("u0", vec![Act::ex(format!("d{k}.tre"), M::MigStep { limit })]));
        }
        if !open || d.out.ok == ok {
            k += 1;
        }
    }
    // and everybody leaves with what is theirs
    if p.leave > 0 && g.r.chance(p.leave) {
        for k in 0..d.w.model.daos.len() {
            alive = alive && leave(&mut d, &mut g, k);
        }
    }
    d.out.gen = g.stats.clone();
    d.finish()
}

/// Who wants anything from a DAO signs what it asks its members to attest.
fn sign(d: &mut Driver, order: &[N], k: usize) -> bool {
    let Some(a) = d.w.model.daos[k].att.clone() else { return true };
    order.iter().all(|u| d.step(&Step::tx(u, vec![Act::ex(a.clone(), M::Sign)])))
}

/// Everything a DAO holds for its users is taken out, in ordinary transactions without faults.
fn leave(d: &mut Driver, g: &mut Gen, k: usize) -> bool {
    let users: Vec<N> = d.w.users.iter().take(12).cloned().collect();
    let n = |p: &str| format!("d{k}.{p}");
    let mut order = users.clone();
    for i in (1..order.len()).rev() {
        let j = g.r.idx(i + 1);
        order.swap(i, j);
    }
    // votes end, and deposits come back
    for _ in 0..3 {
        if !sign(d, &order, k) {
            return false;
        }
        let m = &d.w.model;
        let open: Vec<(u64, u64)> = m.daos[k].props.iter().filter(|p| p.1.executed.is_none()).map(|p| (*p.0, p.1.ends)).collect();
        let Some(end) = open.iter().map(|x| x.1).max() else { break };
        if end > m.now {
            let dt = end - m.now + g.r.below(3);
            if !d.step(&Step::Block { dh: 2, dt }) {
                return false;
            }
        }
        for (id, _) in open {
            let u = g.r.pick(&users).clone();
            if !d.step(&Step::tx(&u, vec![Act::ex(n("ctl"), M::Execute { id })])) {
                return false;
            }
        }
    }
    if !sign(d, &order, k) {
        return false;
    }
    for u in &order {
        let m = &d.w.model.daos[k];
        let steps: Vec<Step> = match m.kind {
            Kind::Nft => {
                let mut ids: Vec<String> = m.mem.stakes.iter().filter(|x| x.1 == u).map(|x| x.0.clone()).collect();
                let rest = ids.split_off(g.r.idx(ids.len() + 1));
                [ids, rest].into_iter().filter(|l| !l.is_empty()).map(|ids| Step::tx(u, vec![Act::ex(n("mem"), M::UnstakeNft { ids })])).collect()
            }
            Kind::Denom | Kind::Token => {
                let all = m.mem.wt.get(u);
                let first = if g.r.chance(30) { g.r.below(all as u64 + 1) as Amt } else { all };
                [first, all - first].into_iter().filter(|x| *x > 0).map(|amount| Step::tx(u, vec![Act::ex(n("mem"), M::Unstake { amount })])).collect()
            }
            Kind::Multisig => vec![],
        };
        for s in steps {
            if !d.step(&s) {
                return false;
            }
        }
    }
    let m = &d.w.model;
    let (mut dt, mut dh) = (0, 0);
    for c in &m.daos[k].mem.claims {
        match c.rel {
            Rel::Time(t) => dt = dt.max(t.saturating_sub(m.now)),
            Rel::Height(h) => dh = dh.max(h.saturating_sub(m.height)),
        }
    }
    // (claims may also come with any moment from add_claims)
    if dt < 1 << 60 && !d.step(&Step::Block { dh, dt }) {
        return false;
    }
    let mut assets: Vec<Asset> = d.w.model.daos[k].dist.idx.keys().cloned().collect();
    assets.dedup();
    let natives: Vec<String> = assets.iter().filter_map(|a| if let Asset::Nat(x) = a { Some(x.clone()) } else { None }).collect();
    let cw20s: Vec<N> = assets.iter().filter_map(|a| if let Asset::Cw20(x) = a { Some(x.clone()) } else { None }).collect();
    for u in &order {
        let m = &d.w.model.daos[k];
        let mut steps = vec![];
        if m.mem.claims.iter().any(|c| c.user == *u) {
            steps.push(Act::ex(n("mem"), M::Claim { user: None }));
        }
        if assets.iter().any(|a| m.dist.reward(u, a) > 0) {
            steps.push(Act::ex(n("dist"), M::ClaimRewards { user: u.clone(), natives: natives.clone(), cw20s: cw20s.clone() }));
        }
        if steps.len() > 1 && g.r.chance(50) {
            steps.reverse();
        }
        for a in steps {
            if !d.step(&Step::tx(u, vec![a])) {
                return false;
            }
        }
        let m = &d.w.model.daos[k];
        let out = (m.kind == Kind::Multisig || m.mem.wt.get(u) == 0) && !m.mem.claims.iter().any(|c| c.user == *u && (c.amount > 0 || !c.ids.is_empty())) && !assets.iter().any(|a| m.dist.reward(u, a) > 0);
        // only a listener the DAO itself has put in the way can keep somebody
        let kept = d.why.as_ref().is_some_and(|w| w.contains("cannot be told"));
        *d.out.ev.entry(("W01", format!("{:?} {}", m.kind, if out { "left" } else if kept { "kept by the DAO's own listener" } else { "stayed" }))).or_insert(0) += 1;
    }
    let m = &d.w.model.daos[k];
    let (open, held) = (m.props.values().filter(|p| p.executed.is_none()).count(), m.props.values().filter(|p| p.executed.is_none() && p.deposit.is_some()).count());
    *d.out.ev.entry(("W01", format!("{:?} open={} deposits={}", m.kind, open > 0, held > 0))).or_insert(0) += 1;
    true
}

/// Runs a recorded trace. Gives the violation, if any, and the digest of the end state.
pub fn replay(t: &Trace, prop: &str, quirks: Quirks) -> RunOut {
    let mut d = match Driver::new(&t.cfg, quirks, prop) {
        Ok(d) => d,
        Err(o) => return o,
    };
    for s in &t.steps {
        if !d.step(s) {
            break;
        }
    }
    d.finish()
}

/// Removes steps while the violation of the same property persists.
pub fn minimise(t: &Trace, prop: &str, quirks: Quirks, budget_ms: u128) -> (Trace, Mis) {
    let t0 = std::time::Instant::now();
    let want: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
    let bad = |s: &Vec<Step>| -> Option<(Mis, Trace)> {
        let f = replay(&Trace { cfg: t.cfg.clone(), steps: s.clone() }, prop, quirks).found?;
        let c = class(&f.0);
        let mut w = want.borrow_mut();
        match &*w {
            None => *w = Some(c),
            Some(x) if *x != c => return None,
            _ => {}
        }
        Some(f)
    };
    let mut best = t.steps.clone();
    let mut mis = match bad(&best) {
        Some((m, tr)) => {
            best = tr.steps;
            m
        }
        None => {
            return (t.clone(), Mis { tags: Default::default(), what: "not reproduced".into() });
        }
    };
    let mut chunk = (best.len() / 2).max(1);
    while chunk >= 1 && t0.elapsed().as_millis() < budget_ms {
        let mut i = 0;
        let mut any = false;
        while i < best.len() && t0.elapsed().as_millis() < budget_ms {
            let mut c = best.clone();
            c.drain(i..(i + chunk).min(best.len()));
            match bad(&c) {
                Some((m, tr)) => {
                    best = tr.steps;
                    mis = m;
                    any = true;
                }
                None => i += chunk,
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if !any || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
        if chunk == 1 && best.len() <= 1 {
            break;
        }
    }
    // smaller steps: fewer messages per transaction, fewer actions per proposal, no fault
    let mut i = 0;
    while i < best.len() && t0.elapsed().as_millis() < budget_ms {
        let mut again = false;
        for smaller in smaller(&best[i]) {
            let mut c = best.clone();
            c[i] = smaller;
            if let Some((m, tr)) = bad(&c) {
                if tr.steps.len() == best.len() {
                    best = tr.steps;
                    mis = m;
                    again = true;
                    break;
                }
            }
        }
        if !again {
            i += 1;
        }
    }
    (Trace { cfg: t.cfg.clone(), steps: best }, mis)
}

fn smaller(s: &Step) -> Vec<Step> {
    let mut out = vec![];
    if let Step::Via { s, k, tre, v, abort, fail } = s {
        if abort.is_some() || fail.is_some() {
            out.push(Step::Via { s: s.clone(), k: *k, tre: *tre, v: v.clone(), abort: None, fail: None });
        }
        if *tre {
            out.push(Step::Via { s: s.clone(), k: *k, tre: false, v: v.clone(), abort: *abort, fail: *fail });
        }
    }
    if let Step::Old { s, v, abort, fail } = s {
        if abort.is_some() || fail.is_some() {
            out.push(Step::Old { s: s.clone(), v: v.clone(), abort: None, fail: None });
        }
    }
    if let Step::Tx { s, acts, abort, fail } = s {
        let mk = |acts: Vec<Act>, abort: Option<u32>, fail: Option<u32>| Step::Tx { s: s.clone(), acts, abort, fail };
        if abort.is_some() || fail.is_some() {
            out.push(mk(acts.clone(), None, None));
        }
        if acts.len() > 1 {
            for i in 0..acts.len() {
                let mut a = acts.clone();
                a.remove(i);
                out.push(mk(a, *abort, *fail));
            }
        }
        for (i, a) in acts.iter().enumerate() {
            if let Act::Ex { to, m, funds } = a {
                let list = match &**m {
                    M::Propose { actions, .. } | M::ProposeNft { actions, .. } | M::CouncilPropose { actions } => actions.clone(),
                    M::C20Send { hook: Hook::Propose { actions, .. }, .. } => actions.clone(),
                    _ => continue,
                };
                for j in 0..list.len() {
                    let mut l = list.clone();
                    l.remove(j);
                    let mut m2 = m.clone();
                    match &mut *m2 {
                        M::Propose { actions, .. } | M::ProposeNft { actions, .. } | M::CouncilPropose { actions } => *actions = l,
                        M::C20Send { hook: Hook::Propose { actions, .. }, .. } => *actions = l,
                        _ => {}
                    }
                    let mut a2 = acts.clone();
                    a2[i] = Act::Ex { to: to.clone(), m: m2, funds: funds.clone() };
                    out.push(mk(a2, *abort, *fail));
                }
            }
        }
    }
    out
}

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    fnv(format!("{base}/{prop}/{i}").as_bytes())
}
