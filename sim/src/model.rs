//! The executable reference model: what every message is supposed to do, written against the
//! documented behaviour in terms of symbolic names, and independent of the contracts' code.
use crate::codes;
use crate::types::*;
use crate::xmodel::{Packet, Remote, Wait};
use std::collections::{BTreeMap, BTreeSet};

/// Why the model says a message has to be rejected, and which properties demand it.
#[derive(Clone, Debug)]
pub struct Why {
    pub tags: Vec<&'static str>,
    pub what: String,
}
pub type R<T = ()> = Result<T, Why>;

pub fn no<T>(tags: &[&'static str], what: impl Into<String>) -> R<T> {
    Err(Why { tags: tags.to_vec(), what: what.into() })
}
/// Combination the model does not describe: the generator drops such a step before it is sent.
fn unmodelled<T>(what: impl Into<String>) -> R<T> {
    no(&["?"], what)
}
macro_rules! ensure {
    ($c:expr, $tags:expr, $($w:tt)*) => {
        if !$c { return no(&$tags, format!($($w)*)); }
    };
}

pub const E18: u128 = 1_000_000_000_000_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Weights {
    pub w: BTreeMap<N, Amt>,
    pub total: Amt,
    /// (height, nanos, total after the change)
    pub hist: Vec<(u64, u64, Amt)>,
}
impl Weights {
    pub fn get(&self, n: &str) -> Amt {
        self.w.get(n).copied().unwrap_or(0)
    }
    fn set(&mut self, n: &str, v: Amt, h: u64, t: u64) -> (N, Amt, Amt) {
        let old = self.get(n);
        self.total = self.total - old + v;
        if v == 0 {
            self.w.remove(n);
        } else {
            self.w.insert(n.to_string(), v);
        }
        self.hist.push((h, t, self.total));
        (n.to_string(), old, v)
    }
    pub fn at_time(&self, nanos: u64) -> Amt {
        let s = nanos / SEC;
        self.hist.iter().rev().find(|(_, t, _)| t / SEC < s).map(|x| x.2).unwrap_or(0)
    }
    pub fn at_height(&self, h: u64) -> Amt {
        self.hist.iter().rev().find(|(x, _, _)| *x < h).map(|x| x.2).unwrap_or(0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Claim {
    pub user: N,
    pub amount: Amt,
    pub ids: Vec<String>,
    pub rel: Rel,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mem {
    pub wt: Weights,
    pub unlock: Dur,
    pub claims: Vec<Claim>,
    pub stakes: BTreeMap<String, N>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fin {
    Passed,
    NoQuorum,
    NoThreshold,
    Vetoed,
    Rejecting,
    Draw,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Deposit {
    pub owner: N,
    pub asset: Option<Asset>,
    pub amount: Amt,
    pub nft: Option<N>,
    pub ids: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    pub council: bool,
    pub proposer: N,
    pub actions: Vec<PA>,
    pub created: u64,
    pub ends: u64,
    pub quorum: u64,
    pub threshold: u64,
    pub veto: Option<u64>,
    pub deposit: Option<Deposit>,
    pub votes: BTreeMap<N, (u8, Amt)>,
    pub earliest: Option<u64>,
    /// (nanos, height)
    pub executed: Option<(u64, u64)>,
    pub fin: Option<Fin>,
    pub actions_ok: bool,
    /// the council votes of this proposal were rewritten by general weight changes
    pub tainted: bool,
}

impl Prop {
    pub fn tally(&self) -> [Amt; 4] {
        let mut t = [0; 4];
        for (o, x) in self.votes.values() {
            t[*o as usize] += x;
        }
        t
    }
    fn ge(part: Amt, whole: Amt, bp: u64) -> bool {
        if whole == 0 {
            return bp == 0;
        }
        part * 10_000 >= bp as u128 * whole
    }
    pub fn quorum_reached(&self, total: Amt) -> bool {
        Prop::ge(self.tally().iter().sum(), total, self.quorum)
    }
    fn winner(&self) -> Option<Fin> {
        let [yes, noo, abstain, veto] = self.tally();
        let _ = abstain;
        let all = yes + noo + veto;
        if Prop::ge(veto, all, self.veto.unwrap_or(self.threshold)) && all > 0 {
            return Some(Fin::Vetoed);
        }
        let y = all > 0 && Prop::ge(yes, all, self.threshold);
        let n = all > 0 && Prop::ge(noo, all, self.threshold);
        match (y, n) {
            (true, true) if yes == noo => Some(Fin::Draw),
            (true, true) if yes > noo => Some(Fin::Passed),
            (true, true) => Some(Fin::Rejecting),
            (true, false) => Some(Fin::Passed),
            (false, true) => Some(Fin::Rejecting),
            _ => None,
        }
    }
    pub fn outcome(&self, total: Amt) -> Fin {
        if !self.quorum_reached(total) {
            return Fin::NoQuorum;
        }
        self.winner().unwrap_or(Fin::NoThreshold)
    }
    /// What an ended proposal would look like now, as far as the early-execution delay cares.
    fn executability(&self, total: Amt) -> (u8, Amt) {
        match self.outcome(total) {
            Fin::NoQuorum | Fin::NoThreshold => (0, 0),
            Fin::Passed => (1, 0),
            Fin::Rejecting => (2, 0),
            Fin::Vetoed => (3, 0),
            Fin::Draw => (4, self.tally()[0]),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dist {
    pub w: BTreeMap<N, Amt>,
    pub eff: BTreeMap<N, Amt>,
    pub total: Amt,
    pub min: Amt,
    pub idx: BTreeMap<Asset, u128>,
    /// (index, pending)
    pub user: BTreeMap<(N, Asset), (u128, Amt)>,
    pub distributed: BTreeMap<Asset, Amt>,
    pub paid: BTreeMap<Asset, Amt>,
}
fn mul_floor(w: Amt, idx: u128) -> Amt {
    w * (idx / E18) + w * (idx % E18) / E18
}
impl Dist {
    pub fn reward(&self, user: &str, a: &Asset) -> Amt {
        let g = self.idx.get(a).copied().unwrap_or(0);
        let (i, p) = self.user.get(&(user.to_string(), a.clone())).copied().unwrap_or((0, 0));
        p + mul_floor(self.eff.get(user).copied().unwrap_or(0), g - i)
    }
    fn settle(&mut self, user: &str) {
        let assets: Vec<Asset> = self.idx.keys().cloned().collect();
        for a in assets {
            let r = self.reward(user, &a);
            let g = self.idx[&a];
            self.user.insert((user.to_string(), a), (g, r));
        }
    }
    fn init(&mut self, user: &str) {
        for (a, g) in self.idx.clone() {
            self.user.entry((user.to_string(), a)).or_insert((g, 0));
        }
    }
    fn set_eff(&mut self, user: &str, e: Amt) {
        let old = self.eff.insert(user.to_string(), e).unwrap_or(0);
        self.total = self.total - old + e;
    }
    pub fn update(&mut self, user: &str, w: Amt) {
        if self.w.contains_key(user) {
            self.settle(user);
        } else {
            self.init(user);
        }
        self.w.insert(user.to_string(), w);
        self.set_eff(user, if w >= self.min { w } else { 0 });
    }
    pub fn update_min(&mut self, min: Amt) {
        if min == self.min {
            return;
        }
        let (lo, hi) = (self.min.min(min), self.min.max(min));
        self.min = min;
        for (u, w) in self.w.clone() {
            if w >= lo && w < hi {
                self.settle(&u);
                self.set_eff(&u, if w >= min { w } else { 0 });
            }
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tre {
    pub admin: N,
    pub assets: BTreeSet<Asset>,
    pub nfts: BTreeSet<N>,
    pub legacy: Option<Legacy>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CouncilCfg {
    pub quorum: u64,
    pub threshold: u64,
    pub types: Vec<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out {
    pub proxies: BTreeMap<u8, N>,
    pub treasuries: BTreeMap<u8, N>,
    /// number of the expected report -> what it is about
    pub pending: BTreeMap<u32, Wait>,
    pub next: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dao {
    pub k: usize,
    pub kind: Kind,
    pub creator: N,
    pub denom: String,
    pub token: N,
    pub nft: N,
    /// ICS721 class, when the NFT contract is resolved through the transfer proxy
    pub ics: Option<String>,
    pub ics_nft: Option<N>,
    pub name: String,
    pub meta: Meta,
    pub version: Ver,
    pub versioning: N,
    pub factory: N,
    pub att: Option<N>,
    pub att_n: u32,
    pub gov: Gov,
    pub council: Option<CouncilCfg>,
    pub props: BTreeMap<u64, Prop>,
    pub mem: Mem,
    /// who is told about weight changes
    pub hooks: BTreeSet<N>,
    pub chooks: BTreeSet<N>,
    pub cmem: Weights,
    pub dist: Dist,
    pub tre: Tre,
    pub out: Out,
}

impl Dao {
    fn describe(&mut self, name: &Option<String>, f: &MetaChange) {
        if let Some(x) = name {
            self.name = x.clone();
        }
        for (i, x) in f {
            self.meta[*i as usize] = x.clone();
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Nfts {
    pub owner: BTreeMap<String, N>,
    pub approved: BTreeMap<String, BTreeSet<N>>,
    pub ops: BTreeSet<(N, N)>,
    pub minter: Option<N>,
}

/// Behaviour of the pinned tree that breaks a property and is recorded as a known finding. Each
/// flag is measured on the tree under test before the search starts.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Quirks {
    /// a general weight change overwrites the weight of open council votes of that member
    pub council_votes_rewritten: bool,
}

/// Whether the chain knows the code, of this kind.
fn code_of(code: u64, base: u64) -> bool {
    code % codes::VERSION_STRIDE == base && code / codes::VERSION_STRIDE <= 4
}

/// A registered release: which build each of its code ids comes from.
#[derive(Clone, Debug, PartialEq)]
pub struct Release {
    pub k: [u64; CODE_FIELDS.len()],
    pub log: String,
}
impl Release {
    pub fn code(&self, base: u64) -> u64 {
        let i = CODE_FIELDS.iter().position(|f| f.1 == base).expect("a code of a release");
        base + self.k[i] * codes::VERSION_STRIDE
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct TokInfo {
    pub minter: Option<(N, Option<Amt>)>,
    pub look: TokLook,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub now: u64,
    pub height: u64,
    pub bank: BTreeMap<(N, String), Amt>,
    pub tok: BTreeMap<N, BTreeMap<N, Amt>>,
    pub nft: BTreeMap<N, Nfts>,
    pub cw3: BTreeMap<N, Vec<(N, Amt)>>,
    pub ext: u64,
    pub old: Option<crate::old::OldDao>,
    pub ver_admin: N,
    pub releases: BTreeMap<Ver, Release>,
    pub fac_admin: N,
    pub fac_versioning: N,
    pub fac_cw20: u64,
    pub fac_cw721: u64,
    pub global_assets: BTreeSet<Asset>,
    pub global_nfts: Vec<N>,
    /// another factory, and another registry that never changes
    pub global2: BTreeSet<Asset>,
    pub releases2: BTreeMap<Ver, Release>,
    /// tokens somebody can mint, and what they say about themselves
    pub tinfo: BTreeMap<N, TokInfo>,
    pub ninfo: BTreeMap<N, u8>,
    /// weights reported to the external contract
    pub ext_w: BTreeMap<(N, N), Amt>,
    pub daos: Vec<Dao>,
    pub atts: BTreeMap<N, BTreeSet<N>>,
    pub att_text: BTreeMap<N, String>,
    pub code: BTreeMap<N, u64>,
    pub classes: BTreeMap<String, N>,
    pub ics_class_seen: bool,
    pub remotes: Vec<Remote>,
    pub packets: Vec<Packet>,
    pub quirks: Quirks,
    // bookkeeping of the current transaction
    pub act_calls: u32,
    pub force_fail: Option<u32>,
    pub ev: Vec<(&'static str, String)>,
    pub exec_log: Vec<(usize, u64)>,
    /// council votes that a report of an unchanged weight may or may not have rewritten (K1)
    pub unclear: Vec<(usize, u64, N, Amt)>,
}

pub fn part(n: &str) -> Option<(usize, &str)> {
    let r = n.strip_prefix('d')?;
    let (k, p) = r.split_once('.')?;
    Some((k.parse().ok()?, p))
}
pub fn valid(n: &str) -> bool {
    !n.starts_with("bad") && !n.starts_with('r')
}

pub const COUNCIL_TYPES: [&str; 5] = [
    "update_metadata",
    "update_asset_whitelist",
    "update_nft_whitelist",
    "upgrade_dao",
    "deploy_cross_chain_treasury",
];
pub fn pa_type(p: &PA) -> &'static str {
    match p {
        PA::Meta { .. } => "update_metadata",
        PA::Gov(_) => "update_gov_config",
        PA::Council(_) => "update_council",
        PA::Assets { .. } => "update_asset_whitelist",
        PA::Nfts { .. } => "update_nft_whitelist",
        PA::Fund { .. } => "request_funding_from_dao",
        PA::Upgrade { .. } => "upgrade_dao",
        PA::Exec(_) => "execute_msgs",
        PA::TreExec { .. } => "execute_treasury_msgs",
        PA::EntExec(_) => "execute_enterprise_msgs",
        PA::Multisig(_) => "modify_multisig_membership",
        PA::Dist(_) => "distribute_funds",
        PA::MinWeight(_) => "update_minimum_weight_for_rewards",
        PA::DeployX { .. } => "deploy_cross_chain_treasury",
    }
}

fn asset_ok(a: &Asset) -> bool {
    match a {
        Asset::Nat(_) => true,
        Asset::Cw20(n) | Asset::Cw1155(n, _) => valid(n),
    }
}
fn dup<T: Ord + Clone>(v: &[T]) -> bool {
    let s: BTreeSet<T> = v.iter().cloned().collect();
    s.len() != v.len()
}
fn ratio_ok(x: u64) -> bool {
    x > 0 && x <= 10_000
}
fn gov_ok(g: &Gov, kind: Kind) -> R {
    ensure!(g.duration > 0, ["P01"], "zero vote duration");
    ensure!(ratio_ok(g.quorum), ["P01"], "quorum {}", g.quorum);
    ensure!(ratio_ok(g.threshold), ["P01"], "threshold {}", g.threshold);
    if let Some(v) = g.veto {
        ensure!(ratio_ok(v), ["P01"], "veto threshold {v}");
    }
    ensure!(!(kind == Kind::Multisig && g.min_deposit.is_some()), ["P01", "G06"], "minimum deposit in a multisig DAO");
    Ok(())
}
fn council_ok(c: &Option<Council>) -> R<Option<CouncilCfg>> {
    let c = match c {
        None => return Ok(None),
        Some(c) => c,
    };
    ensure!(c.members.iter().all(|m| valid(m)), ["C01"], "invalid council member address");
    ensure!(!dup(&c.members), ["C01"], "duplicate council member");
    if let Some(t) = &c.types {
        for x in t {
            ensure!(COUNCIL_TYPES.contains(&x.as_str()), ["C01"], "council may not be allowed {x}");
        }
    }
    ensure!(ratio_ok(c.quorum) && ratio_ok(c.threshold), ["C01", "P01"], "council quorum/threshold");
    Ok(Some(CouncilCfg {
        quorum: c.quorum,
        threshold: c.threshold,
        types: c.types.clone().unwrap_or_else(|| vec!["upgrade_dao".to_string()]),
    }))
}
fn apply_gov(g: &Gov, c: &GovChange) -> Gov {
    Gov {
        quorum: c.quorum.unwrap_or(g.quorum),
        threshold: c.threshold.unwrap_or(g.threshold),
        veto: c.veto.unwrap_or(g.veto),
        duration: c.duration.unwrap_or(g.duration),
        min_deposit: c.min_deposit.unwrap_or(g.min_deposit),
        early: c.early.unwrap_or(g.early),
    }
}
fn multisig_edit_ok(kind: Kind, v: &[(N, Amt)]) -> R {
    ensure!(kind == Kind::Multisig, ["G07"], "membership edit in a non-multisig DAO");
    ensure!(v.iter().all(|x| valid(&x.0)), ["G07"], "invalid member address");
    ensure!(!dup(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), ["G07"], "duplicate member edit");
    Ok(())
}

enum Sub {
    A(Act),
    Meta { name: Option<String>, f: MetaChange },
}

impl Model {
    pub fn new() -> Model {
        Model {
            now: 0,
            height: 0,
            bank: BTreeMap::new(),
            tok: BTreeMap::new(),
            nft: BTreeMap::new(),
            cw3: BTreeMap::new(),
            ext: 0,
            old: None,
            ver_admin: "admin".into(),
            releases: BTreeMap::new(),
            fac_admin: "admin".into(),
            fac_versioning: "ver".into(),
            fac_cw20: codes::CW20,
            fac_cw721: codes::CW721,
            global_assets: BTreeSet::new(),
            global_nfts: vec![],
            global2: BTreeSet::new(),
            releases2: BTreeMap::new(),
            tinfo: BTreeMap::new(),
            ninfo: BTreeMap::new(),
            ext_w: BTreeMap::new(),
            att_text: BTreeMap::new(),
            daos: vec![],
            atts: BTreeMap::new(),
            code: BTreeMap::new(),
            classes: BTreeMap::new(),
            ics_class_seen: false,
            remotes: vec![],
            packets: vec![],
            quirks: Quirks::default(),
            act_calls: 0,
            force_fail: None,
            ev: vec![],
            unclear: vec![],
            exec_log: vec![],
        }
    }
    pub fn bal(&self, n: &str, d: &str) -> Amt {
        self.bank.get(&(n.to_string(), d.to_string())).copied().unwrap_or(0)
    }
    pub fn credit(&mut self, n: &str, d: &str, x: Amt) {
        if x > 0 {
            *self.bank.entry((n.to_string(), d.to_string())).or_insert(0) += x;
        }
    }
    pub fn mv(&mut self, from: &str, to: &str, d: &str, x: Amt, tags: &[&'static str]) -> R {
        if x == 0 {
            return no(tags, "zero coin");
        }
        let b = self.bal(from, d);
        if b < x {
            return no(tags, format!("{from} has {b}{d}, needs {x}"));
        }
        self.bank.insert((from.to_string(), d.to_string()), b - x);
        self.credit(to, d, x);
        Ok(())
    }
    pub fn tbal(&self, t: &str, n: &str) -> Amt {
        self.tok.get(t).and_then(|b| b.get(n)).copied().unwrap_or(0)
    }
    fn tmv(&mut self, t: &str, from: &str, to: &str, x: Amt) -> R {
        ensure!(valid(to), ["S01"], "invalid recipient");
        let b = self.tbal(t, from);
        ensure!(b >= x, ["S01"], "{from} has {b} {t}, needs {x}");
        let m = self.tok.get_mut(t).unwrap();
        m.insert(from.to_string(), b - x);
        *m.entry(to.to_string()).or_insert(0) += x;
        Ok(())
    }
    fn nmv(&mut self, c: &str, s: &str, to: &str, id: &str) -> R {
        ensure!(valid(to), ["S01"], "invalid recipient");
        let m = self.nft.get_mut(c).unwrap();
        let owner = match m.owner.get(id) {
            Some(o) => o.clone(),
            None => return no(&["S01"], format!("no token {id}")),
        };
        let may = owner == s
            || m.approved.get(id).map(|a| a.contains(s)).unwrap_or(false)
            || m.ops.contains(&(owner.clone(), s.to_string()));
        ensure!(may, ["S01"], "{s} may not move token {id}");
        m.approved.remove(id);
        m.owner.insert(id.to_string(), to.to_string());
        Ok(())
    }
    pub fn restricted(&self, d: usize, n: &str) -> bool {
        match &self.daos[d].att {
            None => false,
            Some(a) => !self.atts[a].contains(n),
        }
    }
    fn unrestricted(&mut self, d: usize, n: &str, what: &str) -> R {
        if self.restricted(d, n) {
            self.e("R01", format!("{what} refused"));
            return no(&["R01"], format!("{n} has not signed the attestation"));
        }
        if self.daos[d].att.is_some() {
            self.e("R01", format!("{what} allowed"));
        }
        Ok(())
    }
    pub fn e(&mut self, tag: &'static str, sig: impl Into<String>) {
        self.ev.push((tag, sig.into()));
    }
    pub fn advance(&mut self, blocks: u64, nanos: u64) {
        self.height += blocks;
        self.now += nanos;
    }

    // ------------------------------------------------------------ transactions
    /// One atomic transaction. On failure the state is unchanged.
    pub fn start(&mut self) {
        self.act_calls = 0;
        self.ev.clear();
        self.exec_log.clear();
        self.unclear.clear();
    }
    pub fn tx(&mut self, sender: &str, acts: &[Act]) -> R {
        self.start();
        let save = self.clone();
        for a in acts {
            if let Err(w) = self.act(sender, a) {
                let ev = std::mem::take(&mut self.ev);
                *self = save;
                self.ev = ev;
                return Err(w);
            }
        }
        Ok(())
    }

    pub fn act(&mut self, s: &str, a: &Act) -> R {
        match a {
            Act::Bank { to, coins } => {
                ensure!(valid(to), ["T01"], "invalid recipient");
                ensure!(!coins.is_empty(), ["T01"], "empty send");
                for (d, x) in coins {
                    self.mv(s, to, d, *x, &["T01", "S01"])?;
                }
                Ok(())
            }
            Act::Ex { to, m, funds } => {
                ensure!(self.is_contract(to), ["A01"], "{to} is not a contract");
                for (d, x) in funds {
                    self.mv(s, to, d, *x, &["T01", "S01"])?;
                }
                self.call(s, to, m, funds)
            }
            Act::Migrate { c, code } => self.migrate(s, c, *code),
            Act::Garbage => no(&["G07"], "not a message"),
        }
    }

    pub fn is_contract(&self, n: &str) -> bool {
        if let Some((k, p)) = part(n) {
            if k >= self.daos.len() {
                return false;
            }
            return match p {
                "ent" | "ctl" | "gov" | "mem" | "cmem" | "tre" | "dist" | "out" => true,
                _ => self.tok.contains_key(n) || self.nft.contains_key(n) || self.atts.contains_key(n),
            };
        }
        matches!(n, "ext" | "ver" | "ver2" | "fac" | "fac2" | "ent0" | "ics721" | "ics721cb" | "facade")
            || self.tok.contains_key(n)
            || self.nft.contains_key(n)
            || self.cw3.contains_key(n)
    }

    fn migrate(&mut self, s: &str, c: &str, code: u64) -> R {
        let (k, p) = match part(c) {
            Some(x) => x,
            None => return no(&["A01", "U01"], "not a component"),
        };
        ensure!(k < self.daos.len(), ["A01"], "no such contract");
        ensure!(s == format!("d{k}.ent"), ["A01", "U01"], "{s} is not the migration admin of {c}");
        let base = code % codes::VERSION_STRIDE;
        let fit = match p {
            "mem" => base == self.mem_code(k),
            "cmem" => base == codes::MULTISIG,
            "dist" => base == codes::DISTRIBUTOR,
            "out" => base == codes::OUTPOSTS,
            "ctl" => base == codes::CONTROLLER,
            "tre" => base == codes::TREASURY,
            // needs to be told who is in charge
            "gov" if base == codes::GOVERNANCE => return no(&["A01", "U01"], "migration of the polls without an administrator"),
            "ent" if base == codes::ENTERPRISE => {
                self.code.insert(c.to_string(), code);
                return self.migrate_parts(k);
            }
            _ if self.atts.contains_key(c) => return no(&["A01", "R01"], "an attestation cannot be changed"),
            _ => return unmodelled("raw migration of this component"),
        };
        if !fit {
            return unmodelled("raw migration to another kind of contract");
        }
        self.code.insert(c.to_string(), code);
        Ok(())
    }
    /// The registry at an address.
    pub fn reg(&self, n: &str) -> Option<&BTreeMap<Ver, Release>> {
        match n {
            "ver" => Some(&self.releases),
            "ver2" => Some(&self.releases2),
            _ => None,
        }
    }
    /// What every migration of the main contract of a DAO does to its components.
    fn migrate_parts(&mut self, k: usize) -> R {
        let base = match self.reg(&self.daos[k].versioning).and_then(|r| r.get(&(1, 2, 1))) {
            None => return no(&["U01"], "release with component code ids missing"),
            Some(r) => r.clone(),
        };
        let mc = self.mem_code(k);
        self.code.insert(format!("d{k}.out"), base.code(codes::OUTPOSTS));
        self.code.insert(format!("d{k}.dist"), base.code(codes::DISTRIBUTOR));
        self.code.insert(format!("d{k}.mem"), base.code(mc));
        self.code.insert(format!("d{k}.cmem"), base.code(codes::MULTISIG));
        Ok(())
    }
    fn mem_code(&self, k: usize) -> u64 {
        match self.daos[k].kind {
            Kind::Denom => codes::DENOM_STAKING,
            Kind::Token => codes::TOKEN_STAKING,
            Kind::Nft => codes::NFT_STAKING,
            Kind::Multisig => codes::MULTISIG,
        }
    }

    fn call(&mut self, s: &str, to: &str, m: &M, funds: &[(String, Amt)]) -> R {
        if self.tok.contains_key(to) {
            return self.cw20(s, to, m);
        }
        if self.nft.contains_key(to) {
            return self.cw721(s, to, m);
        }
        if let Some((k, p)) = part(to) {
            if self.atts.contains_key(to) {
                return match m {
                    M::Sign => {
                        self.atts.get_mut(to).unwrap().insert(s.to_string());
                        Ok(())
                    }
                    _ => no(&["A01"], "unknown message"),
                };
            }
            return match p {
                "ctl" => self.controller(k, s, m, funds),
                "gov" => self.polls(k, s, m),
                "mem" => self.membership(k, s, m, funds),
                "cmem" => self.council_mem(k, s, m),
                "dist" => self.distributor(k, s, m, funds),
                "tre" => self.treasury(k, s, m),
                "ent" => self.enterprise(k, s, m),
                "out" => self.outposts(k, s, m),
                _ => unmodelled("contract"),
            };
        }
        match to {
            "ext" => match m {
                M::Bump => {
                    self.ext += 1;
                    Ok(())
                }
                M::Fail => no(&["G04"], "external contract fails"),
                M::Forward(v) => {
                    for a in v {
                        self.act("ext", a)?;
                    }
                    Ok(())
                }
                _ => no(&["A01"], "unknown message"),
            },
            "ver" => self.versioning(s, m),
            "fac" => self.factory(s, m),
            "ent0" if s == "admin" => unmodelled("the creator finishes it"),
            "ent0" => no(&["A01", "F01"], "only its creator finishes a DAO contract"),
            "ics721" => match m {
                M::IcsRegister { class, nft } => {
                    self.classes.insert(class.clone(), nft.clone());
                    Ok(())
                }
                M::IcsForward(v) => {
                    for a in v {
                        self.act("ics721", a)?;
                    }
                    Ok(())
                }
                _ => unmodelled("ics721"),
            },
            "ics721cb" => self.ics_callback(s, m),
            _ => unmodelled(format!("call of {to}")),
        }
    }

    // ------------------------------------------------------------ third party tokens
    fn cw20(&mut self, s: &str, t: &str, m: &M) -> R {
        match m {
            M::C20Transfer { to, amount } => self.tmv(t, s, to, *amount),
            M::C20Send { to, amount, hook } => {
                self.tmv(t, s, to, *amount)?;
                ensure!(self.is_contract(to), ["S01"], "send to an account");
                self.receive20(to, t, s, *amount, hook)
            }
            M::C20Mint { to, amount } => {
                let (minter, cap) = match self.tinfo.get(t).and_then(|i| i.minter.clone()) {
                    None => return no(&["F01"], "no minter"),
                    Some(x) => x,
                };
                ensure!(s == minter, ["F01"], "{s} may not mint");
                ensure!(valid(to), ["F01"], "invalid recipient");
                let all: Amt = self.tok[t].values().sum::<Amt>() + amount;
                ensure!(cap.map(|c| all <= c).unwrap_or(true), ["F01"], "above the cap");
                self.e("F01", format!("mint by dao={}", part(s).is_some()));
                *self.tok.get_mut(t).unwrap().entry(to.clone()).or_insert(0) += amount;
                Ok(())
            }
            _ => no(&["S01"], "unknown message"),
        }
    }
    fn receive20(&mut self, to: &str, tok: &str, from: &str, amount: Amt, hook: &Hook) -> R {
        match part(to) {
            Some((k, "mem")) => self.mem_receive20(k, tok, from, amount, hook),
            Some((k, "ctl")) => {
                let d = &self.daos[k];
                match hook {
                    Hook::Propose { owner, actions } => {
                        ensure!(d.kind == Kind::Token && d.token == tok, ["G06", "G07"], "deposit in a foreign token");
                        let dep = Deposit {
                            owner: owner.clone().unwrap_or(from.to_string()),
                            asset: Some(Asset::Cw20(tok.to_string())),
                            amount,
                            nft: None,
                            ids: vec![],
                        };
                        ensure!(valid(&dep.owner), ["G06"], "invalid deposit owner");
                        self.create_proposal(k, from, actions, Some(dep)).map(|_| ())
                    }
                    _ => no(&["G06"], "unknown hook"),
                }
            }
            Some((k, "dist")) => match hook {
                Hook::Distribute => self.distribute(k, &[(Asset::Cw20(tok.to_string()), amount)]),
                _ => no(&["D03"], "unknown hook"),
            },
            _ => no(&["S01"], "token receiver"),
        }
    }
    fn cw721(&mut self, s: &str, c: &str, m: &M) -> R {
        match m {
            M::NftTransfer { to, id } => self.nmv(c, s, to, id),
            M::NftSend { to, id, hook } => {
                self.nmv(c, s, to, id)?;
                ensure!(self.is_contract(to), ["S01"], "send to an account");
                match part(to) {
                    Some((k, "mem")) => self.mem_receive721(k, c, s, id, hook),
                    _ if to == "ext" => Ok(()),
                    _ => no(&["S01"], "token receiver"),
                }
            }
            M::NftApprove { spender, id } | M::NftRevoke { spender, id } => {
                ensure!(valid(spender), ["S01"], "invalid spender");
                let x = self.nft.get_mut(c).unwrap();
                let owner = match x.owner.get(id) {
                    Some(o) => o.clone(),
                    None => return no(&["S01"], "no such token"),
                };
                ensure!(owner == s || x.ops.contains(&(owner.clone(), s.to_string())), ["S01"], "not the owner");
                let set = x.approved.entry(id.clone()).or_default();
                if matches!(m, M::NftApprove { .. }) {
                    set.insert(spender.clone());
                } else {
                    set.remove(spender);
                }
                Ok(())
            }
            M::NftApproveAll { operator } => {
                ensure!(valid(operator), ["S01"], "invalid operator");
                self.nft.get_mut(c).unwrap().ops.insert((s.to_string(), operator.clone()));
                Ok(())
            }
            M::NftMint { id, owner } => {
                let x = self.nft.get_mut(c).unwrap();
                match &x.minter {
                    None => return unmodelled("minter"),
                    Some(m) => ensure!(m == s, ["S01", "F01"], "not the minter"),
                }
                ensure!(valid(owner), ["S01"], "invalid owner");
                ensure!(!x.owner.contains_key(id), ["S01"], "already minted");
                x.owner.insert(id.clone(), owner.clone());
                Ok(())
            }
            _ => no(&["S01"], "unknown message"),
        }
    }

    // ------------------------------------------------------------ memberships
    fn release(&self, d: Dur) -> Rel {
        match d {
            Dur::Time(s) => Rel::Time(self.now + s * SEC),
            Dur::Height(h) => Rel::Height(self.height + h),
        }
    }
    pub fn mature(&self, r: Rel) -> bool {
        match r {
            Rel::Time(t) => self.now >= t,
            Rel::Height(h) => self.height >= h,
        }
    }
    fn set_weight(&mut self, k: usize, n: &str, v: Amt) -> (N, Amt, Amt) {
        let (h, t) = (self.height, self.now);
        self.daos[k].mem.wt.set(n, v, h, t)
    }
    fn from_ctl(&self, k: usize, s: &str, what: &str) -> R {
        ensure!(s == format!("d{k}.ctl"), ["A01"], "{s} may not {what}");
        Ok(())
    }

    fn membership(&mut self, k: usize, s: &str, m: &M, funds: &[(String, Amt)]) -> R {
        let kind = self.daos[k].kind;
        match m {
            M::FakeC20 { from, amount, hook } if kind == Kind::Token => {
                self.mem_receive20(k, s, from, *amount, hook)
            }
            M::FakeNft { from, id, hook } if kind == Kind::Nft => self.mem_receive721(k, s, from, id, hook),
            M::Stake { user } if kind == Kind::Denom => {
                let denom = self.daos[k].denom.clone();
                let u = user.clone().unwrap_or(s.to_string());
                ensure!(funds.len() == 1 && funds[0].0 == denom, ["S01"], "stake of the wrong coins");
                ensure!(valid(&u), ["S01"], "invalid user");
                self.unrestricted(k, &u, "stake denom")?;
                let w = self.daos[k].mem.wt.get(&u) + funds[0].1;
                let ch = self.set_weight(k, &u, w);
                self.e("S01", format!("stake denom self={}", u == s));
                self.weights_changed(k, vec![ch])
            }
            M::Unstake { amount } if kind == Kind::Denom || kind == Kind::Token => {
                let w = self.daos[k].mem.wt.get(s);
                ensure!(w >= *amount, ["S01"], "{s} staked {w}, unstakes {amount}");
                let ch = self.set_weight(k, s, w - amount);
                let rel = self.release(self.daos[k].mem.unlock);
                self.daos[k].mem.claims.push(Claim { user: s.to_string(), amount: *amount, ids: vec![], rel });
                self.e("S02", format!("unstake {kind:?} part={} zero={}", *amount < w, *amount == 0));
                self.weights_changed(k, vec![ch])
            }
            M::UnstakeNft { ids } if kind == Kind::Nft => {
                let w = self.daos[k].mem.wt.get(s);
                for id in ids {
                    let st = &mut self.daos[k].mem.stakes;
                    ensure!(st.get(id).map(|o| o == s).unwrap_or(false), ["S01"], "{s} has not staked {id}");
                    st.remove(id);
                }
                let ch = self.set_weight(k, s, w - ids.len() as u128);
                let rel = self.release(self.daos[k].mem.unlock);
                self.daos[k].mem.claims.push(Claim {
                    user: s.to_string(),
                    amount: 0,
                    ids: ids.clone(),
                    rel,
                });
                self.e("S02", format!("unstake nft n={}", ids.len().min(3)));
                self.weights_changed(k, vec![ch])
            }
            M::Claim { user } if kind != Kind::Multisig => {
                let u = user.clone().unwrap_or(s.to_string());
                ensure!(valid(&u), ["S02"], "invalid user");
                ensure!(u == s, ["S02", "A01"], "claim on behalf of someone else");
                let all = std::mem::take(&mut self.daos[k].mem.claims);
                let (rel, keep): (Vec<Claim>, Vec<Claim>) =
                    all.into_iter().partition(|c| c.user == u && self.mature(c.rel));
                let left = keep.iter().filter(|c| c.user == u).count().min(2);
                self.daos[k].mem.claims = keep;
                let sum: Amt = rel.iter().map(|c| c.amount).sum();
                let mem = format!("d{k}.mem");
                self.e("S02", format!("claim {kind:?} n={} left={left}", rel.len().min(3)));
                match kind {
                    Kind::Denom => {
                        let denom = self.daos[k].denom.clone();
                        self.mv(&mem, &u, &denom, sum, &["S02", "S01"])
                    }
                    Kind::Token => {
                        let t = self.daos[k].token.clone();
                        self.tmv(&t, &mem, &u, sum)
                    }
                    _ => {
                        let c = match self.nft_contract(k) {
                            Some(c) => c,
                            None => return no(&["S02", "I01"], "NFT contract unknown"),
                        };
                        for r in rel {
                            for id in r.ids {
                                self.nmv(&c, &mem, &u, &id)?;
                            }
                        }
                        Ok(())
                    }
                }
            }
            M::SetUnlocking { d } if kind != Kind::Multisig => {
                self.from_ctl(k, s, "change the unlocking period")?;
                if let Some(d) = d {
                    self.daos[k].mem.unlock = *d;
                }
                Ok(())
            }
            M::UpdateMembers(v) if kind == Kind::Multisig => {
                self.from_ctl(k, s, "change members")?;
                ensure!(v.iter().all(|x| valid(&x.0)), ["M01"], "invalid member");
                if dup(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) {
                    return unmodelled("duplicate member in a raw update");
                }
                let mut ch = vec![];
                for (n, w) in v {
                    ch.push(self.set_weight(k, n, *w));
                }
                self.weights_changed(k, ch)
            }
            M::SetMembers(v) if kind == Kind::Multisig => {
                self.from_ctl(k, s, "set members")?;
                ensure!(v.iter().all(|x| valid(&x.0)), ["M01"], "invalid member");
                ensure!(!dup(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), ["M01"], "duplicate member");
                let mut ch = vec![];
                let old: Vec<N> = self.daos[k].mem.wt.w.keys().cloned().collect();
                for n in old {
                    if !v.iter().any(|x| x.0 == n) {
                        ch.push(self.set_weight(k, &n, 0));
                    }
                }
                for (n, w) in v {
                    ch.push(self.set_weight(k, n, *w));
                }
                // former members whose weight was zero already: whether they are reported again is open
                let voters: std::collections::BTreeSet<N> =
                    self.daos[k].props.values().filter(|p| p.council).flat_map(|p| p.votes.keys().cloned()).collect();
                for u in voters {
                    if !ch.iter().any(|x| x.0 == u) {
                        ch.push((u, 0, 0));
                    }
                }
                self.e("M02", "set members".to_string());
                self.weights_changed(k, ch)
            }
            M::AddHook { hook } | M::RemoveHook { hook } => {
                self.from_ctl(k, s, "change hooks")?;
                ensure!(valid(hook), ["A01"], "invalid hook");
                self.e("M02", format!("hook add={} own={}", matches!(m, M::AddHook { .. }), *hook == format!("d{k}.ctl")));
                match m {
                    M::AddHook { .. } => self.daos[k].hooks.insert(hook.clone()),
                    _ => self.daos[k].hooks.remove(hook),
                };
                Ok(())
            }
            _ => no(&["A01"], "unknown message"),
        }
    }

    fn mem_receive20(&mut self, k: usize, tok: &str, from: &str, amount: Amt, hook: &Hook) -> R {
        ensure!(self.daos[k].kind == Kind::Token && self.daos[k].token == tok, ["S01", "A01"], "foreign token");
        let _ = from;
        match hook {
            Hook::Stake { user } => {
                ensure!(valid(user), ["S01"], "invalid user");
                self.unrestricted(k, user, "stake token")?;
                let w = self.daos[k].mem.wt.get(user) + amount;
                let ch = self.set_weight(k, user, w);
                self.e("S01", format!("stake token self={}", user == from));
                self.weights_changed(k, vec![ch])
            }
            Hook::AddStakes(v) => {
                let mut ch = vec![];
                let mut sum = 0;
                for (u, x) in v {
                    if *x == 0 {
                        continue;
                    }
                    ensure!(valid(u), ["S01"], "invalid user");
                    self.unrestricted(k, u, "add stakes")?;
                    let w = self.daos[k].mem.wt.get(u) + x;
                    ch.push(self.set_weight(k, u, w));
                    sum += x;
                }
                self.e("S01", format!("add stakes eq={}", sum == amount));
                ensure!(sum == amount, ["S01"], "stakes add up to {sum}, sent {amount}");
                self.weights_changed(k, ch)
            }
            Hook::AddClaims(v) => {
                let mut sum = 0;
                for (u, x, r) in v {
                    ensure!(valid(u), ["S02"], "invalid user");
                    sum += x;
                    self.daos[k].mem.claims.push(Claim { user: u.clone(), amount: *x, ids: vec![], rel: *r });
                }
                self.e("S02", format!("add claims eq={}", sum == amount));
                ensure!(sum == amount, ["S01", "S02"], "claims add up to {sum}, sent {amount}");
                Ok(())
            }
            _ => no(&["S01"], "unknown hook"),
        }
    }

    pub fn nft_contract(&self, k: usize) -> Option<N> {
        let d = &self.daos[k];
        if d.ics.is_some() {
            d.ics_nft.clone()
        } else {
            Some(d.nft.clone())
        }
    }

    /// The NFT contract as far as anyone can tell: the bridge may know it before the DAO has seen one.
    pub fn known_nft(&self, k: usize) -> Option<N> {
        self.nft_contract(k).or_else(|| self.daos[k].ics.as_ref().and_then(|c| self.classes.get(c).cloned()))
    }
    fn mem_receive721(&mut self, k: usize, c: &str, from: &str, id: &str, hook: &Hook) -> R {
        ensure!(self.daos[k].kind == Kind::Nft, ["S01", "A01"], "unknown message");
        if self.daos[k].ics.is_some() && self.daos[k].ics_nft.is_none() {
            let class = self.daos[k].ics.clone().unwrap();
            match self.classes.get(&class).cloned() {
                None => return no(&["S01", "I01"], "NFT contract not known yet"),
                Some(n) => self.daos[k].ics_nft = Some(n),
            }
        }
        ensure!(self.nft_contract(k).as_deref() == Some(c), ["S01", "A01", "I01"], "foreign NFT");
        match hook {
            Hook::Stake { user } => {
                ensure!(valid(user), ["S01"], "invalid user");
                self.unrestricted(k, user, "stake nft")?;
                ensure!(!self.daos[k].mem.stakes.contains_key(id), ["S01"], "already staked");
                self.daos[k].mem.stakes.insert(id.to_string(), user.clone());
                let w = self.daos[k].mem.wt.get(user) + 1;
                let ch = self.set_weight(k, user, w);
                self.e("S01", format!("stake nft self={}", user == from));
                self.weights_changed(k, vec![ch])
            }
            Hook::AddNftClaim { user, release } => {
                ensure!(valid(user), ["S02"], "invalid user");
                if self.daos[k].mem.stakes.contains_key(id) {
                    return unmodelled("claim of a staked token");
                }
                self.daos[k].mem.claims.push(Claim {
                    user: user.clone(),
                    amount: 0,
                    ids: vec![id.to_string()],
                    rel: *release,
                });
                Ok(())
            }
            _ => no(&["S01"], "unknown hook"),
        }
    }

    fn council_mem(&mut self, k: usize, s: &str, m: &M) -> R {
        let (h, t) = (self.height, self.now);
        let before = self.daos[k].cmem.w.clone();
        match m {
            M::UpdateMembers(v) | M::SetMembers(v) => {
                ensure!(s == format!("d{k}.ctl"), ["A01", "C01"], "{s} may not change the council");
                ensure!(v.iter().all(|x| valid(&x.0)), ["M01"], "invalid member");
                if matches!(m, M::SetMembers(_)) {
                    ensure!(!dup(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), ["M01"], "duplicate member");
                    let old: Vec<N> = self.daos[k].cmem.w.keys().cloned().collect();
                    for n in old {
                        self.daos[k].cmem.set(&n, 0, h, t);
                    }
                    // the snapshot exists even if the set is empty
                    let tot = self.daos[k].cmem.total;
                    self.daos[k].cmem.hist.push((h, t, tot));
                } else if dup(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) {
                    return unmodelled("duplicate member in a raw update");
                }
                for (n, w) in v {
                    self.daos[k].cmem.set(n, *w, h, t);
                }
                let ch: Vec<(N, Amt, Amt)> = self.daos[k]
                    .cmem
                    .w
                    .iter()
                    .map(|(n, w)| (n.clone(), *w, before.get(n).copied().unwrap_or(0)))
                    .map(|(n, w, o)| (n, o, w))
                    .chain(before.iter().filter(|x| !self.daos[k].cmem.w.contains_key(x.0)).map(|x| (x.0.clone(), *x.1, 0)))
                    .collect();
                self.tell(&format!("d{k}.cmem"), &self.daos[k].chooks.clone(), &format!("d{k}.ctl"), &ch)
            }
            M::AddHook { hook } | M::RemoveHook { hook } => {
                self.from_ctl(k, s, "change hooks")?;
                ensure!(valid(hook), ["A01"], "invalid hook");
                match m {
                    M::AddHook { .. } => self.daos[k].chooks.insert(hook.clone()),
                    _ => self.daos[k].chooks.remove(hook),
                };
                Ok(())
            }
            _ => no(&["A01"], "unknown message"),
        }
    }

    /// Everyone who asked hears of weight changes; one who cannot take it stops them.
    fn tell(&mut self, from: &str, hooks: &BTreeSet<N>, own: &str, ch: &[(N, Amt, Amt)]) -> R {
        for h in hooks {
            if h == "ext" {
                for (u, o, w) in ch {
                    if o != w {
                        self.ext_w.insert((from.to_string(), u.clone()), *w);
                    }
                }
                self.e("M02", "reported to another contract");
            } else if h != own {
                return no(&["M02"], format!("{h} cannot be told about weights"));
            }
        }
        Ok(())
    }
    /// Membership weight changes reach open votes and the reward bookkeeping.
    fn weights_changed(&mut self, k: usize, ch: Vec<(N, Amt, Amt)>) -> R {
        let own = format!("d{k}.ctl");
        let hooks = self.daos[k].hooks.clone();
        self.tell(&format!("d{k}.mem"), &hooks, &own, &ch)?;
        if !hooks.contains(&own) {
            return Ok(());
        }
        let now = self.now;
        let rewritten = self.quirks.council_votes_rewritten;
        let mut sigs = vec![];
        let kind = self.daos[k].kind;
        for (_, o, w) in ch.iter().filter(|x| x.1 != x.2) {
            self.e("M01", format!("{kind:?} up={} to_zero={} from_zero={}", w > o, *w == 0, *o == 0));
        }
        let mut unclear = vec![];
        for (u, o, w) in &ch {
            for (id, p) in self.daos[k].props.iter_mut() {
                if p.fin.is_some() || p.ends <= now {
                    continue;
                }
                if p.council && !rewritten {
                    continue;
                }
                if let Some(v) = p.votes.get_mut(u) {
                    if p.council && v.1 != *w {
                        if o == w {
                            unclear.push((k, *id, u.clone(), v.1));
                        }
                        p.tainted = true;
                    }
                    sigs.push(format!("open vote up={} zero={} council={}", *w > v.1, *w == 0, p.council));
                    v.1 = *w;
                }
            }
        }
        self.unclear.extend(unclear);
        for s in sigs {
            self.e("M02", s);
        }
        for (u, o, w) in &ch {
            if *o == 0 && *w == 0 {
                continue;
            }
            let d = &mut self.daos[k].dist;
            let sig = format!("reward weight seen={} eligible={} assets={}", d.w.contains_key(u), *w >= d.min, d.idx.len().min(3));
            d.update(u, *w);
            self.e("M02", sig);
        }
        Ok(())
    }

    // ------------------------------------------------------------ rewards
    fn global(&self, k: usize) -> Option<&BTreeSet<Asset>> {
        match self.daos[k].factory.as_str() {
            "fac" => Some(&self.global_assets),
            "fac2" => Some(&self.global2),
            _ => None,
        }
    }
    fn whitelisted(&self, k: usize, a: &Asset) -> bool {
        self.daos[k].tre.assets.contains(a) || self.global(k).map(|g| g.contains(a)).unwrap_or(false)
    }
    fn distribute(&mut self, k: usize, assets: &[(Asset, Amt)]) -> R {
        ensure!(self.global(k).is_some(), ["D03"], "no factory to ask for its whitelist");
        for (a, _) in assets {
            if !self.whitelisted(k, a) {
                self.e("D03", "refused");
                return no(&["D03"], format!("{a:?} is not whitelisted"));
            }
        }
        let total = self.daos[k].dist.total;
        if total == 0 {
            self.e("D02", "nobody eligible");
        }
        ensure!(total > 0, ["D01", "D02"], "nobody to distribute to");
        for (a, x) in assets {
            let d = &mut self.daos[k].dist;
            *d.idx.entry(a.clone()).or_insert(0) += x * E18 / total;
            *d.distributed.entry(a.clone()).or_insert(0) += x;
            let sig = format!("{} global={}", if matches!(a, Asset::Nat(_)) { "native" } else { "cw20" }, self.global_assets.contains(a));
            self.e("D03", sig);
            let n = self.daos[k].dist.eff.values().filter(|x| **x > 0).count().min(5);
            let below = self.daos[k].dist.w.len() - self.daos[k].dist.eff.values().filter(|x| **x > 0).count();
            self.e("D01", format!("distribute members={n}"));
            self.e("D02", format!("distribute ineligible={}", below.min(3)));
        }
        Ok(())
    }
    fn distributor(&mut self, k: usize, s: &str, m: &M, funds: &[(String, Amt)]) -> R {
        match m {
            M::UserWeights(v) => {
                self.from_ctl(k, s, "set reward weights")?;
                ensure!(v.iter().all(|x| valid(&x.0)), ["D01"], "invalid user");
                for (u, w) in v {
                    self.daos[k].dist.update(u, *w);
                }
                Ok(())
            }
            M::MinWeight { w } => {
                self.from_ctl(k, s, "set the minimum weight")?;
                let old = self.daos[k].dist.min;
                self.daos[k].dist.update_min(*w);
                self.e("D02", format!("min up={} same={}", *w > old, *w == old));
                Ok(())
            }
            M::DistNative => {
                let v: Vec<(Asset, Amt)> = funds.iter().map(|(d, x)| (Asset::Nat(d.clone()), *x)).collect();
                self.distribute(k, &v)
            }
            M::FakeC20 { amount, hook, .. } => match hook {
                Hook::Distribute => self.distribute(k, &[(Asset::Cw20(s.to_string()), *amount)]),
                _ => no(&["D03"], "unknown hook"),
            },
            M::ClaimRewards { user, natives, cw20s } => {
                ensure!(valid(user), ["D01"], "invalid user");
                self.unrestricted(k, user, "claim rewards")?;
                ensure!(user == s, ["D01", "A01"], "claim of someone else's rewards");
                ensure!(cw20s.iter().all(|t| valid(t)), ["D01"], "invalid token");
                let mut list: Vec<Asset> = natives.iter().map(|d| Asset::Nat(d.clone())).collect();
                list.extend(cw20s.iter().map(|t| Asset::Cw20(t.clone())));
                let dist = format!("d{k}.dist");
                let mut n = 0;
                for a in list {
                    let g = self.daos[k].dist.idx.get(&a).copied().unwrap_or(0);
                    let r = self.daos[k].dist.reward(user, &a);
                    if g == 0 || r == 0 {
                        continue;
                    }
                    n += 1;
                    let d = &mut self.daos[k].dist;
                    d.user.insert((user.clone(), a.clone()), (g, 0));
                    *d.paid.entry(a.clone()).or_insert(0) += r;
                    match &a {
                        Asset::Nat(dn) => self.mv(&dist, user, dn, r, &["D01"])?,
                        Asset::Cw20(t) => self.tmv(t, &dist, user, r)?,
                        _ => unreachable!(),
                    }
                }
                self.e("D01", format!("claim assets={n}"));
                Ok(())
            }
            _ => no(&["A01"], "unknown message"),
        }
    }

    // ------------------------------------------------------------ treasury
    /// Moves stakes and then claims from before the rewrite into the membership contract.
    fn migration_step(&mut self, k: usize, limit: Option<u32>) -> R {
        let (tre, mem) = (format!("d{k}.tre"), format!("d{k}.mem"));
        let kind = self.daos[k].kind;
        let Some(mut l) = self.daos[k].tre.legacy.clone() else { return no(&["L01"], "no migration is running") };
        ensure!(l.running || !l.empty(), ["L01"], "the migration is complete");
        let limit = limit.unwrap_or(if kind == Kind::Nft { 20 } else { 100 }) as usize;
        let mut sends = vec![];
        let mut used;
        if kind == Kind::Token {
            let token = self.daos[k].token.clone();
            let now: Vec<(N, Amt)> = l.stakes.drain(..limit.min(l.stakes.len())).collect();
            used = now.len();
            for (u, x) in &now {
                l.moved.insert(u.clone(), *x);
            }
            let sum: Amt = now.iter().map(|x| x.1).sum();
            if sum > 0 {
                sends.push(Act::ex(token.clone(), M::C20Send { to: mem.clone(), amount: sum, hook: Hook::AddStakes(now) }));
            }
            let mut now: Vec<(N, Amt, Rel)> = vec![];
            for (u, v) in &mut l.claims {
                let n = v.len().min(limit - used);
                used += n;
                now.extend(v.drain(..n).map(|c| (u.clone(), c.amount, c.rel)));
            }
            l.claims.retain(|x| !x.1.is_empty());
            let sum: Amt = now.iter().map(|x| x.1).sum();
            if sum > 0 {
                sends.push(Act::ex(token, M::C20Send { to: mem, amount: sum, hook: Hook::AddClaims(now) }));
            }
        } else {
            let nft = self.daos[k].nft.clone();
            let now: Vec<(String, N)> = l.nfts.drain(..limit.min(l.nfts.len())).collect();
            used = now.len();
            for (id, u) in now {
                *l.moved.entry(u.clone()).or_insert(0) += 1;
                sends.push(Act::ex(nft.clone(), M::NftSend { to: mem.clone(), id, hook: Hook::Stake { user: u } }));
            }
            // whole users at a time
            let left = limit - used;
            let mut n = 0;
            while n < left && !l.claims.is_empty() {
                for (u, v) in l.claims.drain(..left.min(l.claims.len())).collect::<Vec<_>>() {
                    for c in v {
                        for id in c.ids {
                            n += 1;
                            let hook = Hook::AddNftClaim { user: u.clone(), release: c.rel };
                            sends.push(Act::ex(nft.clone(), M::NftSend { to: mem.clone(), id, hook }));
                        }
                    }
                }
            }
            used += n;
        }
        l.running = used >= limit;
        self.e("L01", format!("step {kind:?} sends={} done={} left={}", sends.len().min(3), !l.running, !l.empty()));
        self.daos[k].tre.legacy = Some(l);
        for a in sends {
            self.act(&tre, &a)?;
        }
        Ok(())
    }
    fn treasury(&mut self, k: usize, s: &str, m: &M) -> R {
        let tre = format!("d{k}.tre");
        if let M::MigStep { limit } = m {
            return self.migration_step(k, *limit);
        }
        let known = matches!(
            m,
            M::SetAdmin { .. } | M::TreAssets { .. } | M::TreNfts { .. } | M::Spend { .. } | M::TreDist { .. } | M::Cosmos(_)
        );
        ensure!(known, ["T01"], "unknown message");
        ensure!(s == self.daos[k].tre.admin, ["T01", "A01"], "{s} does not control the treasury");
        match m {
            M::SetAdmin { to } => {
                ensure!(valid(to), ["T01"], "invalid admin");
                self.daos[k].tre.admin = to.clone();
                Ok(())
            }
            M::TreAssets { add, remove } => {
                ensure!(add.iter().chain(remove).all(asset_ok), ["T01"], "invalid asset");
                for a in add {
                    ensure!(!matches!(a, Asset::Cw1155(..)), ["T01"], "cw1155");
                    self.daos[k].tre.assets.insert(a.clone());
                }
                for a in remove {
                    self.daos[k].tre.assets.remove(a);
                }
                Ok(())
            }
            M::TreNfts { add, remove } => {
                ensure!(add.iter().chain(remove).all(|n| valid(n)), ["T01"], "invalid NFT");
                for a in add {
                    self.daos[k].tre.nfts.insert(a.clone());
                }
                for a in remove {
                    self.daos[k].tre.nfts.remove(a);
                }
                Ok(())
            }
            M::Spend { to, assets } => {
                ensure!(valid(to), ["T01"], "invalid recipient");
                ensure!(assets.iter().all(|a| asset_ok(&a.0)), ["T01"], "invalid asset");
                for (a, x) in assets {
                    self.e("T01", format!("spend {}", if matches!(a, Asset::Nat(_)) { "native" } else { "cw20" }));
                    match a {
                        Asset::Nat(d) => self.mv(&tre, to, d, *x, &["T01"])?,
                        Asset::Cw20(t) => {
                            ensure!(self.tok.contains_key(t), ["T01"], "not a token");
                            self.tmv(t, &tre, to, *x)?
                        }
                        Asset::Cw1155(..) => return no(&["T01"], "cw1155"),
                    }
                }
                Ok(())
            }
            M::TreDist { dist, funds } => {
                ensure!(funds.iter().all(|a| asset_ok(&a.0)), ["T01"], "invalid asset");
                ensure!(valid(dist), ["T01"], "invalid distributor");
                ensure!(!funds.iter().any(|a| matches!(a.0, Asset::Cw1155(..))), ["T01"], "cw1155");
                for (a, x) in funds {
                    if let Asset::Cw20(t) = a {
                        self.act(&tre, &Act::ex(t.clone(), M::C20Send { to: dist.clone(), amount: *x, hook: Hook::Distribute }))?;
                    }
                }
                let nat: Vec<(String, Amt)> = funds
                    .iter()
                    .filter_map(|(a, x)| if let Asset::Nat(d) = a { Some((d.clone(), *x)) } else { None })
                    .collect();
                self.e("T01", "distribute");
                if !nat.is_empty() {
                    self.act(&tre, &Act::exf(dist.clone(), M::DistNative, nat))?;
                }
                Ok(())
            }
            M::Cosmos(v) => {
                ensure!(!v.contains(&Act::Garbage), ["T01"], "not a message");
                for a in v {
                    self.act(&tre, a)?;
                }
                self.e("T01", "messages");
                Ok(())
            }
            _ => unreachable!(),
        }
    }

    // ------------------------------------------------------------ enterprise
    fn enterprise(&mut self, k: usize, s: &str, m: &M) -> R {
        let ent = format!("d{k}.ent");
        match m {
            M::EntMeta { name, f } => {
                self.from_ctl(k, s, "change metadata")?;
                self.daos[k].describe(name, f);
                Ok(())
            }
            M::EntUpgrade { to, msgs } => {
                let cur = self.daos[k].version;
                self.e("U01", format!("to={} k={}", (*to).cmp(&cur) as i8, msgs.len().min(2)));
                ensure!(*to > cur, ["U01"], "upgrade from {cur:?} to {to:?}");
                ensure!(s == format!("d{k}.ctl"), ["A01", "U01"], "{s} may not upgrade");
                ensure!(!dup(&msgs.iter().map(|x| x.0).collect::<Vec<_>>()), ["U01"], "two migration messages for one version");
                let reg = match self.reg(&self.daos[k].versioning) {
                    None => return no(&["U01"], "no registry"),
                    Some(r) => r,
                };
                let exact = reg.contains_key(to);
                let steps: Vec<(Ver, u64)> = reg
                    .iter()
                    .filter(|(v, _)| **v > cur && **v <= *to)
                    .map(|(v, r)| (*v, r.code(codes::ENTERPRISE)))
                    .collect();
                self.e("U01", format!("steps={} exact={}", steps.len().min(4), exact));
                for (v, code) in steps {
                    let good = msgs.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(true);
                    ensure!(good, ["U01"], "migration message of {v:?} is junk");
                    self.code.insert(ent.clone(), code);
                    self.migrate_parts(k)?;
                }
                self.daos[k].version = *to;
                Ok(())
            }
            M::SetAttestation { text } => {
                self.from_ctl(k, s, "set the attestation")?;
                let rel = match self.reg(&self.daos[k].versioning).and_then(|r| r.get(&self.daos[k].version)) {
                    None => return no(&["R01"], "current version not registered"),
                    Some(r) => r.code(codes::ATTESTATION),
                };
                let n = format!("d{k}.att{}", self.daos[k].att_n);
                self.daos[k].att_n += 1;
                self.atts.insert(n.clone(), BTreeSet::new());
                self.att_text.insert(n.clone(), text.clone());
                self.code.insert(n.clone(), rel);
                self.daos[k].att = Some(n);
                Ok(())
            }
            M::RemoveAttestation => {
                self.from_ctl(k, s, "remove the attestation")?;
                self.daos[k].att = None;
                Ok(())
            }
            M::EntMsgs(v) => {
                self.from_ctl(k, s, "send messages as the DAO")?;
                ensure!(!v.contains(&Act::Garbage), ["A01"], "not a message");
                for a in v {
                    self.act(&ent, a)?;
                }
                Ok(())
            }
            M::EntConfig { versioning, factory } => {
                self.from_ctl(k, s, "change the configuration")?;
                for n in [versioning, factory].into_iter().flatten() {
                    ensure!(valid(n), ["F01"], "invalid address");
                }
                if let Some(n) = versioning {
                    self.daos[k].versioning = n.clone();
                }
                if let Some(n) = factory {
                    self.daos[k].factory = n.clone();
                }
                self.e("U01", format!("moved registry={:?} factory={:?}", versioning, factory));
                Ok(())
            }
            M::EntFinalize { .. } => no(&["A01", "F01"], "already finalized"),
            _ => no(&["A01"], "unknown message"),
        }
    }

    // ------------------------------------------------------------ registry, factory
    fn versioning(&mut self, s: &str, m: &M) -> R {
        match m {
            M::AddVersion { v, k } => {
                ensure!(s == self.ver_admin, ["U02", "A01"], "{s} may not register releases");
                self.e("U02", format!("add dup={} newest={}", self.releases.contains_key(v), self.releases.keys().last().map(|x| x < v).unwrap_or(true)));
                ensure!(!self.releases.contains_key(v), ["U02"], "already registered");
                self.releases.insert(*v, Release { k: [*k; CODE_FIELDS.len()], log: format!("release {k}") });
                Ok(())
            }
            M::EditVersion { v, changelog, k, only } => {
                ensure!(s == self.ver_admin, ["U02", "A01"], "{s} may not edit releases");
                self.e("U02", format!("edit known={} k={} only={}", self.releases.contains_key(v), k.is_some(), only.len().min(2)));
                let r = match self.releases.get_mut(v) {
                    None => return no(&["U02"], "not registered"),
                    Some(r) => r,
                };
                if let Some(c) = changelog {
                    r.log = c.clone();
                }
                if let Some(k) = k {
                    for i in 0..CODE_FIELDS.len() {
                        if only.is_empty() || only.contains(&(i as u8)) {
                            r.k[i] = *k;
                        }
                    }
                }
                Ok(())
            }
            M::VerAdmin { to } => {
                ensure!(s == self.ver_admin, ["U02", "A01"], "{s} may not hand over the registry");
                ensure!(valid(to), ["U02"], "invalid admin");
                self.ver_admin = to.clone();
                Ok(())
            }
            _ => no(&["U02"], "unknown message"),
        }
    }
    fn factory(&mut self, s: &str, m: &M) -> R {
        match m {
            M::FacConfig { admin, versioning, cw20, cw721 } => {
                ensure!(s == self.fac_admin, ["A01", "F01"], "{s} may not configure the factory");
                if let Some(a) = admin {
                    ensure!(valid(a), ["F01"], "invalid admin");
                }
                if let Some(v) = versioning {
                    ensure!(valid(v), ["F01"], "invalid registry");
                }
                if let Some(a) = admin {
                    self.fac_admin = a.clone();
                }
                if let Some(v) = versioning {
                    self.fac_versioning = v.clone();
                }
                if let Some(x) = cw20 {
                    self.fac_cw20 = *x;
                }
                if let Some(x) = cw721 {
                    self.fac_cw721 = *x;
                }
                self.e("F01", format!("configure {}{}{}{}", admin.is_some(), versioning.is_some(), cw20.is_some(), cw721.is_some()));
                Ok(())
            }
            M::FacFinalize => no(&["A01", "F01"], "only the factory itself finishes a creation"),
            M::CreateDao(c) => self.create_dao(s, c),
            _ => no(&["F01"], "unknown message"),
        }
    }
    fn create_dao(&mut self, s: &str, c: &DaoCfg) -> R {
        let kind = match &c.mem {
            MemSpec::Denom { .. } => Kind::Denom,
            MemSpec::ImportCw20 { .. } | MemSpec::NewCw20 { .. } => Kind::Token,
            MemSpec::ImportCw721 { .. } | MemSpec::NewCw721 { .. } | MemSpec::Ics721 { .. } => Kind::Nft,
            MemSpec::ImportCw3 { .. } | MemSpec::NewMultisig { .. } => Kind::Multisig,
        };
        let reg = match self.reg(&self.fac_versioning) {
            Some(r) => r.clone(),
            None => return no(&["F01"], "no registry"),
        };
        let version = match c.version.or(reg.keys().last().copied()) {
            Some(v) => v,
            None => return no(&["F01", "U02"], "no release"),
        };
        let rel = match reg.get(&version) {
            Some(r) => r.clone(),
            None => return no(&["F01", "U02"], "release not registered"),
        };
        self.e("F01", format!("{kind:?} council={} att={} ver={}", c.council.is_some(), c.attest.is_some(), c.version.is_some()));
        ensure!(!c.name.is_empty(), ["F01"], "no name");
        gov_ok(&c.gov, kind).map_err(|mut w| {
            w.tags.push("F01");
            w
        })?;
        let council = council_ok(&c.council)?;
        let unlock = match &c.mem {
            MemSpec::Denom { unlock, .. }
            | MemSpec::ImportCw20 { unlock, .. }
            | MemSpec::NewCw20 { unlock, .. }
            | MemSpec::ImportCw721 { unlock, .. }
            | MemSpec::NewCw721 { unlock, .. }
            | MemSpec::Ics721 { unlock, .. } => {
                if let Dur::Time(t) = unlock {
                    ensure!(*t >= c.gov.duration, ["P01", "F01"], "voting outlasts unstaking");
                }
                *unlock
            }
            _ => Dur::Time(0),
        };
        if let Some(v) = &c.assets {
            ensure!(v.iter().all(asset_ok), ["F01"], "invalid asset");
            ensure!(!v.iter().any(|a| matches!(a, Asset::Cw1155(..))), ["F01"], "cw1155");
        }
        if let Some(v) = &c.nfts {
            ensure!(v.iter().all(|n| valid(n)), ["F01"], "invalid NFT");
        }
        let k = self.daos.len();
        let n = |p: &str| format!("d{k}.{p}");
        let mut d = Dao {
            k,
            kind,
            creator: s.to_string(),
            denom: String::new(),
            token: String::new(),
            nft: String::new(),
            ics: None,
            ics_nft: None,
            name: c.name.clone(),
            meta: c.meta.clone(),
            version,
            versioning: self.fac_versioning.clone(),
            factory: "fac".into(),
            att: None,
            att_n: 0,
            gov: c.gov.clone(),
            council,
            props: BTreeMap::new(),
            mem: Mem { wt: Weights::default(), unlock, claims: vec![], stakes: BTreeMap::new() },
            hooks: [n("ctl")].into(),
            chooks: [n("ctl")].into(),
            cmem: Weights::default(),
            dist: Dist { min: c.min_weight.unwrap_or(0), ..Default::default() },
            tre: Tre {
                admin: n("ctl"),
                assets: c.assets.clone().unwrap_or_default().into_iter().collect(),
                nfts: c.nfts.clone().unwrap_or_default().into_iter().collect(),
                legacy: None,
            },
            out: Out { next: 1, ..Default::default() },
        };
        let (h, t) = (self.height, self.now);
        match &c.mem {
            MemSpec::Denom { denom, .. } => d.denom = denom.clone(),
            MemSpec::ImportCw20 { tok, .. } => {
                ensure!(self.tok.contains_key(tok), ["F01"], "not a token");
                let supply: Amt = self.tok[tok].values().sum();
                let minter = self.tinfo.get(tok).map(|i| i.minter.is_some()).unwrap_or(false);
                self.e("F01", format!("import supply={} minter={minter}", supply > 0));
                ensure!(supply > 0 || minter, ["F01"], "token nobody can have");
                d.token = tok.clone();
            }
            MemSpec::NewCw20 { balances, dao, minter, cap, look, .. } => {
                ensure!(*dao != Some(0), ["F01"], "zero DAO balance");
                ensure!(balances.iter().all(|b| b.1 > 0 && valid(&b.0)), ["F01"], "initial balances");
                ensure!(!dup(&balances.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), ["F01"], "duplicate balance");
                ensure!(minter.is_some() || !balances.is_empty(), ["F01"], "token nobody can have");
                let mut b: BTreeMap<N, Amt> = balances.iter().cloned().collect();
                if let Some(x) = dao {
                    *b.entry(n("tre")).or_insert(0) += x;
                }
                if let Some(m) = minter {
                    ensure!(valid(m), ["F01"], "invalid minter");
                    if let Some(cap) = cap {
                        ensure!(b.values().sum::<Amt>() <= *cap, ["F01"], "supply above the cap");
                    }
                }
                if let Some((_, _, Some(o), _)) = &look.marketing {
                    ensure!(valid(o), ["F01"], "invalid owner of the marketing information");
                }
                ensure!(code_of(self.fac_cw20, codes::CW20), ["F01"], "no token code");
                self.code.insert(n("tok"), self.fac_cw20);
                let who = minter.clone().map(|m| (m, *cap)).unwrap_or((n("ent"), None));
                self.tinfo.insert(n("tok"), TokInfo { minter: Some(who), look: look.clone() });
                self.tok.insert(n("tok"), b);
                d.token = n("tok");
            }
            MemSpec::ImportCw721 { nft, .. } => {
                ensure!(self.nft.contains_key(nft), ["F01"], "not an NFT contract");
                d.nft = nft.clone();
            }
            MemSpec::NewCw721 { minter, n: look, .. } => {
                if let Some(m) = minter {
                    ensure!(valid(m), ["F01"], "invalid minter");
                }
                ensure!(code_of(self.fac_cw721, codes::CW721), ["F01"], "no NFT code");
                self.code.insert(n("nft"), self.fac_cw721);
                self.ninfo.insert(n("nft"), *look);
                self.nft.insert(n("nft"), Nfts { minter: Some(minter.clone().unwrap_or(n("ent"))), ..Default::default() });
                d.nft = n("nft");
            }
            MemSpec::Ics721 { class, .. } => d.ics = Some(class.clone()),
            MemSpec::ImportCw3 { cw3 } => {
                let v = match self.cw3.get(cw3) {
                    Some(v) => v.clone(),
                    None => return no(&["F01"], "not a multisig"),
                };
                ensure!(v.iter().map(|x| x.1).sum::<Amt>() > 0, ["F01"], "empty multisig");
                for (u, w) in v {
                    d.mem.wt.set(&u, w, h, t);
                    d.dist.update(&u, w);
                }
            }
            MemSpec::NewMultisig { members } => {
                ensure!(!members.is_empty(), ["F01"], "no members");
                ensure!(members.iter().all(|m| valid(&m.0)), ["F01"], "invalid member");
                ensure!(!dup(&members.iter().map(|x| x.0.clone()).collect::<Vec<_>>()), ["F01"], "duplicate member");
                for (u, w) in members {
                    d.mem.wt.set(u, *w, h, t);
                    d.dist.update(u, *w);
                }
            }
        }
        if let Some(cc) = &c.council {
            for m in &cc.members {
                d.cmem.set(m, 1, h, t);
            }
        }
        let x = c.xchain.clone().unwrap_or_default();
        if let Some(t) = &c.attest {
            let a = n("att0");
            self.att_text.insert(a.clone(), t.clone());
            d.att_n = 1;
            self.atts.insert(a.clone(), BTreeSet::new());
            self.code.insert(a.clone(), rel.code(codes::ATTESTATION));
            d.att = Some(a);
        }
        let mc = match kind {
            Kind::Denom => codes::DENOM_STAKING,
            Kind::Token => codes::TOKEN_STAKING,
            Kind::Nft => codes::NFT_STAKING,
            Kind::Multisig => codes::MULTISIG,
        };
        for (p, code) in [
            ("ent", codes::ENTERPRISE),
            ("ctl", codes::CONTROLLER),
            ("gov", codes::GOVERNANCE),
            ("mem", mc),
            ("cmem", codes::MULTISIG),
            ("tre", codes::TREASURY),
            ("dist", codes::DISTRIBUTOR),
            ("out", codes::OUTPOSTS),
        ] {
            self.code.insert(n(p), rel.code(code));
        }
        self.daos.push(d);
        if !x.is_empty() {
            self.mv("fac", &n("out"), "uluna", x.len() as u128, &["F01", "X01"])?;
            for (ch, w) in x {
                self.deploy_remote(k, ch, w)?;
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ governance controller
    fn polls(&mut self, k: usize, s: &str, m: &M) -> R {
        match m {
            M::PollCreate { .. } | M::PollVote { .. } | M::PollUpdate { .. } | M::PollEnd { .. } => {
                ensure!(s == format!("d{k}.ctl"), ["A01", "G01"], "{s} may not run polls");
                unmodelled("raw polls")
            }
            _ => no(&["A01"], "unknown message"),
        }
    }

    fn controller(&mut self, k: usize, s: &str, m: &M, funds: &[(String, Amt)]) -> R {
        let ctl = format!("d{k}.ctl");
        match m {
            M::Propose { owner, actions } => {
                let d = &self.daos[k];
                let mut dep = None;
                if d.kind == Kind::Denom {
                    let o = owner.clone().unwrap_or(s.to_string());
                    if let Some((_, x)) = funds.iter().find(|f| f.0 == d.denom) {
                        ensure!(valid(&o), ["G06"], "invalid deposit owner");
                        dep = Some(Deposit {
                            owner: o,
                            asset: Some(Asset::Nat(d.denom.clone())),
                            amount: *x,
                            nft: None,
                            ids: vec![],
                        });
                    } else if !valid(&o) {
                        return unmodelled("invalid owner of no deposit");
                    }
                }
                self.create_proposal(k, s, actions, dep).map(|_| ())
            }
            M::ProposeNft { owner, ids, actions } => {
                ensure!(self.daos[k].kind == Kind::Nft, ["G06", "G07"], "NFT deposit in another kind of DAO");
                let c = match self.known_nft(k) {
                    Some(c) => c,
                    None => return no(&["G06", "I01"], "no NFT contract yet"),
                };
                ensure!(!dup(ids), ["G06"], "duplicate deposit token");
                let o = owner.clone().unwrap_or(s.to_string());
                ensure!(valid(&o), ["G06"], "invalid deposit owner");
                for id in ids {
                    let x = &self.nft[&c];
                    let ok = match x.owner.get(id) {
                        None => false,
                        Some(ow) => ow == s || x.approved.get(id).map(|a| a.contains(s)).unwrap_or(false),
                    };
                    ensure!(ok, ["G06"], "{s} may not deposit {id}");
                }
                let dep = Deposit { owner: o, asset: None, amount: ids.len() as u128, nft: Some(c.clone()), ids: ids.clone() };
                self.create_proposal(k, s, actions, Some(dep))?;
                for id in ids {
                    self.nmv(&c, &ctl, &ctl, id).map_err(|mut w| {
                        w.tags.push("G06");
                        w
                    })?;
                }
                Ok(())
            }
            M::FakeC20 { from, amount, hook } => self.receive20(&ctl, s, from, *amount, hook),
            M::CouncilPropose { actions } => {
                self.unrestricted(k, s, "council propose")?;
                let cfg = match self.daos[k].council.clone() {
                    None => return no(&["C01", "G07"], "no council"),
                    Some(c) => c,
                };
                self.actions_ok(k, actions)?;
                self.e("C01", format!("propose member={}", self.daos[k].cmem.get(s) > 0));
                ensure!(self.daos[k].cmem.get(s) > 0, ["C01"], "{s} is not on the council");
                for a in actions {
                    let t = pa_type(a);
                    self.e("C01", format!("type {t} allowed={}", cfg.types.iter().any(|x| x == t)));
                    ensure!(cfg.types.iter().any(|x| x == t), ["C01"], "council may not propose {t}");
                }
                let (q, th) = (cfg.quorum, cfg.threshold);
                self.add_prop(k, s, actions, None, true, q, th)
            }
            M::Vote { id, o } => {
                self.unrestricted(k, s, "vote")?;
                let w = self.daos[k].mem.wt.get(s);
                ensure!(w > 0, ["G03"], "{s} has no weight");
                let total = self.daos[k].mem.wt.total;
                let now = self.now;
                let (early, multisig, dur) =
                    (self.daos[k].gov.early, self.daos[k].kind == Kind::Multisig, self.daos[k].gov.duration);
                let p = match self.daos[k].props.get_mut(id) {
                    None => return no(&["G03"], "no such proposal"),
                    Some(p) => p,
                };
                ensure!(!p.council, ["C01", "G03"], "general vote on a council proposal");
                ensure!(p.fin.is_none() && now < p.ends, ["G03"], "voting is over");
                let before = p.executability(total);
                let again = p.votes.insert(s.to_string(), (*o, w)).is_some();
                let after = p.executability(total);
                let mut sig = "none";
                if early && !multisig && before != after {
                    p.earliest = Some((now + dur / 10 * SEC).min(p.ends));
                    sig = "set";
                }
                let n = p.votes.len().min(4);
                self.e("G01", format!("vote o={o} again={again} n={n}"));
                self.e("G03", format!("vote {:?}", self.daos[k].kind));
                self.e("G05", format!("{sig} {}->{}", before.0, after.0));
                Ok(())
            }
            M::CouncilVote { id, o } => {
                self.unrestricted(k, s, "council vote")?;
                ensure!(self.daos[k].council.is_some(), ["C01"], "no council");
                let w = self.daos[k].cmem.get(s);
                self.e("C01", format!("vote member={}", w > 0));
                ensure!(w > 0, ["C01", "G03"], "{s} is not on the council");
                let now = self.now;
                let p = match self.daos[k].props.get_mut(id) {
                    None => return no(&["G03"], "no such proposal"),
                    Some(p) => p,
                };
                ensure!(p.council, ["C01", "G03"], "council vote on a general proposal");
                ensure!(p.fin.is_none() && now < p.ends, ["G03"], "voting is over");
                let again = p.votes.insert(s.to_string(), (*o, w)).is_some();
                self.e("G01", format!("council vote o={o} again={again}"));
                Ok(())
            }
            M::Execute { id } => self.execute(k, s, *id),
            M::ExecuteActions { .. } => {
                if s == ctl {
                    return unmodelled("raw action execution by the controller");
                }
                no(&["A01", "G04"], "only the controller runs actions")
            }
            M::WeightsChanged(v) => {
                if s == format!("d{k}.cmem") {
                    return Ok(());
                }
                ensure!(s == format!("d{k}.mem"), ["A01", "M02"], "{s} does not report weights");
                self.weights_changed(k, v.clone())
            }
            M::DeployInitial => {
                if s == "fac" {
                    return unmodelled("factory");
                }
                no(&["A01", "X01"], "only the factory")
            }
            _ => no(&["A01"], "unknown message"),
        }
    }

    fn create_proposal(&mut self, k: usize, s: &str, actions: &[PA], dep: Option<Deposit>) -> R {
        self.unrestricted(k, s, "propose")?;
        let d = &self.daos[k];
        let amount = dep.as_ref().map(|d| d.amount).unwrap_or(0);
        match d.gov.min_deposit {
            None => {
                let ok = d.mem.wt.get(s) > 0;
                self.e("G07", format!("no deposit needed, weight={ok}"));
                ensure!(ok, ["G07"], "{s} has no weight");
            }
            Some(x) => {
                self.e("G06", format!("needed={} given={}", x > 0, if amount < x { "less" } else if amount == x { "exact" } else { "more" }));
                ensure!(amount >= x, ["G06", "G07"], "deposit {amount}, needed {x}");
            }
        }
        self.actions_ok(k, actions)?;
        let (q, t) = (self.daos[k].gov.quorum, self.daos[k].gov.threshold);
        self.add_prop(k, s, actions, dep, false, q, t)
    }
    fn add_prop(&mut self, k: usize, s: &str, actions: &[PA], deposit: Option<Deposit>, council: bool, quorum: u64, threshold: u64) -> R {
        let now = self.now;
        for a in actions {
            self.e("G07", format!("{} council={council}", pa_type(a)));
        }
        let d = &mut self.daos[k];
        let id = d.props.len() as u64 + 1;
        d.props.insert(
            id,
            Prop {
                council,
                proposer: s.to_string(),
                actions: actions.to_vec(),
                created: now,
                ends: now + d.gov.duration * SEC,
                quorum,
                threshold,
                veto: d.gov.veto,
                deposit,
                votes: BTreeMap::new(),
                earliest: None,
                executed: None,
                fin: None,
                actions_ok: false,
                tainted: false,
            },
        );
        Ok(())
    }

    fn actions_ok(&mut self, k: usize, actions: &[PA]) -> R {
        let r = self.actions_ok_inner(k, actions);
        if let Err(w) = &r {
            let s: String = w.what.chars().take(40).collect();
            self.e("G07", format!("refused {s}"));
        }
        r
    }
    fn actions_ok_inner(&mut self, k: usize, actions: &[PA]) -> R {
        let d = &self.daos[k];
        ensure!(actions.len() <= 10, ["G07"], "too many actions");
        for a in actions {
            match a {
                PA::Assets { remote: None, add, remove } => {
                    ensure!(add.iter().chain(remove).all(asset_ok), ["G07", "T01"], "invalid asset");
                    ensure!(!dup(add) && !dup(remove), ["G07", "T01"], "duplicate whitelist entry");
                    ensure!(!add.iter().any(|x| remove.contains(x)), ["G07", "T01"], "asset both added and removed");
                }
                PA::Nfts { remote: None, add, remove } => {
                    ensure!(add.iter().chain(remove).all(|x| valid(x)), ["G07", "T01"], "invalid NFT");
                    ensure!(!dup(add) && !dup(remove), ["G07", "T01"], "duplicate whitelist entry");
                    ensure!(!add.iter().any(|x| remove.contains(x)), ["G07", "T01"], "NFT both added and removed");
                }
                PA::Upgrade { to, .. } => {
                    ensure!(*to > d.version, ["U01", "G07"], "upgrade to an older version");
                }
                PA::Exec(v) | PA::EntExec(v) | PA::TreExec { acts: v, .. } => {
                    ensure!(!v.contains(&Act::Garbage), ["G07"], "unparseable message");
                }
                PA::Multisig(v) => multisig_edit_ok(d.kind, v)?,
                PA::Council(c) => {
                    council_ok(c).map_err(|mut w| {
                        w.tags.push("G07");
                        w
                    })?;
                }
                PA::Dist(v) => {
                    ensure!(v.iter().all(|x| asset_ok(&x.0)), ["G07"], "invalid asset");
                    ensure!(!v.iter().any(|x| matches!(x.0, Asset::Cw1155(..))), ["G07"], "cw1155 distribution");
                }
                PA::Fund { remote: None, to, assets } => {
                    ensure!(valid(to), ["G07", "T01"], "invalid recipient");
                    ensure!(assets.iter().all(|x| asset_ok(&x.0)), ["G07", "T01"], "invalid asset");
                    ensure!(!assets.iter().any(|x| matches!(x.0, Asset::Cw1155(..))), ["G07", "T01"], "cw1155 funding");
                }
                PA::Gov(c) => gov_ok(&apply_gov(&d.gov, c), d.kind).map_err(|mut w| {
                    w.tags.push("G07");
                    w
                })?,
                _ => {}
            }
        }
        Ok(())
    }

    pub fn votes_total(&self, k: usize, p: &Prop) -> Amt {
        let w = if p.council { &self.daos[k].cmem } else { &self.daos[k].mem.wt };
        if p.ends <= self.now {
            w.at_time(p.ends)
        } else {
            w.total
        }
    }

    fn execute(&mut self, k: usize, s: &str, id: u64) -> R {
        self.unrestricted(k, s, "execute")?;
        let ctl = format!("d{k}.ctl");
        let p = match self.daos[k].props.get(&id) {
            None => return no(&["G04"], "no such proposal"),
            Some(p) => p.clone(),
        };
        ensure!(p.executed.is_none(), ["G04"], "already executed");
        if let Some(t) = p.earliest {
            if self.now < t {
                self.e("G05", "too early");
            }
            ensure!(self.now >= t, ["G05"], "the early-execution delay is not over");
        }
        let total = self.votes_total(k, &p);
        ensure!(total > 0, ["G02"], "no votes available");
        let early_ok = p.council || self.daos[k].gov.early;
        let fin = p.outcome(total);
        let early = self.now < p.ends;
        if early {
            ensure!(early_ok, ["G05", "G02"], "early execution not allowed");
            let w = matches!(fin, Fin::NoQuorum | Fin::NoThreshold);
            ensure!(!w, ["G02", "G05"], "voting is still open and undecided");
        }
        self.e("G02", format!("{fin:?} council={} early={early} veto={}", p.council, p.veto.is_some()));
        self.e("G04", format!("{fin:?} actions={}", p.actions.len().min(4)));
        if p.council {
            self.e("C01", format!("execute {fin:?} early={early}"));
        }
        if early {
            self.e("G05", format!("executed early delay={}", p.earliest.is_some()));
        }
        self.exec_log.push((k, id));
        {
            let (now, h) = (self.now, self.height);
            let q = self.daos[k].props.get_mut(&id).unwrap();
            q.fin = Some(fin);
            q.executed = Some((now, h));
        }
        if fin == Fin::Passed {
            let n = self.act_calls;
            self.act_calls += 1;
            let save = self.clone();
            let r = self.run_actions(k, &p.actions).and_then(|_| {
                if self.force_fail == Some(n) {
                    no(&["G04"], "injected failure")
                } else {
                    Ok(())
                }
            });
            match r {
                Ok(()) => self.daos[k].props.get_mut(&id).unwrap().actions_ok = true,
                Err(w) => {
                    if w.tags.contains(&"?") {
                        return Err(w);
                    }
                    let (calls, mut ev, log) = (self.act_calls, std::mem::take(&mut self.ev), std::mem::take(&mut self.exec_log));
                    *self = save;
                    self.act_calls = calls;
                    ev.push(("G04", format!("actions failed injected={}", self.force_fail == Some(n))));
                    let what: String = w.what.chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
                    ev.extend(w.tags.iter().map(|t| (*t, format!("in a proposal: {what}"))));
                    self.ev = ev;
                    self.exec_log = log;
                }
            }
        }
        if let Some(dep) = &p.deposit {
            let to = match fin {
                Fin::NoQuorum | Fin::Vetoed => format!("d{k}.tre"),
                _ => dep.owner.clone(),
            };
            self.e("G06", format!("{fin:?} {}", if dep.nft.is_some() { "nft" } else { "fungible" }));
            if let Some(c) = &dep.nft {
                for id in &dep.ids {
                    self.nmv(c, &ctl, &to, id)?;
                }
            } else {
                match dep.asset.as_ref().unwrap() {
                    Asset::Nat(d) => self.mv(&ctl, &to, d, dep.amount, &["G06"])?,
                    Asset::Cw20(t) => self.tmv(t, &ctl, &to, dep.amount)?,
                    _ => unreachable!(),
                }
            }
        }
        Ok(())
    }

    fn run_actions(&mut self, k: usize, actions: &[PA]) -> R {
        let kind = self.daos[k].kind;
        let n = |p: &str| format!("d{k}.{p}");
        let mut subs: Vec<Sub> = vec![];
        for a in actions {
            match a {
                PA::Meta { name, f } => {
                    subs.push(Sub::Meta { name: name.clone(), f: f.clone() })
                }
                PA::Gov(c) => {
                    let g = apply_gov(&self.daos[k].gov, c);
                    gov_ok(&g, kind)?;
                    self.e("P01", format!("changed unlocking={} dur={}", c.unlocking.is_some(), c.duration.is_some()));
                    if let Some(u) = c.unlocking {
                        if let Dur::Time(t) = u {
                            if t < g.duration {
                                self.e("P01", "unlocking too short");
                            }
                            ensure!(t >= g.duration, ["P01"], "voting outlasts unstaking");
                        }
                        if kind != Kind::Multisig {
                            subs.push(Sub::A(Act::ex(n("mem"), M::SetUnlocking { d: Some(u) })));
                        }
                    }
                    self.daos[k].gov = g;
                }
                PA::Council(c) => {
                    self.daos[k].council = council_ok(c)?;
                    self.e("C01", format!("replaced by {}", c.as_ref().map(|c| c.members.len().min(3)).unwrap_or(0)));
                    let v: Vec<(N, Amt)> =
                        c.as_ref().map(|c| c.members.iter().map(|m| (m.clone(), 1)).collect()).unwrap_or_default();
                    subs.push(Sub::A(Act::ex(n("cmem"), M::SetMembers(v))));
                }
                PA::Assets { remote: None, add, remove } => {
                    subs.push(Sub::A(Act::ex(n("tre"), M::TreAssets { add: add.clone(), remove: remove.clone() })))
                }
                PA::Nfts { remote: None, add, remove } => {
                    subs.push(Sub::A(Act::ex(n("tre"), M::TreNfts { add: add.clone(), remove: remove.clone() })))
                }
                PA::Fund { remote: None, to, assets } => {
                    subs.push(Sub::A(Act::ex(n("tre"), M::Spend { to: to.clone(), assets: assets.clone() })))
                }
                PA::Upgrade { to, msgs } => {
                    subs.push(Sub::A(Act::ex(n("ent"), M::EntUpgrade { to: *to, msgs: msgs.clone() })))
                }
                PA::Exec(v) => {
                    for x in v {
                        subs.push(Sub::A(x.clone()));
                    }
                }
                PA::TreExec { remote: None, acts } => subs.push(Sub::A(Act::ex(n("tre"), M::Cosmos(acts.clone())))),
                PA::EntExec(v) => subs.push(Sub::A(Act::ex(n("ent"), M::EntMsgs(v.clone())))),
                PA::Multisig(v) => {
                    multisig_edit_ok(kind, v)?;
                    subs.push(Sub::A(Act::ex(n("mem"), M::UpdateMembers(v.clone()))));
                }
                PA::Dist(v) => {
                    subs.push(Sub::A(Act::ex(n("tre"), M::TreDist { dist: n("dist"), funds: v.clone() })))
                }
                PA::MinWeight(w) => subs.push(Sub::A(Act::ex(n("dist"), M::MinWeight { w: *w }))),
                PA::DeployX { chain, w } => subs.push(Sub::A(Act::ex(n("out"), M::OutDeploy { chain: *chain, w: *w }))),
                PA::Assets { remote: Some(c), add, remove } => {
                    subs.push(Sub::A(Act::ex(n("out"), M::OutRun { chain: *c, m: Box::new(M::TreAssets { add: add.clone(), remove: remove.clone() }) })))
                }
                PA::Nfts { remote: Some(c), add, remove } => {
                    subs.push(Sub::A(Act::ex(n("out"), M::OutRun { chain: *c, m: Box::new(M::TreNfts { add: add.clone(), remove: remove.clone() }) })))
                }
                PA::Fund { remote: Some(c), to, assets } => {
                    subs.push(Sub::A(Act::ex(n("out"), M::OutRun { chain: *c, m: Box::new(M::Spend { to: to.clone(), assets: assets.clone() }) })))
                }
                PA::TreExec { remote: Some(c), acts } => {
                    subs.push(Sub::A(Act::ex(n("out"), M::OutRun { chain: *c, m: Box::new(M::Cosmos(acts.clone())) })))
                }
            }
        }
        let ctl = n("ctl");
        for s in subs {
            match s {
                Sub::A(a) => self.act(&ctl, &a)?,
                Sub::Meta { name, f } => self.daos[k].describe(&name, &f),
            }
        }
        Ok(())
    }

    fn ics_callback(&mut self, s: &str, m: &M) -> R {
        match m {
            M::IcsCallback { nft, ids, user, mem, junk } => {
                ensure!(s == "ics721", ["I01", "A01"], "not the transfer proxy");
                if *junk {
                    return Ok(());
                }
                self.e("I01", format!("callback n={}", ids.len().min(3)));
                for id in ids {
                    self.act("ics721cb", &Act::ex(nft.clone(), M::NftSend { to: mem.clone(), id: id.clone(), hook: Hook::Stake { user: user.clone() } }))?;
                }
                Ok(())
            }
            _ => no(&["A01"], "unknown message"),
        }
    }
}
