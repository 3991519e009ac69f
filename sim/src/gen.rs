//! The seeded scheduler: which client does what, in which order, when time passes, and which
//! faults hit. Everything random in a run comes from one generator.
use crate::model::{part, Fin, Model, COUNCIL_TYPES, SEC};
use crate::rng::Rng;
use crate::types::*;
use crate::world::{Step, WCfg, DENOMS, NFTS, TOKS};

/// Which behaviour a run concentrates on.
#[derive(Clone, Debug)]
pub struct Profile {
    pub kinds: [u64; 4],
    pub council: u64,
    pub attest: u64,
    pub early: u64,
    pub min_deposit: u64,
    pub min_weight: u64,
    pub multi_release: u64,
    pub fault: u64,
    pub steps: (u64, u64),
    pub ops: [u64; OPS],
    pub pas: [u64; PAS],
    pub bad_pa: u64,
    /// kinds of messages in proposals the property cares most about
    pub exec_pref: &'static [u64],
    pub daos: u64,
    pub ics: u64,
    pub same_block: u64,
    /// chance of lists longer than a page
    pub long_lists: u64,
    /// at most this many remote chains, and the share of steps that are about them
    pub remotes: u64,
    pub cross: u64,
    /// how often the facade drafts the transaction
    pub via: u64,
    pub views: u8,
    /// worlds with many members, tokens and proposals
    pub big: u64,
    /// many proposals open at the same time, most members voting on most
    pub marathon: u64,
    /// DAOs that date from before the rewrite
    pub legacy: u64,
    /// a DAO that is still what it was before the rewrite, next to the others
    pub old: u64,
    /// in the end everybody leaves
    pub leave: u64,
    /// what one DAO does to another
    pub abroad: u64,
}
pub const OPS: usize = 16;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Stake,
    Unstake,
    Claim,
    Propose,
    CouncilPropose,
    Vote,
    CouncilVote,
    Execute,
    Distribute,
    ClaimRewards,
    Sign,
    Probe,
    Noise,
    Registry,
    Create,
    Ics,
}
pub const ALL_OPS: [Op; OPS] = [
    Op::Stake,
    Op::Unstake,
    Op::Claim,
    Op::Propose,
    Op::CouncilPropose,
    Op::Vote,
    Op::CouncilVote,
    Op::Execute,
    Op::Distribute,
    Op::ClaimRewards,
    Op::Sign,
    Op::Probe,
    Op::Noise,
    Op::Registry,
    Op::Create,
    Op::Ics,
];
/// The properties this simulation decides.
pub const IDS: [&str; 29] = [
    "G01", "G02", "G03", "G04", "G05", "G06", "G07", "C01", "A01", "S01", "S02", "M01", "M02", "D01", "D02", "D03", "R01", "T01", "P01", "U01",
    "U02", "F01", "I01", "X01", "V01", "V02", "Q01", "L01", "W01",
];
pub const PAS: usize = 14;
// order: Meta Gov Council Assets Nfts Fund Upgrade Exec TreExec EntExec Multisig Dist MinWeight DeployX

pub fn profile(p: &str) -> Profile {
    //              stk uns clm prp cpr vot cvt exe dst clr sgn prb noi reg cre ics
    let mut x = Profile {
        kinds: [30, 30, 25, 15],
        council: 40,
        attest: 15,
        early: 60,
        min_deposit: 35,
        min_weight: 30,
        multi_release: 50,
        fault: 6,
        steps: (60, 220),
        ops: [16, 8, 5, 12, 4, 18, 5, 14, 4, 4, 2, 3, 3, 1, 0, 0],
        pas: [4, 8, 4, 6, 3, 10, 3, 8, 5, 3, 6, 8, 4, 0],
        bad_pa: 10,
        exec_pref: &[],
        daos: 1,
        ics: 0,
        same_block: 30,
        long_lists: 6,
        remotes: 0,
        cross: 0,
        via: 0,
        views: 0,
        big: 0,
        marathon: 2,
        legacy: 0,
        old: 0,
        leave: 0,
        abroad: 30,
    };
    if ["A01", "F01", "G07", "G04"].contains(&p) {
        x.remotes = 1;
        x.cross = 4;
        x.pas[13] = 3;
    }
    if ["T01", "D03", "F01"].contains(&p) {
        x.long_lists = 28;
    }
    if ["S01", "S02", "D01", "D02", "G06", "L01", "I01"].contains(&p) {
        x.leave = 20;
    }
    x.exec_pref = match p {
        "U01" | "D03" | "F01" => &[17],
        "M02" | "M01" => &[18, 18, 19, 9],
        "R01" => &[6, 8],
        "T01" => &[13, 13, 14],
        _ => &[],
    };
    match p {
        "G01" => x.ops = [14, 8, 2, 10, 5, 36, 10, 8, 1, 1, 2, 2, 1, 0, 0, 0],
        "G02" => {
            x.ops = [12, 6, 2, 14, 5, 34, 8, 18, 1, 1, 1, 1, 1, 0, 0, 0];
        }
        "G03" => x.ops = [12, 8, 2, 12, 6, 34, 10, 10, 1, 1, 3, 2, 1, 0, 0, 0],
        "G04" => {
            x.fault = 25;
            x.ops = [10, 3, 1, 18, 5, 20, 6, 24, 1, 1, 1, 3, 1, 0, 0, 0];
            x.pas = [5, 6, 4, 6, 3, 10, 3, 16, 6, 3, 6, 8, 4, 0];
        }
        "G05" => {
            x.early = 95;
            x.kinds = [36, 36, 26, 2];
            x.ops = [12, 6, 1, 14, 1, 40, 2, 20, 1, 1, 0, 1, 0, 0, 0, 0];
        }
        "G06" => {
            x.min_deposit = 85;
            x.kinds = [36, 36, 26, 2];
            x.ops = [10, 4, 1, 24, 1, 22, 1, 20, 1, 1, 1, 1, 2, 0, 0, 0];
        }
        "G07" => {
            x.bad_pa = 40;
            x.ops = [12, 6, 1, 34, 8, 14, 3, 10, 1, 1, 2, 1, 1, 1, 0, 0];
        }
        "C01" => {
            x.council = 100;
            x.ops = [10, 5, 1, 10, 18, 10, 22, 16, 1, 1, 1, 3, 1, 0, 0, 0];
            x.pas = [6, 4, 14, 8, 6, 4, 6, 3, 2, 1, 4, 2, 1, 0];
        }
        "A01" => {
            x.ops = [9, 3, 2, 12, 4, 13, 4, 12, 2, 2, 1, 36, 2, 3, 0, 0];
            x.early = 80;
            x.pas = [3, 2, 3, 2, 2, 3, 3, 12, 12, 8, 3, 2, 1, 1];
            x.daos = 2;
            x.abroad = 60;
        }
        "S01" | "S02" => {
            x.kinds = [34, 34, 32, 0];
            x.ops = [30, 26, 22, 6, 0, 6, 0, 6, 1, 1, 1, 3, 6, 0, 0, 0];
            x.pas = [1, 14, 1, 1, 1, 2, 1, 8, 6, 1, 0, 2, 1, 0];
        }
        "M01" => {
            x.kinds = [26, 26, 24, 24];
            x.ops = [28, 22, 4, 10, 3, 10, 3, 12, 1, 1, 1, 2, 1, 0, 0, 0];
            x.pas = [1, 3, 6, 1, 1, 1, 1, 10, 3, 1, 26, 1, 1, 0];
        }
        "M02" => {
            x.kinds = [26, 26, 22, 26];
            x.ops = [24, 18, 2, 12, 3, 22, 4, 14, 6, 3, 0, 1, 0, 0, 0, 0];
            x.pas = [1, 2, 3, 2, 1, 1, 1, 10, 3, 1, 26, 4, 2, 0];
            x.marathon = 10;
        }
        "D01" | "D02" | "D03" => {
            x.kinds = [28, 28, 20, 24];
            x.min_weight = if p == "D02" { 85 } else { 40 };
            x.ops = [18, 12, 1, 12, 1, 14, 1, 16, 22, 18, 1, 2, 1, 0, 0, 0];
            x.pas = [1, 2, 2, if p == "D03" { 20 } else { 6 }, 1, 1, 1, if p == "D03" { 8 } else { 5 }, 4, 1, 8, 16, if p == "D02" { 24 } else { 8 }, 0];
        }
        "R01" => {
            x.attest = 85;
            x.ops = [14, 6, 3, 14, 4, 18, 5, 14, 4, 6, 14, 2, 1, 0, 0, 0];
            x.pas = [2, 2, 2, 2, 1, 2, 1, 24, 2, 1, 3, 3, 1, 0];
        }
        "T01" => {
            x.ops = [8, 3, 1, 20, 6, 20, 6, 22, 3, 2, 1, 8, 1, 0, 0, 0];
            x.pas = [1, 1, 1, 14, 10, 20, 1, 8, 18, 2, 1, 12, 1, 0];
            x.remotes = 1;
            x.cross = 4;
        }
        "P01" => {
            x.bad_pa = 30;
            x.ops = [10, 6, 2, 22, 2, 22, 2, 22, 1, 1, 1, 3, 0, 0, 0, 0];
            x.pas = [1, 40, 8, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 0];
        }
        "U01" => {
            x.multi_release = 100;
            x.ops = [8, 3, 1, 20, 8, 18, 8, 22, 1, 1, 1, 4, 0, 8, 0, 0];
            x.pas = [1, 1, 2, 1, 1, 1, 36, 8, 1, 4, 1, 1, 1, 0];
        }
        "U02" => {
            x.multi_release = 100;
            x.ops = [2, 1, 1, 3, 1, 3, 1, 3, 1, 1, 1, 3, 0, 60, 4, 0];
            x.steps = (40, 120);
        }
        "F01" => {
            x.multi_release = 80;
            x.fault = 20;
            x.ops = [8, 3, 1, 6, 2, 8, 2, 6, 3, 2, 2, 6, 1, 8, 50, 2];
            x.daos = 2;
            x.ics = 20;
            x.big = 4;
            x.steps = (25, 60);
        }
        "X01" => {
            x.remotes = 2;
            x.cross = 40;
            x.fault = 10;
            x.council = 30;
            x.early = 85;
            x.ops = [8, 3, 1, 26, 4, 22, 4, 26, 0, 0, 1, 4, 0, 0, 0, 0];
            x.pas = [1, 1, 1, 12, 8, 16, 1, 3, 12, 1, 1, 1, 0, 30];
        }
        "V01" => {
            x.via = 70;
            x.views = 1;
            x.legacy = 12;
            x.ics = 25;
            x.fault = 4;
            x.kinds = [30, 26, 26, 18];
            x.remotes = 1;
            x.cross = 8;
            x.pas[13] = 4;
            x.daos = 2;
            x.multi_release = 80;
            x.ops = [18, 10, 8, 16, 6, 16, 6, 16, 1, 1, 3, 2, 2, 0, 1, 1];
            x.steps = (50, 130);
        }
        "W01" => {
            x.leave = 100;
            x.fault = 15;
            x.kinds = [32, 32, 28, 8];
            x.min_deposit = 60;
            x.legacy = 10;
            x.attest = 20;
            x.ics = 10;
            x.multi_release = 60;
            x.ops = [24, 14, 8, 16, 2, 16, 2, 12, 10, 6, 2, 2, 2, 1, 0, 1];
            x.pas = [1, 6, 2, 5, 1, 4, 4, 8, 5, 2, 6, 10, 6, 0];
            x.steps = (40, 160);
        }
        "V02" => {
            x.old = 100;
            x.bad_pa = 0;
            x.min_deposit = 50;
            x.council = 60;
            x.multi_release = 80;
            x.remotes = 1;
            x.pas = [5, 8, 6, 6, 5, 6, 7, 6, 5, 4, 7, 5, 4, 3];
            x.ops = [10, 4, 1, 6, 2, 6, 2, 4, 1, 1, 1, 1, 1, 10, 0, 0];
            x.steps = (40, 110);
        }
        "L01" => {
            x.legacy = 100;
            x.big = 3;
            x.kinds = [0, 55, 45, 0];
            x.attest = 20;
            x.fault = 20;
            x.ops = [10, 10, 12, 12, 1, 14, 1, 12, 4, 4, 6, 2, 1, 0, 1, 0];
            x.steps = (40, 140);
        }
        "Q01" => {
            x.views = 2;
            x.long_lists = 40;
            x.big = 12;
            x.marathon = 6;
            x.steps = (40, 140);
            x.fault = 3;
            x.kinds = [22, 22, 36, 20];
            x.multi_release = 80;
            x.ops = [22, 8, 2, 26, 6, 22, 5, 12, 1, 1, 1, 1, 1, 2, 2, 0];
            x.pas = [2, 2, 3, 16, 14, 4, 1, 3, 6, 1, 8, 2, 1, 0];
        }
        "I01" => {
            x.kinds = [0, 0, 100, 0];
            x.ics = 100;
            x.ops = [14, 16, 14, 6, 1, 8, 1, 6, 1, 1, 1, 4, 4, 0, 0, 40];
        }
        _ => {}
    }
    x
}

/// Denominations nobody holds.
/// What a council can never be allowed to do.
const FORBIDDEN: [&str; 9] = [
    "update_gov_config",
    "update_council",
    "request_funding_from_dao",
    "execute_msgs",
    "execute_treasury_msgs",
    "execute_enterprise_msgs",
    "modify_multisig_membership",
    "distribute_funds",
    "update_minimum_weight_for_rewards",
];

fn fillers(n: u64) -> Vec<Asset> {
    (0..n).map(|i| Asset::Nat(if i % 7 == 3 { format!("uy{i:02}") } else { format!("ua{i:02}") })).collect()
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    pub pool: Vec<(u64, Step)>,
    pub clock: u64,
    pub scale: u64,
    pub stats: GenStats,
    pub long: bool,
}
enum Timing {
    Early,
    Now,
    Late,
}
#[derive(Clone, Debug, Default)]
pub struct GenStats {
    pub reordered: u64,
    pub duplicated: u64,
    pub dropped: u64,
    pub delayed: u64,
}

const RATIOS: [u64; 16] = [1, 500, 1000, 2000, 2500, 3000, 3333, 3334, 4000, 5000, 5001, 6000, 6667, 7500, 9999, 10000];

impl Gen {
    pub fn new(seed: u64, p: Profile) -> Gen {
        let mut r = Rng::new(seed);
        let scale = *r.pick(&[3u64, 10, 100, 1_000_000, 1 << 38]);
        Gen { r, p, pool: vec![], clock: 0, scale, stats: GenStats::default(), long: false }
    }
    fn user(&mut self, m: &WCfg) -> N {
        format!("u{}", self.r.below(m.users as u64))
    }
    fn amt(&mut self) -> Amt {
        let s = self.scale;
        (match self.r.below(10) {
            0 => 1,
            1 => 2,
            2..=5 => self.r.range(1, 10.min(s)),
            6..=8 => self.r.range(1, s),
            _ => s,
        }) as Amt
    }
    fn ratio(&mut self) -> u64 {
        if self.r.chance(85) {
            *self.r.pick(&RATIOS)
        } else {
            self.r.range(1, 10_000)
        }
    }
    fn bad_ratio(&mut self) -> u64 {
        *self.r.pick(&[0, 10_001, 20_000])
    }

    // ------------------------------------------------------------ world
    pub fn world(&mut self) -> (WCfg, Vec<Step>) {
        let big = self.r.chance(self.p.big);
        let users = if big { self.r.range(34, 110) } else { self.r.range(4, 8) } as usize;
        if big {
            // many members, but not for long
            self.p.steps = (self.p.steps.0 / 2, self.p.steps.1 / 2);
        }
        self.long = !big && self.r.chance(self.p.marathon);
        if self.long {
            self.p.steps = (120, 260);
            self.p.same_block = self.p.same_block.max(85);
            for (i, x) in [(0, 10), (1, 8), (3, 26), (4, 6), (5, 50), (6, 10), (7, 5)] {
                self.p.ops[i] = self.p.ops[i] / 4 + x;
            }
        }
        let mut global = vec![];
        if self.r.chance(50) {
            global.push(Asset::Nat("uluna".into()));
        }
        if self.r.chance(30) {
            global.push(Asset::Cw20("tok1".into()));
        }
        let nv = if big { self.r.range(20, users as u64) } else { self.r.range(1, 4) };
        let cw3 = (0..nv.min(users as u64)).map(|i| (format!("u{i}"), self.r.range(1, 5))).collect();
        let cfg = WCfg {
            users,
            coins: 1 << 50,
            nfts_each: self.r.range(2, 4) as usize,
            releases: 4,
            remotes: 0,
            global,
            cw3,
            salt: self.r.next() % 1_000_000,
            views: self.p.views,
            old: None,
        };
        let mut cfg = cfg;
        if self.p.remotes > 0 {
            let lo = if self.p.cross > 20 { 1 } else { 0 };
            cfg.remotes = self.r.range(lo, self.p.remotes) as usize;
        }
        if self.r.chance(self.p.old) {
            cfg.old = Some(self.old_cfg(&cfg));
        }
        let mut s = vec![];
        let adm = |m: M, to: &str| Step::tx("admin", vec![Act::ex(to, m)]);
        s.push(adm(M::AddVersion { v: (1, 0, 0), k: 0 }, "ver"));
        let mut known: Vec<Ver> = vec![(1, 0, 0)];
        if self.r.chance(self.p.multi_release) {
            let mut vs: Vec<(Ver, u64)> = vec![((1, 2, 1), 1)];
            for (v, k) in [((1, 0, 1), 2), ((1, 1, 0), 3), ((1, 3, 0), 4), ((2, 0, 0), 2), ((1, 2, 0), 3), ((1, 10, 0), 4)] {
                if self.r.chance(35) {
                    vs.push((v, k));
                }
            }
            while !vs.is_empty() {
                let i = self.r.idx(vs.len());
                let (v, k) = vs.remove(i);
                known.push(v);
                s.push(adm(M::AddVersion { v, k }, "ver"));
            }
        }
        for _ in 0..self.p.daos {
            let mut c = self.dao_cfg(&cfg, false);
            c.version = Some((1, 0, 0));
            if self.p.via > 0 && self.r.chance(40) {
                c.version = Some(*self.r.pick(&known));
            }
            s.push(Step::tx(&format!("u{}", self.r.below(2)), vec![Act::ex("fac", M::CreateDao(Box::new(c)))]));
        }
        (cfg, s)
    }

    fn old_cfg(&mut self, w: &WCfg) -> crate::old::OldCfg {
        let kind = *self.r.pick(&[Kind::Token, Kind::Token, Kind::Nft, Kind::Multisig]);
        let mut gov = self.gov(kind);
        if kind != Kind::Token {
            // no way to deposit anything else there
            gov.min_deposit = if self.r.chance(10) { Some(1) } else { None };
        }
        if gov.duration < 60 && self.r.chance(80) {
            gov.duration = 601;
        }
        let council = if self.r.chance(self.p.council) {
            // thresholds of the council cannot be told apart from those of the DAO
            gov.veto = gov.veto.map(|_| gov.threshold);
            Some(Council { quorum: gov.quorum, threshold: gov.threshold, ..self.council(w) })
        } else {
            None
        };
        let n = self.r.range(1, 6);
        let members = self.members(w, n).into_iter().map(|u| (u, self.r.range(1, 9))).collect();
        let mut assets = vec![];
        let n = *self.r.pick(&[0, 1, 2, 5, 14]);
        for a in [Asset::Nat("uluna".into()), Asset::Nat("uusd".into()), Asset::Cw20("tok1".into())].into_iter().chain(fillers(n)) {
            if self.r.chance(70) {
                assets.push(a);
            }
        }
        let nfts = ["nft0", "nft1"].iter().filter(|_| self.r.chance(60)).map(|x| x.to_string()).collect();
        let unlock = self.unlock(gov.duration);
        crate::old::OldCfg { kind, unlock, council, version: self.r.range(5, 100), meta: (0..6).map(|i| self.text(i)).collect(), members, assets, nfts, gov }
    }
    fn old_step(&mut self, w: &WCfg, m: &Model) -> Step {
        let (Some(o), Some(c)) = (&m.old, &w.old) else { return self.time_step(m) };
        if self.r.chance(12) {
            let pts: Vec<u64> = o.props.iter().map(|p| p.ends).filter(|t| *t + 2 * SEC > m.now).collect();
            if !pts.is_empty() {
                let t = (*self.r.pick(&pts) as i64 + *self.r.pick(&[-1_000_000_000, -1, 0, 0, 1, 1_000_000_000])) as u64;
                if t > m.now {
                    return Step::Block { dh: self.r.range(1, 3), dt: t - m.now };
                }
            }
        }
        let s = self.user(w);
        let id = |g: &mut Gen, vote: bool, council: bool| {
            let n = o.props.len() as u64;
            let open: Vec<u64> = (0..o.props.len()).filter(|i| o.props[*i].ends > m.now && o.props[*i].council == council).map(|i| i as u64 + 1).collect();
            if !open.is_empty() && vote && g.r.chance(90) {
                return *g.r.pick(&open);
            }
            if n > 0 && g.r.chance(93) {
                n - g.r.below(n.min(4))
            } else {
                g.r.below(n + 3)
            }
        };
        let acts = |g: &mut Gen| -> Vec<PA> {
            if m.daos.is_empty() {
                return vec![];
            }
            let n = g.r.weighted(&[4, 60, 25, 11]);
            (0..n).map(|_| { let k = g.r.idx(m.daos.len()); g.pa(w, m, k) }).collect()
        };
        let owner = None;
        let mine = |g: &mut Gen, who: &str| {
            let l: Vec<String> = m.nft["nft0"].owner.iter().filter(|x| x.1 == who).map(|x| x.0.clone()).collect();
            let n = g.r.range(1, 3) as usize;
            (0..n.min(l.len().max(1))).map(|_| if l.is_empty() || g.r.chance(4) { "n00".to_string() } else { g.r.pick(&l).clone() }).collect::<Vec<_>>()
        };
        let me = s.clone();
        let addr = |u: &str| crate::chain::hash_addr("terra", &format!("user/{}/{}", w.salt, &u[1..]));
        let all: Vec<(N, String)> = (0..w.users).map(|i| (format!("u{i}"), addr(&format!("u{i}")))).collect();
        let voters: Vec<N> = all.iter().filter(|x| o.w.get(&x.1).copied().unwrap_or(0) > 0).map(|x| x.0.clone()).collect();
        let waiting: Vec<N> = all.iter().filter(|x| o.claims.get(&x.1).map(|l| !l.is_empty()).unwrap_or(false)).map(|x| x.0.clone()).collect();
        let holder = if voters.is_empty() { s.clone() } else { self.r.pick(&voters).clone() };
        let staked = |g: &mut Gen| {
            let a = addr(&holder);
            let l: Vec<String> = o.nfts.iter().filter(|x| *x.1 == a || g.r.chance(4)).map(|x| x.0.clone()).collect();
            if l.is_empty() { vec!["n00".to_string()] } else { let n = g.r.range(1, 2); (0..n).map(|_| g.r.pick(&l).clone()).collect() }
        };
        let v = match self.r.weighted(&[18, 10, 9, 30, 8, 14, 14, 8, 5, 6]) {
            0 if c.kind == Kind::Token && self.r.chance(50) => Via::ProposeToken { owner, actions: acts(self), amount: self.amt() + c.gov.min_deposit.unwrap_or(0) - self.r.below(2) as Amt },
            0 => Via::Propose { owner, actions: acts(self) },
            1 if c.kind == Kind::Token => Via::ProposeToken { owner, actions: acts(self), amount: (c.gov.min_deposit.unwrap_or(1)).max(1) },
            1 => Via::Propose { owner, actions: acts(self) },
            2 => Via::CouncilPropose { actions: acts(self) },
            3 => Via::Vote { id: id(self, true, false), o: self.r.weighted(&[50, 25, 12, 13]) as u8 },
            4 => Via::CouncilVote { id: id(self, true, true), o: self.r.weighted(&[50, 25, 12, 13]) as u8 },
            5 if c.kind == Kind::Nft => Via::StakeNft { user: s.clone(), ids: mine(self, &me) },
            5 => Via::StakeCw20 { user: s.clone(), amount: self.amt() },
            6 => Via::Execute { id: id(self, false, false) },
            7 if c.kind == Kind::Nft => Via::UnstakeNft { ids: staked(self) },
            7 => Via::UnstakeCw20 { amount: self.amt() },
            8 => Via::Claim,
            _ => match self.r.below(7) {
                0 => Via::ProposeDenom { owner, actions: acts(self), amount: self.amt() },
                1 => Via::ProposeNft { owner, actions: acts(self), ids: mine(self, &me) },
                2 => Via::StakeDenom { user: s.clone(), amount: self.amt() },
                3 => Via::UnstakeDenom { amount: self.amt() },
                4 => Via::StakeNft { user: s.clone(), ids: mine(self, &me) },
                5 => Via::StakeCw20 { user: s.clone(), amount: self.amt() },
                _ => Via::ProposeToken { owner, actions: acts(self), amount: self.amt() },
            },
        };
        let s = match v {
            // a voter whose vote counts, mostly
            Via::CouncilPropose { .. } | Via::CouncilVote { .. } if self.r.chance(85) => c.council.as_ref().filter(|c| !c.members.is_empty()).map(|c| self.r.pick(&c.members).clone()).unwrap_or(s),
            Via::Vote { .. } if self.r.chance(92) => holder,
            Via::UnstakeNft { .. } | Via::UnstakeCw20 { .. } => holder,
            Via::Claim if !waiting.is_empty() && self.r.chance(90) => self.r.pick(&waiting).clone(),
            _ => s,
        };
        let (mut abort, mut fail) = (None, None);
        if self.r.chance(self.p.fault) {
            let n = self.r.below(3) as u32;
            if self.r.chance(40) {
                abort = Some(n);
            } else {
                fail = Some(n);
            }
        }
        Step::Old { s, v, abort, fail }
    }

    /// Steps that give the new DAO money and members.
    pub fn endow(&mut self, w: &WCfg, m: &Model) -> Vec<Step> {
        let mut s = vec![];
        for k in 0..m.daos.len() {
            if w.remotes > 0 && self.r.chance(80) {
                let n = self.r.range(1, 9) as Amt;
                s.push(Step::tx("admin", vec![Act::Bank { to: format!("d{k}.out"), coins: vec![("uluna".into(), n)] }]));
            }
            if self.r.chance(self.p.legacy) {
                s.extend(self.left_behind(w, m, k));
            }
            let tre = format!("d{k}.tre");
            let x = 1 + self.scale as Amt * 50;
            s.push(Step::tx(
                "admin",
                vec![
                    Act::Bank { to: tre.clone(), coins: vec![("udao".into(), x), ("uluna".into(), x), ("uusd".into(), x)] },
                    Act::ex("tok0", M::C20Transfer { to: tre.clone(), amount: x }),
                    Act::ex("tok1", M::C20Transfer { to: tre.clone(), amount: x }),
                ],
            ));
            for i in 0..w.users {
                if self.r.chance(70) && m.daos[k].kind != Kind::Multisig {
                    let u = format!("u{i}");
                    if m.restricted(k, &u) && self.r.chance(80) {
                        if let Some(a) = &m.daos[k].att {
                            s.push(Step::tx(&u, vec![Act::ex(a.clone(), M::Sign)]));
                        }
                    }
                    if let Some(a) = self.stake(w, m, k, &u) {
                        s.push(Step::tx(&u, vec![a]));
                    }
                } else if self.r.chance(80) {
                    if let Some(a) = &m.daos[k].att {
                        s.push(Step::tx(&format!("u{i}"), vec![Act::ex(a.clone(), M::Sign)]));
                    }
                }
            }
        }
        s
    }

    /// What an older contract may have left in the treasury.
    pub fn left_behind(&mut self, w: &WCfg, m: &Model, k: usize) -> Option<Step> {
        let d = m.daos.get(k)?;
        let mut l = Legacy { running: self.r.chance(60), ..Default::default() };
        let mut own: Vec<String> = vec![];
        match d.kind {
            Kind::Token => {}
            Kind::Nft if d.ics.is_none() => own = m.nft.get(&d.nft)?.owner.iter().filter(|x| x.1.starts_with('u')).map(|x| x.0.clone()).collect(),
            _ => return None,
        }
        let (ps, pc) = (*self.r.pick(&[0, 40, 80, 100]), *self.r.pick(&[0, 40, 80]));
        for i in 0..w.users {
            let u = format!("u{i}");
            if self.r.chance(ps) {
                if d.kind == Kind::Token {
                    let x = if self.r.chance(4) { 0 } else { self.amt() };
                    l.stakes.push((u.clone(), x));
                } else {
                    for _ in 0..self.r.range(1, 3) {
                        if !own.is_empty() {
                            let j = self.r.idx(own.len());
                            l.nfts.push((own.remove(j), u.clone()));
                        }
                    }
                }
            }
            if self.r.chance(pc) {
                let mut v = vec![];
                for _ in 0..self.r.range(1, 4) {
                    let rel = if self.r.chance(70) {
                        Rel::Time((m.now + self.r.below(4000) * 1_000_000_000).saturating_sub(1_000_000_000_000))
                    } else {
                        Rel::Height(m.height + self.r.below(30))
                    };
                    let mut c = LClaim { amount: 0, ids: vec![], rel };
                    if d.kind == Kind::Token {
                        c.amount = self.amt();
                    } else {
                        for _ in 0..self.r.range(1, 2) {
                            if !own.is_empty() {
                                let j = self.r.idx(own.len());
                                c.ids.push(own.remove(j));
                            }
                        }
                        if c.ids.is_empty() {
                            continue;
                        }
                    }
                    v.push(c);
                }
                if !v.is_empty() {
                    l.claims.push((u, v));
                }
            }
        }
        Some(Step::Legacy { k, l })
    }
    fn gov(&mut self, kind: Kind) -> Gov {
        let q = if self.r.chance(50) { *self.r.pick(&[1, 500, 1000, 2000, 2500]) } else { self.ratio() };
        Gov {
            quorum: q,
            threshold: self.ratio(),
            veto: if self.r.chance(50) { Some(self.ratio()) } else { None },
            duration: if self.long {
                *self.r.pick(&[3600, 86400, 604_800])
            } else {
                let i = self.r.weighted(&[2, 3, 2, 3, 14, 18, 22, 22, 14]);
                [1, 5, 9, 10, 60, 100, 601, 3600, 86400][i]
            },
            min_deposit: if kind != Kind::Multisig && self.r.chance(self.p.min_deposit) {
                Some(if kind == Kind::Nft { self.r.below(3) as Amt } else { self.r.below(20) as Amt })
            } else {
                None
            },
            early: self.r.chance(self.p.early),
        }
    }
    fn members(&mut self, w: &WCfg, n: u64) -> Vec<N> {
        let mut v = vec![];
        for _ in 0..n {
            let u = self.user(w);
            if !v.contains(&u) {
                v.push(u);
            }
        }
        v
    }
    fn council(&mut self, w: &WCfg) -> Council {
        let n = self.r.range(1, 5);
        Council {
            members: self.members(w, n),
            quorum: self.ratio(),
            threshold: self.ratio(),
            types: if self.r.chance(30) {
                None
            } else {
                let mut v: Vec<String> = vec![];
                for t in COUNCIL_TYPES {
                    if self.r.chance(60) {
                        v.push(t.to_string());
                    }
                }
                Some(v)
            },
        }
    }
    fn unlock(&mut self, dur: u64) -> Dur {
        match self.r.below(4) {
            0 => Dur::Height(self.r.range(0, 30)),
            1 => Dur::Time(dur),
            _ => Dur::Time(dur + self.r.below(dur * 2 + 10)),
        }
    }
    fn dao_cfg(&mut self, w: &WCfg, wild: bool) -> DaoCfg {
        let kind = [Kind::Denom, Kind::Token, Kind::Nft, Kind::Multisig][self.r.weighted(&self.p.kinds.clone())];
        let gov = self.gov(kind);
        let mut unlock = self.unlock(gov.duration);
        if wild && self.r.chance(8) {
            unlock = Dur::Time(gov.duration.max(1) - 1);
        }
        let mem = match kind {
            Kind::Denom => MemSpec::Denom { denom: "udao".into(), unlock },
            Kind::Token => {
                if wild && self.r.chance(50) {
                    let n = self.r.below(4);
                    let balances = self.members(w, n).into_iter().map(|u| { let lo = if self.r.chance(8) { 0 } else { 1 }; (u, self.r.range(lo, 50) as Amt) }).collect();
                    let minter = if self.r.chance(50) { Some(self.user(w)) } else { None };
                    MemSpec::NewCw20 {
                        balances,
                        dao: if self.r.chance(50) { Some(self.r.below(20) as Amt) } else { None },
                        minter,
                        cap: if self.r.chance(30) { Some(self.r.below(120) as Amt) } else { None },
                        unlock,
                        look: self.look(w),
                    }
                } else {
                    MemSpec::ImportCw20 { tok: if wild && self.r.chance(35) { self.r.pick(&["u1", "tokz", "tokm", "tok1", "nft0"]).to_string() } else { "tok0".into() }, unlock }
                }
            }
            Kind::Nft => {
                if self.r.chance(self.p.ics) {
                    MemSpec::Ics721 { class: "class".into(), unlock }
                } else if wild && self.r.chance(40) {
                    MemSpec::NewCw721 { minter: if self.r.chance(60) { Some(self.user(w)) } else { None }, unlock, n: self.r.below(40) as u8 }
                } else {
                    MemSpec::ImportCw721 { nft: if wild && self.r.chance(35) { self.r.pick(&["u1", "tok0", "ext", "bad5", "cw3a", "nft1"]).to_string() } else { "nft0".into() }, unlock }
                }
            }
            Kind::Multisig => {
                if self.r.chance(if wild { 35 } else { 10 }) {
                    MemSpec::ImportCw3 { cw3: if wild && self.r.chance(30) { self.r.pick(&["cw3e", "cw3z", "u1", "tok0"]).to_string() } else { "cw3a".into() } }
                } else {
                    let n = self.r.range(if wild { 0 } else { 2 }, 5);
                    let mut members: Vec<(N, Amt)> = self.members(w, n).into_iter().map(|u| (u, self.amt())).collect();
                    if wild && self.r.chance(10) {
                        for x in &mut members {
                            if self.r.chance(70) {
                                x.1 = 0;
                            }
                        }
                    }
                    if wild && self.r.chance(10) && !members.is_empty() {
                        members.push((members[0].0.clone(), 3));
                    }
                    MemSpec::NewMultisig { members }
                }
            }
        };
        let mut assets = vec![];
        for a in [Asset::Nat("udao".into()), Asset::Nat("uusd".into()), Asset::Nat("uluna".into()), Asset::Cw20("tok0".into()), Asset::Cw20("tok1".into())] {
            if self.r.chance(45) {
                assets.push(a);
            }
        }
        if self.r.chance(self.p.long_lists) {
            // more than a page of them, most before the assets that are in use
            assets.extend(fillers(self.r.range(20, 45)));
        }
        let mut c = DaoCfg {
            name: if wild && self.r.chance(5) { String::new() } else { format!("dao {}", self.r.below(100)) },
            meta: std::array::from_fn(|i| self.text(i)),
            gov,
            council: if self.r.chance(self.p.council) { Some(self.council(w)) } else { None },
            mem,
            assets: if self.r.chance(80) { Some(assets) } else { None },
            nfts: if self.r.chance(50) { Some(vec!["nft0".into()]) } else { None },
            min_weight: if self.r.chance(self.p.min_weight) { Some(self.r.below(self.scale.min(30) + 2) as Amt) } else { None },
            xchain: if w.remotes > 0 && self.r.chance(if self.p.cross > 20 { 80 } else if wild { 40 } else { 25 }) {
                let n = if self.p.cross > 20 { self.r.range(1, 2) } else { self.r.below(3) };
                Some((0..n).map(|_| (self.r.below(w.remotes as u64) as u8, self.wl())).collect())
            } else {
                None
            },
            attest: if self.r.chance(self.p.attest) { Some(format!("I agree {}", self.r.below(9))) } else { None },
            version: None,
        };
        if wild {
            if self.r.chance(30) {
                c.version = Some(*self.r.pick(&[(1, 0, 0), (1, 2, 1), (1, 3, 0), (9, 9, 9)]));
            }
            match self.r.below(24) {
                0 => c.gov.quorum = self.bad_ratio(),
                1 => c.gov.threshold = self.bad_ratio(),
                2 => c.gov.veto = Some(self.bad_ratio()),
                3 => c.gov.duration = 0,
                4 => c.gov.min_deposit = Some(3),
                5 => c.council = Some(self.bad_council(w)),
                6 => c.assets = Some(vec![Asset::Cw20("bad1".into())]),
                7 => c.nfts = Some(vec!["bad2".into()]),
                _ => {}
            }
        }
        c
    }
    /// What a DAO may say about itself.
    fn text(&mut self, i: usize) -> Option<String> {
        if self.r.chance(50) {
            Some(format!("{} {}", META[i], self.r.below(30)))
        } else {
            None
        }
    }
    fn meta_change(&mut self) -> MetaChange {
        let mut v = vec![];
        for i in 0..META.len() {
            if self.r.chance(35) {
                let x = if self.r.chance(70) { self.text(i).or(Some(String::new())) } else { None };
                v.push((i as u8, x));
            }
        }
        v
    }
    fn look(&mut self, w: &WCfg) -> TokLook {
        let s = |me: &mut Self, t: &str| if me.r.chance(50) { Some(format!("{t} {}", me.r.below(9))) } else { None };
        let marketing = if self.r.chance(50) {
            let o = match self.r.below(10) {
                0..=3 => None,
                4 => Some("bad4".to_string()),
                _ => Some(self.user(w)),
            };
            Some((s(self, "project"), s(self, "description"), o, s(self, "logo")))
        } else {
            None
        };
        TokLook { n: self.r.below(40) as u8, marketing }
    }
    /// Puts something anywhere into a list.
    fn slip<T>(&mut self, v: &mut Vec<T>, x: T) {
        let i = self.r.below(v.len() as u64 + 1) as usize;
        v.insert(i, x);
    }
    fn bad_council(&mut self, w: &WCfg) -> Council {
        let mut c = self.council(w);
        match self.r.below(5) {
            0 => {
                let x = self.r.pick(&c.members).clone();
                self.slip(&mut c.members, x);
            }
            1 => self.slip(&mut c.members, "bad3".into()),
            2 => c.quorum = self.bad_ratio(),
            3 => c.threshold = self.bad_ratio(),
            _ => {
                let x = (*self.r.pick(&FORBIDDEN)).to_string();
                let mut v = if self.r.chance(50) { c.types.take().unwrap_or_default() } else { vec![] };
                self.slip(&mut v, x);
                c.types = Some(v);
            }
        }
        c
    }

    // ------------------------------------------------------------ operations
    fn stake(&mut self, w: &WCfg, m: &Model, k: usize, u: &str) -> Option<Act> {
        let d = &m.daos[k];
        let mem = format!("d{k}.mem");
        let other = if self.r.chance(12) { Some(self.user(w)) } else { None };
        match d.kind {
            Kind::Denom => {
                let mut funds = vec![("udao".to_string(), self.amt())];
                if self.r.chance(4) {
                    funds = match self.r.below(4) {
                        0 => vec![],
                        1 => vec![("uusd".into(), 5)],
                        2 => vec![("udao".into(), 5), ("uusd".into(), 5)],
                        _ => vec![("uusd".into(), 5), ("udao".into(), 5)],
                    };
                }
                Some(Act::exf(mem, M::Stake { user: other }, funds))
            }
            Kind::Token => {
                let tok = if self.r.chance(4) { "tok1".to_string() } else { d.token.clone() };
                let amount = self.amt();
                let hook = match self.r.below(20) {
                    0..=16 => Hook::Stake { user: other.unwrap_or(u.to_string()) },
                    17 | 18 => {
                        let mut v = vec![];
                        let mut left = amount;
                        for _ in 0..3 {
                            let x = self.r.below(left as u64 + 1) as Amt;
                            v.push((self.user(w), x));
                            left -= x;
                        }
                        v.push((self.user(w), left));
                        match self.r.below(9) {
                            0 => v[0].1 += 1,
                            1 => v[3].1 -= v[3].1.min(1),
                            2 => {
                                v.pop();
                            }
                            _ => {}
                        }
                        Hook::AddStakes(v)
                    }
                    _ => {
                        let rel = if self.r.chance(50) { Rel::Time(m.now + self.r.below(100) * SEC) } else { Rel::Height(m.height + self.r.below(20)) };
                        let mut v = vec![];
                        let mut left = amount;
                        for _ in 0..self.r.below(4) {
                            let x = self.r.below(left as u64 + 1) as Amt;
                            v.push((self.user(w), x, if self.r.chance(50) { rel } else { Rel::Time(m.now + self.r.below(100) * SEC) }));
                            left -= x;
                        }
                        v.push((self.user(w), left, rel));
                        match self.r.below(9) {
                            0 => v[0].1 += 1,
                            1 => v[0].1 -= v[0].1.min(1),
                            2 => {
                                v.pop();
                            }
                            _ => {}
                        }
                        Hook::AddClaims(v)
                    }
                };
                Some(Act::ex(tok, M::C20Send { to: mem, amount, hook }))
            }
            Kind::Nft => {
                let c = if self.r.chance(4) { "nft1".to_string() } else { m.nft_contract(k).unwrap_or("nft0".into()) };
                let own: Vec<String> = m.nft.get(&c)?.owner.iter().filter(|x| x.1 == u).map(|x| x.0.clone()).collect();
                if own.is_empty() {
                    return None;
                }
                let id = self.r.pick(&own).clone();
                let hook = if self.r.chance(94) {
                    Hook::Stake { user: other.unwrap_or(u.to_string()) }
                } else {
                    Hook::AddNftClaim { user: self.user(w), release: Rel::Height(m.height + self.r.below(20)) }
                };
                Some(Act::ex(c, M::NftSend { to: mem, id, hook }))
            }
            Kind::Multisig => None,
        }
    }

    pub fn dao(&mut self, m: &Model) -> usize {
        self.r.below(m.daos.len() as u64) as usize
    }

    /// One client operation.
    fn op(&mut self, w: &WCfg, m: &Model) -> Vec<Step> {
        if m.daos.is_empty() {
            return vec![];
        }
        let k = self.dao(m);
        let d = &m.daos[k];
        let ctl = format!("d{k}.ctl");
        let mem = format!("d{k}.mem");
        let dist = format!("d{k}.dist");
        let mut op = ALL_OPS[self.r.weighted(&self.p.ops.clone())];
        if d.kind == Kind::Multisig && matches!(op, Op::Stake | Op::Unstake | Op::Claim) {
            op = Op::Propose;
        }
        if d.council.is_none() && matches!(op, Op::CouncilPropose | Op::CouncilVote) && self.r.chance(85) {
            op = Op::Propose;
        }
        let open = |c: bool| d.props.values().any(|p| p.fin.is_none() && p.ends > m.now && p.council == c);
        if op == Op::Vote && !open(false) && self.r.chance(80) {
            op = Op::Propose;
        }
        if op == Op::CouncilVote && !open(true) && self.r.chance(80) {
            op = Op::CouncilPropose;
        }
        if op == Op::Execute && d.props.values().all(|p| p.executed.is_some()) && self.r.chance(80) {
            op = Op::Propose;
        }
        let u = self.user(w);
        let one = |s: &str, a: Act| vec![Step::tx(s, vec![a])];
        match op {
            Op::Stake => match self.stake(w, m, k, &u) {
                Some(a) => one(&u, a),
                None => vec![],
            },
            Op::Unstake => {
                // prefer members
                let u = self.member(m, k).unwrap_or(u);
                let st = d.mem.wt.get(&u);
                match d.kind {
                    Kind::Nft => {
                        let mut own: Vec<String> = d.mem.stakes.iter().filter(|x| x.1 == &u).map(|x| x.0.clone()).collect();
                        let mut ids = vec![];
                        let lo = if self.r.chance(5) { 0 } else { 1 };
                        let n = self.r.range(lo, 3);
                        for _ in 0..n {
                            if own.is_empty() {
                                break;
                            }
                            let i = self.r.idx(own.len());
                            ids.push(own.remove(i));
                        }
                        if self.r.chance(8) {
                            // someone else's, unknown, or the same token twice
                            match self.r.below(3) {
                                0 => {
                                    if let Some(x) = d.mem.stakes.iter().find(|x| x.1 != &u) {
                                        ids.push(x.0.clone());
                                    }
                                }
                                1 => ids.push("zz".into()),
                                _ => {
                                    if let Some(x) = ids.first().cloned() {
                                        ids.push(x);
                                    }
                                }
                            }
                        }
                        one(&u, Act::ex(mem, M::UnstakeNft { ids }))
                    }
                    _ => {
                        let amount = match self.r.below(10) {
                            0 => st,
                            1 => st + 1,
                            2 => 0,
                            3 => st / 2,
                            _ => {
                                if st > 0 {
                                    1 + self.r.below((st as u64).min(1 << 40)) as Amt
                                } else {
                                    self.amt()
                                }
                            }
                        };
                        one(&u, Act::ex(mem, M::Unstake { amount }))
                    }
                }
            }
            Op::Claim => {
                let u = if !d.mem.claims.is_empty() && self.r.chance(85) {
                    self.r.pick(&d.mem.claims).user.clone()
                } else {
                    u
                };
                let s = if self.r.chance(8) { self.user(w) } else { u.clone() };
                if !s.starts_with('u') {
                    return vec![];
                }
                let user = if self.r.chance(50) || s != u { Some(u) } else { None };
                one(&s, Act::ex(mem, M::Claim { user }))
            }
            Op::Propose => self.propose(w, m, k),
            Op::CouncilPropose => {
                let u = if self.r.chance(85) { self.councillor(m, k).unwrap_or(u) } else { u };
                let n = self.r.range(0, 2);
                let allowed = d.council.as_ref().map(|c| c.types.clone()).unwrap_or_default();
                let mut actions = vec![];
                for _ in 0..n {
                    let mut a = self.pa(w, m, k);
                    for _ in 0..12 {
                        if allowed.iter().any(|t| t == crate::model::pa_type(&a)) || self.r.chance(6) {
                            break;
                        }
                        a = self.pa(w, m, k);
                    }
                    actions.push(a);
                }
                let id = d.props.len() as u64 + 1;
                let mut v = one(&u, Act::ex(ctl.clone(), M::CouncilPropose { actions }));
                if self.r.chance(80) {
                    let bias = self.r.below(100);
                    for c in d.cmem.w.keys() {
                        if self.r.chance(75) {
                            let o = if self.r.below(100) < bias { 0 } else { self.r.below(4) as u8 };
                            self.later(Step::tx(c, vec![Act::ex(ctl.clone(), M::CouncilVote { id, o })]));
                        }
                    }
                    let e = self.user(w);
                    self.later(Step::tx(&e, vec![Act::ex(ctl.clone(), M::Execute { id })]));
                }
                if v.is_empty() {
                    v = vec![];
                }
                v
            }
            Op::Vote => {
                let u = if self.r.chance(85) { self.member(m, k).unwrap_or(u) } else { u };
                let id = self.prop_id(m, k, false);
                let o = self.r.weighted(&[50, 22, 14, 14]) as u8;
                one(&u, Act::ex(ctl, if self.r.chance(4) { M::CouncilVote { id, o } } else { M::Vote { id, o } }))
            }
            Op::CouncilVote => {
                let u = if self.r.chance(85) { self.councillor(m, k).unwrap_or(u) } else { u };
                let id = self.prop_id(m, k, true);
                let o = self.r.weighted(&[50, 22, 14, 14]) as u8;
                one(&u, Act::ex(ctl, if self.r.chance(4) { M::Vote { id, o } } else { M::CouncilVote { id, o } }))
            }
            Op::Execute => {
                // prefer what can be executed
                let open: Vec<u64> = d.props.iter().filter(|(_, p)| p.executed.is_none()).map(|x| *x.0).collect();
                let ready: Vec<u64> = d
                    .props
                    .iter()
                    .filter(|(_, p)| p.executed.is_none() && (p.ends <= m.now || matches!(p.outcome(m.votes_total(k, p)), Fin::Passed | Fin::Rejecting | Fin::Vetoed | Fin::Draw)))
                    .map(|x| *x.0)
                    .collect();
                let id = if !ready.is_empty() && self.r.chance(75) {
                    *self.r.pick(&ready)
                } else if !open.is_empty() && self.r.chance(70) {
                    *self.r.pick(&open)
                } else {
                    self.r.below(d.props.len() as u64 + 2)
                };
                one(&u, Act::ex(ctl, M::Execute { id }))
            }
            Op::Distribute => {
                if self.r.chance(60) {
                    let mut coins = vec![];
                    for x in DENOMS {
                        if self.r.chance(45) {
                            coins.push((x.to_string(), self.amt()));
                        }
                    }
                    one(&u, Act::exf(dist, M::DistNative, coins))
                } else {
                    let t = self.r.pick(&TOKS).to_string();
                    let hook = if self.r.chance(3) { Hook::Junk } else { Hook::Distribute };
                    one(&u, Act::ex(t, M::C20Send { to: dist, amount: self.amt(), hook }))
                }
            }
            Op::ClaimRewards => {
                let u = self.member(m, k).filter(|x| x.starts_with('u')).unwrap_or(u);
                let user = if self.r.chance(7) { self.user(w) } else { u.clone() };
                let mut natives: Vec<String> = vec![];
                let mut cw20s = vec![];
                for x in DENOMS {
                    if self.r.chance(60) {
                        natives.push(x.to_string());
                    }
                }
                for x in TOKS {
                    if self.r.chance(60) {
                        cw20s.push(x.to_string());
                    }
                }
                if self.r.chance(10) && !natives.is_empty() {
                    natives.push(natives[0].clone());
                }
                one(&u, Act::ex(dist, M::ClaimRewards { user, natives, cw20s }))
            }
            Op::Sign => match &d.att {
                Some(a) => {
                    let c = if self.r.chance(12) && d.att_n > 1 { format!("d{k}.att{}", self.r.below(d.att_n as u64)) } else { a.clone() };
                    one(&u, Act::ex(c, M::Sign))
                }
                None => vec![],
            },
            Op::Probe => {
                let a = self.probe(w, m, k);
                let via = self.r.chance(15);
                if via {
                    one(&u, Act::ex("ext", M::Forward(vec![a])))
                } else {
                    one(&u, a)
                }
            }
            Op::Noise => match self.r.below(6) {
                0 => one(&u, Act::Bank { to: self.user(w), coins: vec![(self.r.pick(&DENOMS).to_string(), self.amt())] }),
                1 => one(&u, Act::ex(self.r.pick(&TOKS).to_string(), M::C20Transfer { to: self.user(w), amount: self.amt() })),
                2 => {
                    let c = self.r.pick(&NFTS).to_string();
                    let own: Vec<String> = m.nft[&c].owner.iter().filter(|x| x.1 == &u).map(|x| x.0.clone()).collect();
                    if own.is_empty() {
                        return vec![];
                    }
                    let id = self.r.pick(&own).clone();
                    one(&u, Act::ex(c, M::NftTransfer { to: self.user(w), id }))
                }
                3 => one(&u, Act::Bank { to: format!("d{k}.tre"), coins: vec![("udao".into(), self.amt())] }),
                4 => one(&u, Act::Bank { to: mem, coins: vec![("udao".into(), self.amt())] }),
                _ if self.r.chance(50) => {
                    // whoever may mint does
                    let c: Vec<(N, N)> = m
                        .tinfo
                        .iter()
                        .filter_map(|(t, i)| i.minter.clone().map(|x| (t.clone(), x.0)))
                        .chain(m.nft.iter().filter_map(|(t, i)| i.minter.clone().map(|x| (t.clone(), x))))
                        .collect();
                    let (t, by) = self.r.pick(&c).clone();
                    let s = if part(&by).is_some() || self.r.chance(10) { u.clone() } else { by };
                    let to = self.user(w);
                    let x = if m.nft.contains_key(&t) { M::NftMint { id: format!("z{}", self.r.below(40)), owner: to } } else { M::C20Mint { to, amount: self.amt() } };
                    one(&s, Act::ex(t, x))
                }
                _ => one(&u, Act::ex("ext", M::Bump)),
            },
            Op::Registry => {
                let s = if self.r.chance(75) { m.ver_admin.clone() } else { u };
                let v = self.version(m);
                let a = match self.r.below(10) {
                    0..=4 => M::AddVersion { v, k: self.r.range(1, 4) },
                    5..=7 => M::EditVersion {
                        v,
                        changelog: if self.r.chance(50) { Some(format!("notes {}", self.r.below(9))) } else { None },
                        k: if self.r.chance(75) { Some(self.r.range(1, 4)) } else { None },
                        only: if self.r.chance(65) { (0..self.r.range(1, 3)).map(|_| self.r.below(11) as u8).collect() } else { vec![] },
                    },
                    8 => M::VerAdmin { to: if self.r.chance(20) { "bad5".into() } else { self.user(w) } },
                    _ => self.fac_config(w),
                };
                let to = if matches!(a, M::FacConfig { .. }) { "fac" } else { "ver" };
                let s = if to == "fac" && self.r.chance(80) { m.fac_admin.clone() } else { s };
                one(&s, Act::ex(to, a))
            }
            Op::Create => {
                if m.daos.len() >= 7 {
                    return vec![];
                }
                let c = self.dao_cfg(w, true);
                one(&u, Act::ex("fac", M::CreateDao(Box::new(c))))
            }
            Op::Ics => self.ics(w, m, k),
        }
    }

    fn fac_config(&mut self, w: &WCfg) -> M {
        let code = |me: &mut Self, base: u64| {
            if me.r.chance(35) {
                Some(if me.r.chance(8) { 777 } else { base + 1000 * me.r.below(5) })
            } else {
                None
            }
        };
        M::FacConfig {
            admin: if self.r.chance(35) { Some(if self.r.chance(15) { "bad6".into() } else { self.user(w) }) } else { None },
            versioning: if self.r.chance(30) { Some(self.r.pick(&["ver", "ver", "ver2", "ver2", "ext", "u0", "bad7"]).to_string()) } else { None },
            cw20: code(self, crate::codes::CW20),
            cw721: code(self, crate::codes::CW721),
        }
    }
    fn ics(&mut self, w: &WCfg, m: &Model, k: usize) -> Vec<Step> {
        let u = self.user(w);
        let mem = format!("d{k}.mem");
        let own: Vec<String> = m.nft["nft0"].owner.iter().filter(|x| x.1 == &u).map(|x| x.0.clone()).collect();
        match self.r.below(12) {
            0 | 1 => vec![Step::tx(&u, vec![Act::ex("ics721", M::IcsRegister { class: "class".into(), nft: "nft0".into() })])],
            2 => vec![Step::tx(&u, vec![Act::ex("ics721", M::IcsRegister { class: "other".into(), nft: "nft1".into() })])],
            3 => vec![Step::tx(
                &u,
                vec![Act::ex("ics721cb", M::IcsCallback { nft: "nft0".into(), ids: own.clone(), user: u.clone(), mem, junk: false })],
            )],
            _ => {
                // the bridge hands the tokens to the callback contract and calls it
                if own.is_empty() {
                    return vec![];
                }
                let n = self.r.range(1, 2.min(own.len() as u64)) as usize;
                let ids: Vec<String> = own[..n].to_vec();
                let mut acts: Vec<Act> = ids.iter().map(|id| Act::ex("nft0", M::NftTransfer { to: "ics721cb".into(), id: id.clone() })).collect();
                let nft = if self.r.chance(4) { "nft1".to_string() } else { "nft0".to_string() };
                let user = if self.r.chance(80) { u.clone() } else { self.user(w) };
                let cb = M::IcsCallback { nft, ids, user, mem, junk: self.r.chance(4) };
                acts.push(Act::ex("ics721", M::IcsForward(vec![Act::ex("ics721cb", cb)])));
                vec![Step::tx(&u, acts)]
            }
        }
    }

    fn version(&mut self, m: &Model) -> Ver {
        if self.r.chance(35) && !m.releases.is_empty() {
            let v: Vec<Ver> = m.releases.keys().copied().collect();
            return *self.r.pick(&v);
        }
        (self.r.range(1, 2), *self.r.pick(&[0, 1, 2, 3, 9, 10, 11]), self.r.below(3))
    }
    fn member(&mut self, m: &Model, k: usize) -> Option<N> {
        let v: Vec<N> = m.daos[k].mem.wt.w.keys().filter(|x| x.starts_with('u')).cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }
    fn councillor(&mut self, m: &Model, k: usize) -> Option<N> {
        let v: Vec<N> = m.daos[k].cmem.w.keys().filter(|x| x.starts_with('u')).cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }
    fn prop_id(&mut self, m: &Model, k: usize, council: bool) -> u64 {
        let open: Vec<u64> = m.daos[k].props.iter().filter(|(_, p)| p.fin.is_none() && p.ends > m.now && p.council == council).map(|x| *x.0).collect();
        if !open.is_empty() && self.r.chance(90) {
            return *self.r.pick(&open);
        }
        self.r.below(m.daos[k].props.len() as u64 + 2)
    }

    fn propose(&mut self, w: &WCfg, m: &Model, k: usize) -> Vec<Step> {
        let d = &m.daos[k];
        let ctl = format!("d{k}.ctl");
        let u = if self.r.chance(88) { self.member(m, k).unwrap_or("u0".into()) } else { self.user(w) };
        let n = self.r.weighted(&[4, 46, 28, 14, 8]);
        let mut actions: Vec<PA> = (0..n).map(|_| self.pa(w, m, k)).collect();
        if self.r.permille(15) {
            actions = (0..11).map(|_| PA::MinWeight(1)).collect();
        } else if self.r.permille(15) {
            actions = (0..10).map(|_| PA::MinWeight(1)).collect();
        }
        let owner = if self.r.chance(20) { Some(self.user(w)) } else { None };
        let need = d.gov.min_deposit.unwrap_or(0);
        let dep = match self.r.below(10) {
            0 => 0,
            1 => need.max(1) - 1,
            2..=6 => need,
            _ => need + self.r.below(4) as Amt,
        };
        let act = match d.kind {
            Kind::Denom => {
                let mut f = vec![];
                if dep > 0 {
                    f.push(("udao".to_string(), dep));
                }
                if self.r.chance(3) {
                    f.push(("uusd".to_string(), 3));
                }
                Act::exf(ctl.clone(), M::Propose { owner, actions }, f)
            }
            Kind::Token if (dep > 0 && self.r.chance(95)) || self.r.chance(10) => {
                let t = if self.r.chance(4) { "tok1".to_string() } else { d.token.clone() };
                Act::ex(t, M::C20Send { to: ctl.clone(), amount: dep, hook: Hook::Propose { owner, actions } })
            }
            Kind::Nft if dep > 0 || self.r.chance(15) => {
                let c = m.nft_contract(k).unwrap_or("nft0".into());
                let own: Vec<String> = m.nft.get(&c).map(|x| x.owner.iter().filter(|x| x.1 == &u).map(|x| x.0.clone()).collect()).unwrap_or_default();
                let mut ids: Vec<String> = own.into_iter().take(dep as usize).collect();
                if self.r.chance(4) && !ids.is_empty() {
                    ids.push(ids[0].clone());
                }
                if self.r.chance(4) {
                    if let Some(x) = m.nft.get(&c).and_then(|x| x.owner.iter().find(|x| x.1 != &u).map(|x| x.0.clone())) {
                        ids.push(x);
                    }
                }
                // somebody else's tokens, with or without that person's approval of the proposer
                let holders: Vec<N> = m.nft.get(&c).map(|x| x.owner.values().filter(|o| *o != &u && o.starts_with('u')).cloned().collect()).unwrap_or_default();
                if self.r.chance(20) && !holders.is_empty() {
                    let v = self.r.pick(&holders).clone();
                    let mut theirs: Vec<String> = m.nft[&c].owner.iter().filter(|x| x.1 == &v).map(|x| x.0.clone()).take(dep.max(1) as usize).collect();
                    let mut acts: Vec<Act> = vec![];
                    let friend = self.r.chance(60);
                    for id in &theirs {
                        if self.r.chance(90) {
                            acts.push(Act::ex(c.clone(), M::NftApprove { spender: ctl.clone(), id: id.clone() }));
                        }
                        if friend && self.r.chance(90) {
                            acts.push(Act::ex(c.clone(), M::NftApprove { spender: u.clone(), id: id.clone() }));
                        }
                    }
                    let mut steps = if acts.is_empty() { vec![] } else { vec![Step::tx(&v, acts)] };
                    let mut acts: Vec<Act> = vec![];
                    if self.r.chance(30) {
                        for id in &ids {
                            acts.push(Act::ex(c.clone(), M::NftApprove { spender: ctl.clone(), id: id.clone() }));
                        }
                        theirs.extend(ids);
                    }
                    acts.push(Act::ex(ctl.clone(), M::ProposeNft { owner, ids: theirs, actions }));
                    steps.push(Step::tx(&u, acts));
                    let id = d.props.len() as u64 + 1;
                    self.campaign(w, m, k, id);
                    return steps;
                }
                let mut acts: Vec<Act> = vec![];
                for id in &ids {
                    if self.r.chance(95) {
                        acts.push(Act::ex(c.clone(), M::NftApprove { spender: ctl.clone(), id: id.clone() }));
                    }
                }
                acts.push(Act::ex(ctl.clone(), M::ProposeNft { owner, ids, actions }));
                let id = d.props.len() as u64 + 1;
                self.campaign(w, m, k, id);
                return vec![Step::tx(&u, acts)];
            }
            _ => Act::ex(ctl.clone(), M::Propose { owner, actions }),
        };
        let id = d.props.len() as u64 + 1;
        self.campaign(w, m, k, id);
        vec![Step::tx(&u, vec![act])]
    }
    /// Members notice the proposal and vote, mostly the same way; somebody executes it.
    fn campaign(&mut self, w: &WCfg, m: &Model, k: usize, id: u64) {
        if self.r.chance(20) {
            return;
        }
        let ctl = format!("d{k}.ctl");
        let bias = *self.r.pick(&[100, 95, 85, 60, 30, 10]);
        let main = self.r.weighted(&[70, 12, 6, 12]) as u8;
        let turnout = *self.r.pick(&[100, 100, 90, 90, 70, 40, 15]);
        let us: Vec<N> = m.daos[k].mem.wt.w.keys().filter(|x| x.starts_with('u')).cloned().collect();
        for u in us {
            if self.r.chance(turnout) {
                let o = if self.r.chance(bias) { main } else { self.r.below(4) as u8 };
                self.later(Step::tx(&u, vec![Act::ex(ctl.clone(), M::Vote { id, o })]));
            }
        }
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let e = self.user(w);
            self.later(Step::tx(&e, vec![Act::ex(ctl.clone(), M::Execute { id })]));
        }
    }
    fn later(&mut self, s: Step) {
        let d = self.r.below(14);
        self.pool.push((self.clock + d, s));
    }

    fn some_assets(&mut self, n: u64) -> Vec<Asset> {
        let all = [
            Asset::Nat("udao".into()),
            Asset::Nat("uusd".into()),
            Asset::Nat("uluna".into()),
            Asset::Cw20("tok0".into()),
            Asset::Cw20("tok1".into()),
        ];
        let mut v: Vec<Asset> = vec![];
        for _ in 0..n {
            let a = self.r.pick(&all).clone();
            if !v.contains(&a) {
                v.push(a);
            }
        }
        v
    }
    fn spend_list(&mut self, m: &Model, k: usize) -> Vec<(Asset, Amt)> {
        let n = self.r.range(1, 3);
        let v = self.some_assets(n);
        v.into_iter()
            .map(|a| {
                let have = match &a {
                    Asset::Nat(d) => m.bal(&format!("d{k}.tre"), d),
                    Asset::Cw20(t) => m.tbal(t, &format!("d{k}.tre")),
                    _ => 0,
                };
                let x = match self.r.below(12) {
                    0 => have + 1,
                    1 => have,
                    2 => 0,
                    _ => self.amt(),
                };
                (a, x)
            })
            .collect()
    }

    pub fn pa(&mut self, w: &WCfg, m: &Model, k: usize) -> PA {
        let p = self.local_pa(w, m, k);
        if w.remotes == 0 || !self.r.chance(if self.p.cross > 20 { 75 } else { 25 }) {
            return p;
        }
        // the same kind of action for a treasury on another chain, mostly one that exists
        let have: Vec<u8> = m.daos[k].out.treasuries.keys().copied().collect();
        let c = if !have.is_empty() && self.r.chance(85) { *self.r.pick(&have) } else { self.r.below(w.remotes as u64) as u8 };
        let bad = self.r.chance(self.p.bad_pa);
        let tok = format!("r{c}.1");
        let name = |g: &mut Gen, b: bool| if b && g.r.chance(40) { if g.r.chance(50) { "bad11".to_string() } else { "u0".to_string() } } else if g.r.chance(70) { format!("r{c}.u{}", g.r.below(2)) } else { tok.clone() };
        match p {
            PA::Assets { .. } => {
                let pool = [Asset::Nat("uosmo".into()), Asset::Nat("uion".into()), Asset::Cw20(tok.clone()), Asset::Cw20(format!("r{c}.0")), Asset::Nat("uatom".into())];
                let mut add = vec![];
                let mut remove = vec![];
                for a in pool {
                    match self.r.below(3) {
                        0 => add.push(a),
                        1 => remove.push(a),
                        _ => {}
                    }
                }
                if bad {
                    add.push(Asset::Cw20(name(self, true)));
                }
                PA::Assets { remote: Some(c), add, remove }
            }
            PA::Nfts { .. } => {
                let (mut add, mut remove) = (vec![], vec![]);
                for _ in 0..self.r.range(1, 3) {
                    let n = name(self, bad);
                    if self.r.chance(60) {
                        add.push(n);
                    } else {
                        remove.push(n);
                    }
                }
                PA::Nfts { remote: Some(c), add, remove }
            }
            PA::Fund { .. } => {
                let n = self.r.range(1, 2);
                PA::Fund {
                    remote: Some(c),
                    to: name(self, bad),
                    assets: (0..n).map(|_| (Asset::Nat(if self.r.chance(92) { "uosmo".into() } else { "uion".into() }), self.r.below(12) as Amt)).collect(),
                }
            }
            PA::TreExec { .. } => {
                let mut acts = vec![];
                for _ in 0..self.r.range(0, 2) {
                    acts.push(match self.r.below(6) {
                        0..=2 => Act::Bank { to: name(self, bad), coins: vec![("uosmo".into(), self.r.range(1, 6) as Amt)] },
                        3 | 4 => Act::ex(tok.clone(), M::Bump),
                        _ => Act::ex(tok.clone(), M::Fail),
                    });
                }
                if bad && self.r.chance(30) {
                    self.slip(&mut acts, Act::Garbage);
                }
                PA::TreExec { remote: Some(c), acts }
            }
            p => p,
        }
    }
    /// Which whitelists a new remote treasury gets.
    fn wl(&mut self) -> u8 {
        self.r.weighted(&[4, 3, 3, 1, 3, 1]) as u8
    }
    /// A step about the remote chains.
    fn cross(&mut self, w: &WCfg, m: &Model) -> Option<Step> {
        if m.remotes.is_empty() || m.daos.is_empty() {
            return None;
        }
        let k = self.dao(m);
        let c = self.r.below(w.remotes as u64) as u8;
        let open: Vec<usize> = (0..m.packets.len()).filter(|i| m.packets[*i].end.is_none()).collect();
        match self.r.below(20) {
            0..=10 if !open.is_empty() => {
                let seq = *self.r.pick(&open);
                let p = &m.packets[seq];
                if m.dest_now(p) >= p.timeout {
                    return Some(Step::Expire { seq });
                }
                let (mut abort, mut fail) = (None, None);
                if self.r.chance(self.p.fault) {
                    let n = self.r.below(5) as u32;
                    if self.r.chance(40) {
                        abort = Some(n)
                    } else {
                        fail = Some(n)
                    }
                }
                Some(Step::Relay { seq, abort, fail })
            }
            11..=13 => {
                // the DAO needs uluna to talk to other chains
                let n = self.r.range(1, 4) as Amt;
                let u = self.user(w);
                Some(Step::tx(&u, vec![Act::Bank { to: format!("d{k}.out"), coins: vec![("uluna".into(), n)] }]))
            }
            14 | 15 => {
                let asks: Vec<usize> = (0..m.packets.len()).filter(|i| !m.packets[*i].to_main && !matches!(m.packets[*i].body, crate::xmodel::Body::Run { .. })).collect();
                if asks.is_empty() {
                    return None;
                }
                let seq = *self.r.pick(&asks);
                let n = m.remotes[c as usize].contracts.len() as u64;
                let from = match self.r.below(4) {
                    0 => format!("r{c}.u0"),
                    1 => format!("r{c}.0"),
                    _ => format!("r{c}.{}", self.r.below(n)),
                };
                Some(Step::Fake { chain: c, from, seq, addr: if self.r.chance(50) { format!("r{c}.u0") } else { format!("r{c}.{}", self.r.below(n)) } })
            }
            16 | 17 => {
                // money for a remote treasury
                let t: Vec<N> = m.daos[k].out.treasuries.values().cloned().collect();
                if t.is_empty() {
                    return None;
                }
                let to = self.r.pick(&t).clone();
                let c: u8 = to[1..2].parse().unwrap_or(0);
                Some(Step::RTx { chain: c, s: format!("r{c}.u1"), a: Act::Bank { to, coins: vec![("uosmo".into(), self.r.range(1, 40) as Amt)] } })
            }
            _ => {
                // somebody else tries to command it
                let n = m.remotes[c as usize].contracts.len() as u64;
                if n <= 2 {
                    return None;
                }
                let to = format!("r{c}.{}", self.r.range(2, n - 1));
                let thief = format!("r{c}.u0");
                let cmd = match self.r.below(6) {
                    0 => M::SetAdmin { to: thief.clone() },
                    1 => M::Spend { to: thief.clone(), assets: vec![(Asset::Nat("uosmo".into()), 1)] },
                    2 => M::TreAssets { add: vec![Asset::Nat("uion".into())], remove: vec![] },
                    3 => M::TreNfts { add: vec![], remove: vec![format!("r{c}.1")] },
                    4 => M::Cosmos(vec![Act::Bank { to: thief.clone(), coins: vec![("uosmo".into(), 1)] }]),
                    _ => M::Cosmos(vec![]),
                };
                let act = Act::ex(to.clone(), cmd);
                let proxies: Vec<N> = m.daos.iter().flat_map(|d| d.out.proxies.get(&c).cloned()).collect();
                let a = match self.r.below(4) {
                    0 => act,
                    1 => Act::ex(format!("r{c}.0"), M::ProxyRun(vec![act])),
                    2 if self.r.chance(20) => Act::Migrate { c: to, code: crate::codes::STUB_EXTERNAL },
                    _ if !proxies.is_empty() => {
                        let p = self.r.pick(&proxies).clone();
                        let inner = Act::ex(p, M::ProxyRun(vec![act]));
                        if self.r.chance(40) {
                            Act::ex(format!("r{c}.0"), M::ProxyRun(vec![inner]))
                        } else {
                            inner
                        }
                    }
                    _ => act,
                };
                let s = match self.r.below(3) {
                    0 => thief,
                    1 => format!("i{c}.{}", self.user(w)),
                    _ => format!("r{c}.0"),
                };
                Some(Step::RTx { chain: c, s, a })
            }
        }
    }
    fn local_pa(&mut self, w: &WCfg, m: &Model, k: usize) -> PA {
        let d = &m.daos[k];
        let bad = self.r.chance(self.p.bad_pa);
        let tre = format!("d{k}.tre");
        match self.r.weighted(&self.p.pas.clone()) {
            0 => PA::Meta {
                name: if self.r.chance(60) { Some(format!("name {}", self.r.below(50))) } else { None },
                f: self.meta_change(),
            },
            1 => {
                let g = self.gov(d.kind);
                let mut c = GovChange::default();
                if self.r.chance(30) {
                    c.quorum = Some(if bad && self.r.chance(40) { self.bad_ratio() } else { g.quorum });
                }
                if self.r.chance(30) {
                    c.threshold = Some(if bad && self.r.chance(40) { self.bad_ratio() } else { g.threshold });
                }
                if self.r.chance(25) {
                    c.veto = Some(if bad && self.r.chance(40) { Some(self.bad_ratio()) } else { g.veto });
                }
                if self.r.chance(30) {
                    c.duration = Some(if bad && self.r.chance(40) { 0 } else { g.duration });
                }
                if self.r.chance(40) {
                    let du = c.duration.unwrap_or(d.gov.duration);
                    c.unlocking = Some(match self.r.below(7) {
                        0 => Dur::Time(du.max(1) - 1),
                        1 => Dur::Time(du),
                        // long enough for the old voting time, not for the new one
                        2 => Dur::Time(d.gov.duration),
                        _ => self.unlock(du.max(1)),
                    });
                }
                if self.r.chance(25) {
                    c.min_deposit = Some(if bad { Some(4) } else { g.min_deposit });
                }
                if self.r.chance(25) {
                    c.early = Some(g.early);
                }
                PA::Gov(c)
            }
            2 => PA::Council(if bad {
                Some(self.bad_council(w))
            } else if self.r.chance(15) {
                None
            } else {
                let mut c = self.council(w);
                if self.r.chance(5) {
                    c.members.clear();
                }
                Some(c)
            }),
            3 => {
                let n = self.r.below(3);
                let mut add = self.some_assets(n);
                let n = self.r.below(3);
                let mut remove = self.some_assets(n);
                if self.r.chance(3 * self.p.long_lists) {
                    if self.r.chance(60) {
                        add.extend(fillers(self.r.range(3, 40)));
                    } else {
                        let have: Vec<Asset> = d.tre.assets.iter().cloned().collect();
                        let n = self.r.range(2, 12);
                        for _ in 0..n.min(have.len() as u64) {
                            let a = self.r.pick(&have).clone();
                            if !remove.contains(&a) {
                                remove.push(a);
                            }
                        }
                    }
                }
                if !bad {
                    remove.retain(|a| !add.contains(a));
                } else {
                    // something wrong on one of the two sides, the other side often empty
                    let kind = self.r.below(5);
                    let swap = self.r.chance(50);
                    if swap {
                        std::mem::swap(&mut add, &mut remove);
                    }
                    if self.r.chance(50) {
                        remove.clear();
                    } else {
                        remove.retain(|a| !add.contains(a));
                    }
                    if add.is_empty() && kind > 0 {
                        add = self.some_assets(1);
                        remove.retain(|a| !add.contains(a));
                    }
                    match kind {
                        0 => self.slip(&mut add, if swap { Asset::Cw20("bad6".into()) } else { Asset::Cw1155("bad6".into(), "1".into()) }),
                        1 => {
                            let x = self.r.pick(&add).clone();
                            self.slip(&mut add, x);
                        }
                        2 => {
                            let x = self.r.pick(&add).clone();
                            self.slip(&mut remove, x);
                        }
                        3 => {
                            // the same cw1155 token twice, or on both sides
                            let x = Asset::Cw1155("tok0".into(), "1".into());
                            self.slip(&mut add, x.clone());
                            if self.r.chance(50) {
                                self.slip(&mut add, x);
                            } else {
                                self.slip(&mut remove, x);
                            }
                        }
                        _ => self.slip(&mut add, Asset::Cw1155("tok0".into(), "1".into())),
                    }
                    if swap {
                        std::mem::swap(&mut add, &mut remove);
                    }
                }
                PA::Assets { remote: None, add, remove }
            }
            4 => {
                let mut add: Vec<N> = vec![];
                let mut remove: Vec<N> = vec![];
                for n in NFTS {
                    match self.r.below(3) {
                        0 => add.push(n.to_string()),
                        1 => remove.push(n.to_string()),
                        _ => {}
                    }
                }
                if bad {
                    let kind = self.r.below(3);
                    let swap = self.r.chance(50);
                    if swap {
                        std::mem::swap(&mut add, &mut remove);
                    }
                    if self.r.chance(50) {
                        remove.clear();
                    }
                    if add.is_empty() {
                        let x = self.r.pick(&NFTS).to_string();
                        remove.retain(|r| *r != x);
                        add.push(x);
                    }
                    let x = self.r.pick(&add).clone();
                    match kind {
                        0 => self.slip(&mut add, "bad7".into()),
                        1 => self.slip(&mut add, x),
                        _ => self.slip(&mut remove, x),
                    }
                    if swap {
                        std::mem::swap(&mut add, &mut remove);
                    }
                }
                PA::Nfts { remote: None, add, remove }
            }
            5 => {
                let mut assets = self.spend_list(m, k);
                let mut to = if self.r.chance(85) { self.user(w) } else { format!("d{k}.mem") };
                if bad {
                    match self.r.below(3) {
                        0 => to = "bad8".into(),
                        1 => self.slip(&mut assets, (Asset::Cw20("bad9".into()), 1)),
                        _ => self.slip(&mut assets, (Asset::Cw1155("tok0".into(), "1".into()), 1)),
                    }
                }
                PA::Fund { remote: None, to, assets }
            }
            6 => {
                let mut to = self.version(m);
                if !bad && to <= d.version {
                    let up: Vec<Ver> = m.releases.keys().copied().filter(|v| *v > d.version).collect();
                    if !up.is_empty() {
                        to = *self.r.pick(&up);
                    }
                }
                let mut msgs = vec![];
                for v in m.releases.keys() {
                    if self.r.chance(20) {
                        msgs.push((*v, self.r.chance(85)));
                    }
                }
                if bad && !msgs.is_empty() {
                    msgs.push(msgs[0]);
                }
                PA::Upgrade { to, msgs }
            }
            7 => {
                let n = self.r.range(0, 3);
                let mut v: Vec<Act> = (0..n).map(|_| self.exec_act(w, m, k)).collect();
                if let Some(a) = self.abroad(w, m, k, &format!("d{k}.ctl")) {
                    v.push(a);
                }
                if bad {
                    self.slip(&mut v, Act::Garbage);
                }
                PA::Exec(v)
            }
            8 => {
                let n = self.r.range(1, 2);
                let mut acts = vec![];
                for _ in 0..n {
                    acts.push(match self.r.below(8) {
                        0 | 1 => Act::Bank { to: self.user(w), coins: vec![(self.r.pick(&DENOMS).to_string(), self.amt())] },
                        2 => Act::ex("ext", M::Bump),
                        3 => Act::ex("tok0", M::C20Transfer { to: self.user(w), amount: self.amt() }),
                        4 => Act::exf(format!("d{k}.dist"), M::DistNative, vec![(self.r.pick(&DENOMS).to_string(), self.amt())]),
                        5 if d.kind == Kind::Denom => Act::exf(format!("d{k}.mem"), M::Stake { user: None }, vec![("udao".into(), self.amt())]),
                        5 if d.kind == Kind::Token => {
                            Act::ex(d.token.clone(), M::C20Send { to: format!("d{k}.mem"), amount: self.amt(), hook: Hook::Stake { user: tre.clone() } })
                        }
                        6 => Act::ex(tre.clone(), M::Spend { to: self.user(w), assets: vec![(Asset::Nat("udao".into()), 1)] }),
                        _ => Act::ex("ext", M::Fail),
                    });
                }
                if let Some(a) = self.abroad(w, m, k, &tre) {
                    acts.push(a);
                }
                if bad {
                    self.slip(&mut acts, Act::Garbage);
                }
                PA::TreExec { remote: None, acts }
            }
            9 => {
                let mut v = vec![match self.r.below(10) {
                    0 => Act::ex("ext", M::Bump),
                    4 | 5 => {
                        let (c, base) = *self.r.pick(&[
                            ("ctl", crate::codes::CONTROLLER),
                            ("tre", crate::codes::TREASURY),
                            ("gov", crate::codes::GOVERNANCE),
                            ("ent", crate::codes::ENTERPRISE),
                            ("att0", crate::codes::ATTESTATION),
                            ("out", crate::codes::OUTPOSTS),
                        ]);
                        let c = match &d.att {
                            Some(a) if c == "att0" => a.clone(),
                            _ => format!("d{k}.{c}"),
                        };
                        Act::Migrate { c, code: base + 1000 * self.r.range(0, 4) }
                    }
                    6 | 7 if d.token == format!("d{k}.tok") => Act::ex(d.token.clone(), M::C20Mint { to: self.user(w), amount: self.amt() }),
                    6 | 7 if d.nft == format!("d{k}.nft") => Act::ex(d.nft.clone(), M::NftMint { id: format!("y{}", self.r.below(40)), owner: self.user(w) }),
                    1 => Act::Migrate { c: format!("d{k}.dist"), code: crate::codes::DISTRIBUTOR + 1000 * self.r.range(0, 4) },
                    2 => Act::Migrate { c: format!("d{k}.cmem"), code: crate::codes::MULTISIG + 1000 * self.r.range(0, 4) },
                    3 => Act::ex(format!("d{k}.tre"), M::Spend { to: self.user(w), assets: vec![(Asset::Nat("udao".into()), 1)] }),
                    _ => Act::ex(format!("d{k}.ent"), M::EntMeta { name: Some("x".into()), f: vec![] }),
                }];
                if let Some(a) = self.abroad(w, m, k, &format!("d{k}.ent")) {
                    v.push(a);
                }
                if bad {
                    self.slip(&mut v, Act::Garbage);
                }
                PA::EntExec(v)
            }
            10 => {
                let n = self.r.range(1, 4);
                let mut v: Vec<(N, Amt)> = self.members(w, n).into_iter().map(|u| (u, if self.r.chance(25) { 0 } else { self.amt() })).collect();
                if bad {
                    match self.r.below(2) {
                        0 => {
                            let x = if self.r.chance(30) { 0 } else { 3 };
                            self.slip(&mut v, ("bad10".into(), x))
                        }
                        _ => {
                            // twice, and even with the same weight
                            let (u, x) = self.r.pick(&v).clone();
                            let x = if self.r.chance(30) { x } else { 7 };
                            self.slip(&mut v, (u, x))
                        }
                    }
                }
                if d.kind != Kind::Multisig && self.r.chance(90) {
                    return PA::MinWeight(self.amt());
                }
                PA::Multisig(v)
            }
            11 => {
                let mut v = self.spend_list(m, k);
                if bad {
                    let x = if self.r.chance(50) { Asset::Cw20("bad9".into()) } else { Asset::Cw1155("tok0".into(), "1".into()) };
                    self.slip(&mut v, (x, 1));
                }
                PA::Dist(v)
            }
            12 => PA::MinWeight(match self.r.below(4) {
                0 => 0,
                1 => {
                    // exactly somebody's weight, or one off
                    let ws: Vec<Amt> = d.mem.wt.w.values().copied().collect();
                    if ws.is_empty() {
                        1
                    } else {
                        *self.r.pick(&ws) + self.r.below(2) as Amt
                    }
                }
                _ => self.amt(),
            }),
            _ if w.remotes == 0 => PA::MinWeight(self.amt()),
            _ => PA::DeployX { chain: self.r.below(w.remotes as u64) as u8, w: self.wl() },
        }
    }
    /// What a DAO does to another one: as its member, or what only that other one may do.
    fn abroad(&mut self, w: &WCfg, m: &Model, k: usize, me: &str) -> Option<Act> {
        if m.daos.len() < 2 || !self.r.chance(self.p.abroad) {
            return None;
        }
        let j = (k + 1 + self.r.idx(m.daos.len() - 1)) % m.daos.len();
        let d = &m.daos[j];
        let (ctl, mem) = (format!("d{j}.ctl"), format!("d{j}.mem"));
        let id = self.r.range(1, d.props.len() as u64 + 1);
        Some(match self.r.below(16) {
            0..=2 => {
                let amount = self.r.range(1, 30) as Amt;
                match d.kind {
                    Kind::Denom => Act::exf(mem, M::Stake { user: None }, vec![(d.denom.clone(), amount)]),
                    Kind::Token => Act::ex(d.token.clone(), M::C20Send { to: mem, amount, hook: Hook::Stake { user: me.to_string() } }),
                    _ => Act::ex(ctl, M::Vote { id, o: 0 }),
                }
            }
            3 => Act::ex(mem, M::Unstake { amount: self.r.range(1, 5) as Amt }),
            4..=6 => Act::ex(ctl, M::Vote { id, o: self.r.below(4) as u8 }),
            7 => Act::ex(ctl, M::CouncilVote { id, o: self.r.below(4) as u8 }),
            8 => Act::ex(mem, M::Claim { user: None }),
            9 => Act::ex(format!("d{j}.dist"), M::ClaimRewards { user: me.to_string(), natives: vec!["uluna".into()], cw20s: vec!["tok0".into()] }),
            10 => Act::ex(ctl, M::Execute { id }),
            11 => Act::ex(ctl, M::Propose { owner: None, actions: vec![] }),
            _ => self.probe(w, m, j),
        })
    }
    fn exec_act(&mut self, w: &WCfg, m: &Model, k: usize) -> Act {
        let d = &m.daos[k];
        let ent = format!("d{k}.ent");
        let pref = self.p.exec_pref;
        let what = if !pref.is_empty() && self.r.chance(45) { *self.r.pick(pref) } else { self.r.below(22) };
        match what {
            0..=2 => Act::ex("ext", M::Bump),
            3 => Act::ex("ext", M::Fail),
            4 => Act::Bank { to: self.user(w), coins: vec![("udao".into(), self.r.range(1, 3) as Amt)] },
            5 => Act::ex(format!("d{k}.ctl"), M::Execute { id: self.r.below(d.props.len() as u64 + 2) }),
            6 | 7 => Act::ex(ent, M::SetAttestation { text: format!("again {}", self.r.below(9)) }),
            8 => Act::ex(ent, M::RemoveAttestation),
            9 | 10 => {
                let n = self.r.range(0, 4);
                let mut v: Vec<(N, Amt)> = self.members(w, n).into_iter().map(|u| (u, self.amt())).collect();
                if self.r.chance(6) && !v.is_empty() {
                    v.push(v[0].clone());
                }
                let c = if d.kind == Kind::Multisig && self.r.chance(80) { "mem" } else { "cmem" };
                if self.r.chance(70) {
                    Act::ex(format!("d{k}.{c}"), M::SetMembers(v))
                } else {
                    Act::ex(format!("d{k}.{c}"), M::UpdateMembers(v))
                }
            }
            11 => Act::ex(format!("d{k}.dist"), M::MinWeight { w: self.amt() }),
            12 => {
                let du = self.unlock(d.gov.duration);
                Act::ex(format!("d{k}.mem"), M::SetUnlocking { d: if self.r.chance(80) { Some(du) } else { None } })
            }
            13 if self.r.chance(30) => Act::ex(format!("d{k}.tre"), M::SetAdmin { to: self.user(w) }),
            13 => Act::ex(format!("d{k}.tre"), M::Spend { to: self.user(w), assets: self.spend_list(m, k) }),
            14 => Act::ex(ent, M::EntMeta { name: if self.r.chance(50) { Some(format!("n{}", self.r.below(9))) } else { None }, f: self.meta_change() }),
            17 => Act::ex(
                ent,
                M::EntConfig {
                    versioning: if self.r.chance(60) { Some(self.r.pick(&["ver", "ver2", "ver2", "ext", "u0", "bad8"]).to_string()) } else { None },
                    factory: if self.r.chance(60) { Some(self.r.pick(&["fac", "fac2", "fac2", "ext", "u0", "bad9"]).to_string()) } else { None },
                },
            ),
            18 => {
                // whoever cannot take it blocks all changes until removed
                let hook = self.r.pick(&["ext", "ext", "ext", "own", "own", "u0", "bad10"]).to_string();
                let hook = if hook == "own" { format!("d{k}.ctl") } else { hook };
                let c = format!("d{k}.{}", if self.r.chance(75) { "mem" } else { "cmem" });
                let add = if hook == "u0" || hook.ends_with(".ctl") { self.r.chance(60) } else { self.r.chance(80) };
                Act::ex(c, if add { M::AddHook { hook } } else { M::RemoveHook { hook } })
            }
            19 => {
                let n = self.r.below(3);
                let mut v: Vec<(N, Amt)> = self.members(w, n).into_iter().map(|u| (u, self.amt())).collect();
                if self.r.chance(10) {
                    self.slip(&mut v, ("bad11".into(), 1));
                }
                if self.r.chance(50) {
                    return Act::ex("ext", M::Bump);
                }
                Act::ex(format!("d{k}.dist"), M::UserWeights(v))
            }
            15 => Act::ex("ver", M::AddVersion { v: (9, 0, 0), k: 1 }),
            16 => Act::ex("tok0", M::C20Transfer { to: self.user(w), amount: 1 }),
            _ => Act::ex("ext", M::Forward(vec![self.probe(w, m, k)])),
        }
    }

    /// Messages that only a particular component may send.
    fn probe(&mut self, w: &WCfg, m: &Model, k: usize) -> Act {
        let d = &m.daos[k];
        let n = |p: &str| format!("d{k}.{p}");
        let u = self.user(w);
        let u2 = self.user(w);
        let x = self.amt();
        let id = self.r.below(d.props.len() as u64 + 2);
        let o = self.r.below(4) as u8;
        if w.remotes > 0 && self.r.chance(20) {
            let c = self.r.below(w.remotes as u64) as u8;
            return Act::ex(
                n("out"),
                match self.r.below(4) {
                    0 => M::OutDeploy { chain: c, w: self.wl() },
                    1 => M::OutExec { chain: c, to: format!("r{c}.u0"), amount: 1 },
                    2 => M::OutRun { chain: c, m: Box::new(M::TreAssets { add: vec![Asset::Nat("uion".into())], remove: vec![] }) },
                    _ => M::OutCallback { id: self.r.range(1, 4) as u32 },
                },
            );
        }
        match self.r.below(42) {
            0 => Act::ex(n("ctl"), M::ExecuteActions { id }),
            1 => Act::ex(n("ctl"), M::WeightsChanged(vec![(u, 0, x)])),
            2 => Act::ex(n("ctl"), M::DeployInitial),
            3 => Act::ex(n("gov"), M::PollCreate { ends_in: m.now + 1000 * SEC }),
            4 => Act::ex(n("gov"), M::PollVote { id, o, voter: u, amount: x }),
            5 => Act::ex(n("gov"), M::PollUpdate { voter: u, amount: x }),
            6 => Act::ex(n("gov"), M::PollEnd { id, max: 1, early: true }),
            7 => Act::ex(n("mem"), M::SetUnlocking { d: Some(Dur::Time(0)) }),
            8 => Act::ex(n("mem"), M::AddHook { hook: u }),
            9 => Act::ex(n("mem"), M::RemoveHook { hook: n("ctl") }),
            10 => Act::ex(n("mem"), M::UpdateMembers(vec![(u, x)])),
            11 => Act::ex(n("mem"), M::SetMembers(vec![(u, x)])),
            12 => Act::ex(n("cmem"), M::UpdateMembers(vec![(u, x)])),
            13 => Act::ex(n("cmem"), M::SetMembers(vec![(u, x)])),
            14 => Act::ex(n("cmem"), M::RemoveHook { hook: n("ctl") }),
            15 => Act::ex(n("dist"), M::UserWeights(vec![(u, x)])),
            16 => Act::ex(n("dist"), M::MinWeight { w: x }),
            17 => Act::ex(n("dist"), M::FakeC20 { from: u, amount: x, hook: Hook::Distribute }),
            18 => Act::ex(n("tre"), M::SetAdmin { to: u }),
            19 => Act::ex(n("tre"), M::TreAssets { add: vec![Asset::Nat("uusd".into())], remove: vec![] }),
            20 => Act::ex(n("tre"), M::TreNfts { add: vec!["nft1".into()], remove: vec!["nft0".into()] }),
            21 => Act::ex(n("tre"), M::Spend { to: u, assets: vec![(Asset::Nat("udao".into()), 1)] }),
            22 => Act::ex(n("tre"), M::TreDist { dist: n("dist"), funds: vec![(Asset::Nat("udao".into()), 1)] }),
            23 => Act::ex(n("tre"), M::Cosmos(vec![Act::Bank { to: u, coins: vec![("udao".into(), 1)] }])),
            24 => Act::ex(n("tre"), M::MigStep { limit: None }),
            25 => Act::ex(n("ent"), M::EntMeta { name: if self.r.chance(50) { Some("hacked".into()) } else { None }, f: self.meta_change() }),
            26 => Act::ex(n("ent"), M::EntUpgrade { to: *self.r.pick(&[(1, 2, 1), (0, 1, 0), (9, 0, 0), (1, 0, 0)]), msgs: vec![] }),
            27 => Act::ex(n("ent"), if self.r.chance(50) { M::SetAttestation { text: "x".into() } } else { M::RemoveAttestation }),
            28 => Act::ex(n("ent"), M::EntMsgs(vec![Act::ex("ext", M::Bump)])),
            29 => Act::ex(n("ent"), M::EntConfig { versioning: if self.r.chance(50) { Some("ext".into()) } else { None }, factory: if self.r.chance(50) { Some("ext".into()) } else { None } }),
            30 => Act::ex(if self.r.chance(50) { n("ent") } else { "ent0".to_string() }, M::EntFinalize { dao: k }),
            31 => Act::ex(n("mem"), M::FakeC20 { from: u, amount: x, hook: Hook::Stake { user: u2 } }),
            32 => Act::ex(n("mem"), M::FakeNft { from: u, id: format!("z{x}"), hook: Hook::Stake { user: u2 } }),
            33 => Act::ex(n("ctl"), M::FakeC20 { from: u, amount: x, hook: Hook::Propose { owner: None, actions: vec![] } }),
            34 => Act::Migrate { c: n(*self.r.pick(&["ent", "ctl", "tre", "mem", "dist", "gov", "cmem", "out"])), code: crate::codes::STUB_EXTERNAL },
            35 => {
                if self.r.chance(50) {
                    Act::ex("fac", self.fac_config(w))
                } else {
                    Act::ex("fac", M::FacFinalize)
                }
            }
            36 => Act::ex("ver", if self.r.chance(50) { M::AddVersion { v: (8, 0, 0), k: 1 } } else { M::VerAdmin { to: u } }),
            37..=40 => match self.r.below(11) {
                // with nothing to do
                0 => Act::ex(n("tre"), M::TreAssets { add: vec![], remove: vec![] }),
                1 => Act::ex(n("tre"), M::TreNfts { add: vec![], remove: vec![] }),
                2 => Act::ex(n("tre"), M::Spend { to: u, assets: vec![] }),
                3 => Act::ex(n("tre"), M::Cosmos(vec![])),
                4 => Act::ex(n("tre"), M::TreDist { dist: n("dist"), funds: vec![] }),
                5 => Act::ex(n("ent"), M::EntMsgs(vec![])),
                6 => Act::ex(n("mem"), M::UpdateMembers(vec![])),
                7 => Act::ex(n("cmem"), M::SetMembers(vec![])),
                8 => Act::ex(n("dist"), M::UserWeights(vec![])),
                9 => Act::ex(n("ctl"), M::WeightsChanged(vec![])),
                _ => Act::ex(n("mem"), M::SetUnlocking { d: None }),
            },
            _ => match self.r.below(3) {
                0 => Act::ex(n("mem"), M::FakeC20 { from: u, amount: x, hook: Hook::AddClaims(vec![(u2, x, Rel::Height(0))]) }),
                1 => Act::ex(n("mem"), M::FakeNft { from: u, id: "n00".into(), hook: Hook::AddNftClaim { user: u2, release: Rel::Height(0) } }),
                _ => Act::ex("ics721cb", M::IcsCallback { nft: "nft0".into(), ids: vec!["n00".into()], user: u, mem: n("mem"), junk: false }),
            },
        }
    }

    // ------------------------------------------------------------ scheduling
    fn time_step(&mut self, m: &Model) -> Step {
        if self.r.chance(14) && !m.daos.is_empty() {
            // right at, before or after a moment something depends on
            let k = self.dao(m);
            let d = &m.daos[k];
            let mut pts: Vec<u64> = vec![];
            for p in d.props.values() {
                if p.executed.is_none() {
                    pts.push(p.ends);
                    if let Some(e) = p.earliest {
                        pts.extend([e; 4]);
                    }
                }
            }
            for c in &d.mem.claims {
                if let Rel::Time(t) = c.rel {
                    pts.push(t);
                }
            }
            let pts: Vec<u64> = pts.into_iter().filter(|t| *t + SEC > m.now).collect();
            if !pts.is_empty() {
                let t = *self.r.pick(&pts);
                let off: i64 = *self.r.pick(&[-1_000_000_000, -1, 0, 0, 0, 1, 1_000_000_000, -500_000_000, 500_000_000]);
                let t = (t as i64 + off) as u64;
                if t > m.now {
                    return Step::Block { dh: self.r.range(1, 3), dt: t - m.now };
                }
            }
            let hs: Vec<u64> = d.mem.claims.iter().filter_map(|c| if let Rel::Height(h) = c.rel { Some(h) } else { None }).filter(|h| *h > m.height).collect();
            if !hs.is_empty() {
                let h = *self.r.pick(&hs) - self.r.below(2);
                if h > m.height {
                    return Step::Block { dh: h - m.height, dt: SEC };
                }
            }
        }
        let dt = match self.r.below(10) {
            0 => 0,
            1 => self.r.range(1, SEC - 1),
            2..=6 => self.r.range(4, 8) * SEC + self.r.below(SEC),
            7 | 8 => self.r.range(1, 100) * SEC,
            _ => {
                let d = m.daos.first().map(|d| d.gov.duration).unwrap_or(100).clamp(10, 90_000);
                if self.r.chance(15) {
                    self.r.range(d, 3 * d) * SEC
                } else {
                    (1 + self.r.below(d / 2)) * SEC
                }
            }
        };
        let short = m.daos.first().map(|d| d.gov.duration).unwrap_or(100) < 100;
        let dt = if short && self.r.chance(60) { dt / 8 } else { dt };
        Step::Block { dh: if self.r.chance(5) { 0 } else { self.r.range(1, 5) }, dt }
    }

    pub fn next(&mut self, w: &WCfg, m: &Model) -> Step {
        loop {
            self.clock += 1;
            if self.r.chance(100 - self.p.same_block) && self.r.chance(45) {
                return self.time_step(m);
            }
            if w.old.is_some() && self.r.chance(75) {
                return self.old_step(w, m);
            }
            if self.p.legacy > 0 && self.r.chance(if self.p.legacy > 50 { 14 } else { 3 }) {
                let k = self.r.idx(m.daos.len().max(1));
                if let Some(l) = m.daos.get(k).and_then(|d| d.tre.legacy.as_ref()) {
                    if !l.empty() || self.r.chance(15) {
                        let limit = *self.r.pick(&[None, Some(0), Some(1), Some(1), Some(2), Some(3), Some(3), Some(5), Some(7), Some(1000)]);
                        let st = Step::tx(&self.user(w), vec![Act::ex(format!("d{k}.tre"), M::MigStep { limit })]);
                        return self.faulty(m, st);
                    }
                }
            }
            if self.p.cross > 0 && self.r.chance(self.p.cross) {
                if let Some(s) = self.cross(w, m) {
                    return s;
                }
            }
            let due: Vec<usize> = self.pool.iter().enumerate().filter(|(_, x)| x.0 <= self.clock).map(|x| x.0).collect();
            if !due.is_empty() && self.r.chance(70) {
                // the mempool delivers in any order, sometimes twice, sometimes never
                let j = self.r.idx(due.len());
                if j != 0 {
                    self.stats.reordered += 1;
                }
                let i = due[j];
                match self.timing(m, &self.pool[i].1) {
                    Timing::Early if self.r.chance(85) => {
                        let d = self.r.range(1, 10);
                        self.pool[i].0 = self.clock + d;
                        continue;
                    }
                    Timing::Late if self.r.chance(75) => {
                        self.pool.remove(i);
                        continue;
                    }
                    _ => {}
                }
                if self.r.chance(3) {
                    self.pool.remove(i);
                    self.stats.dropped += 1;
                    continue;
                }
                let st = if self.r.chance(4) {
                    self.stats.duplicated += 1;
                    self.pool[i].1.clone()
                } else {
                    self.pool.remove(i).1
                };
                return self.faulty(m, st);
            }
            let v = self.op(w, m);
            for s in v {
                if self.r.chance(75) {
                    return self.faulty(m, s);
                }
                self.stats.delayed += 1;
                self.later(s);
            }
            if self.pool.len() > 60 {
                self.pool.remove(0);
            }
        }
    }
    /// Whether what the transaction is about is still to come, or already over.
    fn timing(&self, m: &Model, s: &Step) -> Timing {
        let Step::Tx { acts, .. } = s else { return Timing::Now };
        let Some(Act::Ex { to, m: msg, .. }) = acts.first() else { return Timing::Now };
        let Some(d) = crate::model::part(to).and_then(|(k, _)| m.daos.get(k).map(|d| (k, d))) else { return Timing::Now };
        match &**msg {
            M::Vote { id, .. } | M::CouncilVote { id, .. } => match d.1.props.get(id) {
                None => Timing::Early,
                Some(p) if p.ends <= m.now || p.fin.is_some() => Timing::Late,
                _ => Timing::Now,
            },
            M::Execute { id } => match d.1.props.get(id) {
                None => Timing::Early,
                Some(p) if p.executed.is_some() => Timing::Late,
                Some(p) if p.ends > m.now && (!d.1.gov.early || matches!(p.outcome(m.votes_total(d.0, p)), Fin::NoQuorum | Fin::NoThreshold)) => Timing::Early,
                _ => Timing::Now,
            },
            _ => Timing::Now,
        }
    }
    /// The request to the facade that amounts to the transaction.
    fn as_via(&mut self, m: &Model, s: &str, acts: &[Act]) -> Option<(usize, Via)> {
        let [Act::Ex { to, m: msg, funds }] = acts else { return None };
        let p = crate::model::part(to);
        let k = p.map(|x| x.0);
        let dao = |k: usize| m.daos.get(k);
        let odd = self.r.chance(4);
        Some(match (&**msg, p.map(|x| x.1)) {
            (M::Propose { owner, actions }, Some("ctl")) => {
                let (owner, actions) = (owner.clone(), actions.clone());
                match funds.as_slice() {
                    [] => (k?, Via::Propose { owner, actions }),
                    [(d, x)] if *d == dao(k?)?.denom && dao(k?)?.kind == Kind::Denom => (k?, Via::ProposeDenom { owner, actions, amount: *x }),
                    _ => return None,
                }
            }
            (M::ProposeNft { owner, ids, actions }, Some("ctl")) => (k?, Via::ProposeNft { owner: owner.clone(), ids: ids.clone(), actions: actions.clone() }),
            (M::CouncilPropose { actions }, Some("ctl")) if funds.is_empty() => (k?, Via::CouncilPropose { actions: actions.clone() }),
            (M::Vote { id, o }, Some("ctl")) => (k?, Via::Vote { id: *id, o: *o }),
            (M::CouncilVote { id, o }, Some("ctl")) => (k?, Via::CouncilVote { id: *id, o: *o }),
            (M::Execute { id }, Some("ctl")) => (k?, Via::Execute { id: *id }),
            (M::Stake { user }, Some("mem")) => {
                let user = user.clone().unwrap_or(s.to_string());
                match funds.as_slice() {
                    [(d, x)] if *d == dao(k?)?.denom && odd => (k?, Via::StakeCw20 { user, amount: *x }),
                    [(d, x)] if *d == dao(k?)?.denom => (k?, Via::StakeDenom { user, amount: *x }),
                    _ => return None,
                }
            }
            (M::Unstake { amount }, Some("mem")) if funds.is_empty() => {
                (k?, if (dao(k?)?.kind == Kind::Denom) != odd { Via::UnstakeDenom { amount: *amount } } else { Via::UnstakeCw20 { amount: *amount } })
            }
            (M::UnstakeNft { ids }, Some("mem")) => (k?, Via::UnstakeNft { ids: ids.clone() }),
            (M::Claim { user: None }, Some("mem")) if funds.is_empty() => (k?, Via::Claim),
            (M::C20Send { to: t, amount, hook }, _) => {
                let (k, p) = crate::model::part(t)?;
                if dao(k)?.token != *to {
                    return None;
                }
                match (hook, p) {
                    (Hook::Stake { user }, "mem") if odd => (k, Via::StakeDenom { user: user.clone(), amount: *amount }),
                    (Hook::Stake { user }, "mem") => (k, Via::StakeCw20 { user: user.clone(), amount: *amount }),
                    (Hook::Propose { owner, actions }, "ctl") if odd => (k, Via::ProposeDenom { owner: owner.clone(), actions: actions.clone(), amount: *amount }),
                    (Hook::Propose { owner, actions }, "ctl") => (k, Via::ProposeToken { owner: owner.clone(), actions: actions.clone(), amount: *amount }),
                    _ => return None,
                }
            }
            (M::NftSend { to: t, id, hook: Hook::Stake { user } }, _) => {
                let (k, p) = crate::model::part(t)?;
                if p != "mem" || m.nft_contract(k)? != *to {
                    return None;
                }
                let mut ids = vec![id.clone()];
                if self.r.chance(40) {
                    // whatever else the sender has
                    let more = m.nft.get(to)?.owner.iter().filter(|(i, o)| *o == s && *i != id).map(|x| x.0.clone());
                    ids.extend(more.take(2));
                }
                (k, Via::StakeNft { user: user.clone(), ids })
            }
            _ => return None,
        })
    }
    fn faulty(&mut self, m: &Model, s: Step) -> Step {
        match s {
            Step::Tx { s, mut acts, .. } => {
                let (mut abort, mut fail) = (None, None);
                if self.r.chance(self.p.fault) {
                    let deep = acts.iter().any(|a| matches!(a, Act::Ex { m, .. } if matches!(**m, M::Execute { .. } | M::CreateDao(_))));
                    let n = if deep { self.r.below(16) } else { self.r.below(6) } as u32;
                    if self.r.chance(40) {
                        abort = Some(n);
                    } else {
                        fail = Some(n);
                    }
                }
                // several messages of one signer in one transaction
                if self.r.chance(3) {
                    let mut extra = vec![];
                    self.pool.retain(|(_, x)| match x {
                        Step::Tx { s: s2, acts, .. } if *s2 == s && extra.len() < 2 => {
                            extra.extend(acts.clone());
                            false
                        }
                        _ => true,
                    });
                    acts.extend(extra);
                }
                if self.p.via > 0 && self.r.chance(self.p.via) {
                    if let Some((k, v)) = self.as_via(m, &s, &acts) {
                        let tre = self.r.chance(50);
                        return Step::Via { s, k, tre, v, abort, fail };
                    }
                }
                Step::Tx { s, acts, abort, fail }
            }
            x => x,
        }
    }
}
