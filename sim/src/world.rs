//! The simulated system: the chain with the real contracts, the reference model next to it, and
//! the comparison of everything observable after every step.
use crate::chain::{Chain, FaultPlan, TxOutcome};
use crate::codes;
use crate::model::{part, Fin, Model, Prop, Why, SEC};
use crate::types::*;
use crate::views::norm;
use cosmwasm_std::{Addr, CosmosMsg, Uint128, WasmMsg};
use cw_storage_plus::Map;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type Tags = BTreeSet<&'static str>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WCfg {
    pub users: usize,
    pub coins: Amt,
    pub nfts_each: usize,
    pub releases: u64,
    pub remotes: usize,
    pub global: Vec<Asset>,
    pub cw3: Vec<(N, u64)>,
    /// users' addresses differ between runs (their order decides iteration order)
    pub salt: u64,
    /// compare what the facade and the listings say
    #[serde(default)]
    pub views: u8,
    /// a DAO from before the rewrite
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub old: Option<crate::old::OldCfg>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Tx {
        s: N,
        acts: Vec<Act>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        abort: Option<u32>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        fail: Option<u32>,
    },
    /// a transaction made of the messages the facade drafts
    Via {
        s: N,
        k: usize,
        /// ask for the DAO by its treasury
        tre: bool,
        v: Via,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        abort: Option<u32>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        fail: Option<u32>,
    },
    /// a transaction drafted by the facade for the DAO from before the rewrite
    Old {
        s: N,
        v: Via,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        abort: Option<u32>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        fail: Option<u32>,
    },
    /// time passes: blocks and nanoseconds
    Block { dh: u64, dt: u64 },
    /// a relayer delivers a packet
    Relay {
        seq: usize,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        abort: Option<u32>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        fail: Option<u32>,
    },
    /// a relayer proves that a packet came too late
    Expire { seq: usize },
    /// a report of a creation by somebody on a remote chain who is not in charge of it
    Fake { chain: u8, from: N, seq: usize, addr: N },
    /// what an older contract left in the treasury of a DAO, with the assets it holds for it
    Legacy { k: usize, l: Legacy },
    /// a transaction on a remote chain
    RTx { chain: u8, s: N, a: Act },
}
impl Step {
    pub fn tx(s: &str, acts: Vec<Act>) -> Step {
        Step::Tx { s: s.to_string(), acts, abort: None, fail: None }
    }
}

/// A disagreement between the contracts and the model.
#[derive(Clone, Debug)]
pub struct Mis {
    pub tags: Tags,
    pub what: String,
}

#[derive(Clone, Debug, Default)]
pub struct StepOut {
    /// not delivered: outside of what the model describes
    pub skipped: bool,
    pub ok: bool,
    pub mis: Vec<Mis>,
    pub fired: Vec<&'static str>,
    pub absorbed: bool,
    pub dispatches: u32,
    pub err: String,
    /// why the model refused it
    pub why: Option<String>,
    pub why_tags: Vec<&'static str>,
}

pub const DENOMS: [&str; 3] = ["udao", "uluna", "uusd"];
pub const TOKS: [&str; 2] = ["tok0", "tok1"];
pub const NFTS: [&str; 2] = ["nft0", "nft1"];

pub struct World {
    pub cfg: WCfg,
    pub chain: Chain,
    pub names: Names,
    pub model: Model,
    pub users: Vec<N>,
    pub checks: u64,
    pub odd_draft: bool,
    ncontracts: usize,
    pub deep_seed: u64,
    pub remotes: Vec<crate::xworld::RChain>,
    /// what was sent over IBC, in the order of the model's packets
    pub wire: Vec<crate::chain::MsgTransfer>,
}

fn op_tags(m: &Model, s: &str, a: &Act, state: bool, out: &mut Tags) {
    let mut add = |v: &[&'static str]| out.extend(v.iter().copied());
    match a {
        Act::Bank { .. } => add(&[]),
        Act::Migrate { .. } => add(&["U01", "A01"]),
        Act::Garbage => {}
        Act::Ex { to, m: msg, .. } => {
            if let Some((k, _)) = part(to) {
                if m.daos.get(k).map(|d| d.att.is_some()).unwrap_or(false) && !state {
                    add(&["R01"]);
                }
            }
            msg_tags(m, s, to, msg, state, out)
        }
    }
}
fn hook_tags(h: &Hook, to: &str, state: bool, out: &mut Tags) {
    let _ = to;
    let v: &[&'static str] = match h {
        Hook::Stake { .. } | Hook::AddStakes(_) => &["S01", "M01", "M02"],
        Hook::AddClaims(_) | Hook::AddNftClaim { .. } => &["S01", "S02"],
        Hook::Propose { .. } => &["G06", "G07"],
        Hook::Distribute => &["D01", "D02", "D03"],
        Hook::Junk => &["S01"],
    };
    let _ = state;
    out.extend(v.iter().copied());
}
fn msg_tags(m: &Model, s: &str, to: &str, msg: &M, state: bool, out: &mut Tags) {
    let v: &[&'static str] = match msg {
        M::C20Transfer { .. } | M::NftTransfer { .. } | M::NftApprove { .. } | M::NftRevoke { .. } | M::NftApproveAll { .. } => &[],
        M::NftMint { .. } | M::C20Mint { .. } => &["F01"],
        M::C20Send { hook, to, .. } | M::NftSend { hook, to, .. } => {
            hook_tags(hook, to, state, out);
            &[]
        }
        M::FakeC20 { hook, .. } | M::FakeNft { hook, .. } => {
            hook_tags(hook, to, state, out);
            &["A01"]
        }
        M::Propose { .. } | M::ProposeNft { .. } => &["G06", "G07"],
        M::CouncilPropose { .. } => &["G07", "C01"],
        M::Vote { .. } => &["G01", "G02", "G03", "G05"],
        M::CouncilVote { .. } => &["G01", "G02", "G03", "C01"],
        M::Execute { id } => {
            if let Some((k, _)) = part(to) {
                if let Some(p) = m.daos.get(k).and_then(|d| d.props.get(id)) {
                    if p.council {
                        out.insert("C01");
                    }
                    for a in &p.actions {
                        pa_tags(m, k, a, state, out);
                    }
                    if m.now < p.ends {
                        out.insert("G05");
                    }
                    if p.deposit.is_some() {
                        out.insert("G06");
                    }
                }
            }
            &["G02", "G04"]
        }
        M::ExecuteActions { .. } => &["G04", "A01"],
        M::WeightsChanged(_) => &["M02", "A01"],
        M::DeployInitial => &["X01", "A01"],
        M::PollCreate { .. } | M::PollVote { .. } | M::PollUpdate { .. } | M::PollEnd { .. } => &["G01", "A01"],
        M::Stake { .. } => &["S01", "M01", "M02"],
        M::Unstake { .. } | M::UnstakeNft { .. } => &["S01", "S02", "M01", "M02"],
        M::Claim { .. } => &["S01", "S02"],
        M::SetUnlocking { .. } => &["P01", "A01"],
        M::AddHook { .. } | M::RemoveHook { .. } => &["A01", "M02"],
        M::UpdateMembers(_) | M::SetMembers(_) => &["A01", "M01", "M02"],
        M::UserWeights(_) => &["A01", "M02"],
        M::MinWeight { .. } => &["A01", "D01", "D02"],
        M::DistNative => &["D01", "D02", "D03"],
        M::ClaimRewards { .. } => &["D01", "D02"],
        M::SetAdmin { .. } | M::TreAssets { .. } | M::TreNfts { .. } | M::Spend { .. } => &["A01", "T01"],
        M::TreDist { .. } => &["A01", "T01", "D01", "D02", "D03"],
        M::Cosmos(v) => {
            for a in v {
                op_tags(m, to, a, state, out);
            }
            &["T01"]
        }
        M::MigStep { .. } => &["L01"],
        M::EntMeta { .. } => &["A01"],
        M::EntUpgrade { .. } => &["U01"],
        M::SetAttestation { .. } | M::RemoveAttestation | M::Sign => &["R01"],
        M::EntMsgs(v) => {
            for a in v {
                op_tags(m, to, a, state, out);
            }
            &["A01"]
        }
        M::EntConfig { .. } => &["A01", "F01", "U01", "D03"],
        M::EntFinalize { .. } => &["A01", "F01"],
        M::AddVersion { .. } | M::EditVersion { .. } | M::VerAdmin { .. } => &["U02"],
        M::CreateDao(c) if c.xchain.is_some() => &["F01", "X01"],
        M::FacConfig { .. } | M::FacFinalize | M::CreateDao(_) => &["F01"],
        M::OutDeploy { .. } | M::OutExec { .. } | M::OutCallback { .. } | M::OutRun { .. } => &["X01", "A01"],
        M::ProxyRun(_) => &[],
        M::Bump | M::Fail => &[],
        M::Forward(v) | M::IcsForward(v) => {
            for a in v {
                op_tags(m, to, a, state, out);
            }
            &[]
        }
        M::IcsRegister { .. } => &[],
        M::IcsCallback { .. } => &["I01"],
    };
    let _ = s;
    out.extend(v.iter().copied());
}
thread_local! { static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// The properties an action of a proposal bears on; a proposal may name itself, hence the bound.
fn pa_tags(m: &Model, k: usize, p: &PA, state: bool, out: &mut Tags) {
    if DEPTH.with(|d| d.get()) > 3 {
        return;
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    pa_tags1(m, k, p, state, out);
    DEPTH.with(|d| d.set(d.get() - 1));
}
fn pa_tags1(m: &Model, k: usize, p: &PA, state: bool, out: &mut Tags) {
    let v: &[&'static str] = match p {
        PA::Meta { .. } => &["G04"],
        PA::Gov(_) => &["P01"],
        PA::Council(_) => &["C01"],
        PA::Assets { remote: None, .. } | PA::Nfts { remote: None, .. } | PA::Fund { remote: None, .. } => &["T01"],
        PA::Assets { .. } | PA::Nfts { .. } | PA::Fund { .. } => &["X01"],
        PA::Upgrade { .. } => &["U01"],
        PA::Exec(v) => {
            for a in v {
                op_tags(m, &format!("d{k}.ctl"), a, state, out);
            }
            &["G04"]
        }
        PA::TreExec { remote: Some(_), .. } => &["X01"],
        PA::TreExec { acts, .. } => {
            for a in acts {
                op_tags(m, &format!("d{k}.tre"), a, state, out);
            }
            &["T01"]
        }
        PA::EntExec(v) => {
            for a in v {
                op_tags(m, &format!("d{k}.ent"), a, state, out);
            }
            &["A01"]
        }
        PA::Multisig(_) => &["M01", "M02"],
        PA::Dist(_) => &["D01", "D02", "D03", "T01"],
        PA::MinWeight(_) => &["D01", "D02"],
        PA::DeployX { .. } => &["X01"],
    };
    out.extend(v.iter().copied());
}

const CW20_BALANCES: Map<&Addr, Uint128> = Map::new("balance");

/// The world could not even be set up.
pub struct SetupFailed(pub Mis);
fn setup_ok(ok: bool, tags: &[&'static str], what: impl FnOnce() -> String) {
    if !ok {
        std::panic::resume_unwind(Box::new(SetupFailed(Mis { tags: tags.iter().copied().collect(), what: what() })));
    }
}

impl World {
    pub fn new(cfg: &WCfg) -> World {
        let mut codes = codes::base_codes();
        for k in 1..=cfg.releases {
            codes::add_release(&mut codes, k);
        }
        let codes = Rc::new(RefCell::new(codes));
        let chain = Chain::new("terra", "phoenix-1", codes);
        let mut names = Names::default();
        let mut model = Model::new();
        model.now = chain.now().nanos();
        model.height = chain.height();
        let mut users = vec![];
        names.set("admin", &crate::chain::hash_addr("terra", &format!("admin/{}", cfg.salt)));
        for i in 0..cfg.users {
            let n = format!("u{i}");
            names.set(&n, &crate::chain::hash_addr("terra", &format!("user/{}/{i}", cfg.salt)));
            users.push(n);
        }
        let mut w = World {
            cfg: cfg.clone(),
            chain,
            names,
            model,
            users: users.clone(),
            checks: 0,
            odd_draft: false,
            ncontracts: 0,
            deep_seed: cfg.salt,
            remotes: vec![],
            wire: vec![],
        };
        for n in users.iter().chain(std::iter::once(&"admin".to_string())) {
            for d in DENOMS {
                w.chain.mint(&w.names.a(n), d, cfg.coins);
                w.model.credit(n, d, cfg.coins);
            }
        }
        let admin = w.names.a("admin");
        for t in TOKS {
            let mut bal: Vec<Value> = vec![];
            let mut mb = BTreeMap::new();
            for n in users.iter().chain(std::iter::once(&"admin".to_string())) {
                bal.push(json!({"address": w.names.a(n), "amount": cfg.coins.to_string()}));
                mb.insert(n.clone(), cfg.coins);
            }
            w.inst(t, codes::CW20, json!({"name": "Token", "symbol": "TOKEN", "decimals": 6, "initial_balances": bal, "mint": null, "marketing": null}));
            w.model.tok.insert(t.to_string(), mb);
        }
        for t in NFTS {
            w.inst(t, codes::CW721, json!({"name": "Nft", "symbol": "NFT", "minter": admin}));
            let mut x = crate::model::Nfts { minter: Some("admin".into()), ..Default::default() };
            for (i, n) in users.iter().enumerate() {
                for j in 0..cfg.nfts_each {
                    let id = format!("n{i}{j}");
                    let r = w.chain.tx(
                        &admin,
                        vec![w.names.cosmos(&Act::ex(t, M::NftMint { id: id.clone(), owner: n.clone() }))],
                        FaultPlan::default(),
                    );
                    setup_ok(r.ok(), &[], || r.err());
                    x.owner.insert(id, n.clone());
                }
            }
            w.model.nft.insert(t.to_string(), x);
        }
        let voters: Vec<Value> = cfg.cw3.iter().map(|(n, x)| json!([w.names.a(n), x])).collect();
        w.inst("cw3a", codes::STUB_CW3, Value::Array(voters));
        w.model.cw3.insert("cw3a".into(), cfg.cw3.iter().map(|(n, x)| (n.clone(), *x as u128)).collect());
        // multisigs nobody can act through
        w.inst("cw3e", codes::STUB_CW3, json!([]));
        w.model.cw3.insert("cw3e".into(), vec![]);
        let (a, b) = (w.names.a("u0"), w.names.a("u1"));
        w.inst("cw3z", codes::STUB_CW3, json!([[a, 0], [b, 0]]));
        w.model.cw3.insert("cw3z".into(), vec![("u0".into(), 0), ("u1".into(), 0)]);
        // tokens nobody holds
        for (t, mint) in [("tokz", Value::Null), ("tokm", json!({"minter": admin, "cap": null}))] {
            w.inst(t, codes::CW20, json!({"name": "Token 0", "symbol": "TOKA", "decimals": 0, "initial_balances": [], "mint": mint, "marketing": null}));
            w.model.tok.insert(t.to_string(), BTreeMap::new());
            let minter = if mint.is_null() { None } else { Some(("admin".to_string(), None)) };
            w.model.tinfo.insert(t.to_string(), crate::model::TokInfo { minter, look: Default::default() });
        }
        w.inst("ext", codes::STUB_EXTERNAL, json!({}));
        w.inst("ics721", codes::STUB_ICS721, json!({}));
        let ics = w.names.a("ics721");
        w.inst("ics721cb", codes::ICS721_CALLBACK, json!({"ics721_proxy": ics}));
        w.inst("ver", codes::VERSIONING, json!({"admin": admin}));
        let ver = w.names.a("ver");
        w.inst("ver2", codes::VERSIONING, json!({"admin": admin}));
        for (v, k) in [((1, 0, 0), 3), ((1, 1, 0), 2), ((1, 2, 1), 4), ((3, 0, 0), 1)] {
            let r = w.chain.tx(&admin, vec![w.names.cosmos(&Act::ex("ver2", M::AddVersion { v, k }))], FaultPlan::default());
            setup_ok(r.ok(), &["A01", "U02"], || format!("a release cannot be registered: {}", r.err()));
            w.model.releases2.insert(v, crate::model::Release { k: [k; CODE_FIELDS.len()], log: format!("release {k}") });
        }
        let global: Vec<Value> = cfg.global.iter().map(|a| w.names.asset_v(a)).collect();
        w.model.global_assets = cfg.global.iter().cloned().collect();
        w.model.global_nfts = if cfg.salt % 2 == 0 { vec![] } else { vec!["nft1".into(), "u0".into()] };
        let nfts: Vec<String> = w.model.global_nfts.iter().map(|n| w.names.a(n)).collect();
        w.inst(
            "fac",
            codes::FACTORY,
            json!({"config": {"admin": admin, "enterprise_versioning": ver, "cw20_code_id": codes::CW20, "cw721_code_id": codes::CW721},
                "global_asset_whitelist": global, "global_nft_whitelist": nfts}),
        );
        let global: Vec<Value> = ["uluna", "uusd"].iter().map(|d| json!({"native": d})).collect();
        w.model.global2 = ["uluna", "uusd"].iter().map(|d| Asset::Nat(d.to_string())).collect();
        w.inst(
            "fac2",
            codes::FACTORY,
            json!({"config": {"admin": admin, "enterprise_versioning": ver, "cw20_code_id": codes::CW20, "cw721_code_id": codes::CW721},
                "global_asset_whitelist": global, "global_nft_whitelist": null}),
        );
        let fac = w.names.a("fac");
        w.inst(
            "ent0",
            codes::ENTERPRISE,
            json!({"enterprise_factory_contract": fac, "enterprise_versioning_contract": ver, "dao_creation_date": null,
                "dao_metadata": {"name": "unfinished", "description": null, "logo": "none", "socials": {
                    "github_username": null, "discord_username": null, "twitter_username": null, "telegram_username": null}},
                "dao_type": "multisig", "dao_version": {"major": 1, "minor": 0, "patch": 0}}),
        );
        w.inst("facade1", codes::FACADE_V1, json!({"enterprise_versioning": ver}));
        w.inst("facade2", codes::FACADE_V2, json!({}));
        let (f1, f2) = (w.names.a("facade1"), w.names.a("facade2"));
        w.inst("facade", codes::FACADE, json!({"enterprise_facade_v1": f1, "enterprise_facade_v2": f2}));
        if let Some(o) = &cfg.old {
            let st = crate::old::OldDao::new(o, &w.names, w.model.now);
            w.inst("old", codes::STUB_OLD, serde_json::to_value(&st).unwrap());
            w.model.old = Some(st);
        }
        w.ncontracts = w.chain.contracts().len();
        w.add_remotes();
        w
    }

    pub fn inst(&mut self, name: &str, code: u64, msg: Value) {
        let admin = self.names.a("admin");
        let r = self.chain.tx(
            &admin,
            vec![CosmosMsg::Wasm(WasmMsg::Instantiate {
                admin: None,
                code_id: code,
                msg: cosmwasm_std::Binary(msg.to_string().into_bytes()),
                funds: vec![],
                label: name.to_string(),
            })],
            FaultPlan::default(),
        );
        let tags: &[&'static str] = match code {
            codes::VERSIONING => &["A01", "U02"],
            codes::FACTORY => &["F01"],
            codes::ENTERPRISE => &["A01", "F01"],
            codes::FACADE | codes::FACADE_V1 | codes::FACADE_V2 => &["V01", "V02"],
            codes::ICS721_CALLBACK => &["I01"],
            _ => &[],
        };
        setup_ok(r.ok(), tags, || format!("{name} cannot be created: {}", r.err()));
        let addr = self.chain.contracts().last().unwrap().addr.clone();
        self.names.set(name, &addr);
    }

    pub fn qn(&self, n: &str, msg: Value) -> Result<Value, String> {
        q(&self.chain, &self.names.a(n), msg)
    }

    // ------------------------------------------------------------ steps
    pub fn step(&mut self, st: &Step) -> StepOut {
        let mut o = self.raw_step(st);
        if self.odd_draft {
            for x in &mut o.mis {
                x.tags.insert("V01");
            }
        }
        o
    }
    fn raw_step(&mut self, st: &Step) -> StepOut {
        match st {
            Step::Block { dh, dt } => {
                self.chain.advance(*dh, *dt);
                for r in &self.remotes {
                    r.chain.advance(*dh, *dt);
                }
                let before = self.model.now;
                self.model.advance(*dh, *dt);
                let mut o = StepOut { ok: true, ..Default::default() };
                self.time_compare(before, &mut o.mis);
                o
            }
            Step::Tx { s, acts, abort, fail } => self.tx(s, acts, None, *abort, *fail),
            Step::Via { s, k, tre, v, abort, fail } => self.via(s, *k, *tre, v, *abort, *fail),
            Step::Old { s, v, abort, fail } => self.old_via(s, v, *abort, *fail),
            Step::Relay { seq, abort, fail } => self.relay(*seq, *abort, *fail),
            Step::Expire { seq } => self.expire(*seq),
            Step::Fake { chain, from, seq, addr } => self.fake(*chain, from, *seq, addr),
            Step::Legacy { k, l } => self.legacy(*k, l),
            Step::RTx { chain, s, a } => self.rtx(*chain, s, a),
        }
    }

    /// Whether every component the transaction names exists.
    pub fn all_known(&self, s: &str, acts: &[Act]) -> bool {
        let mut v = serde_json::to_value(acts).unwrap();
        let mut ok = part(s).is_none() || self.names.known(s);
        fn walk(v: &mut Value, f: &mut dyn FnMut(&str)) {
            match v {
                Value::String(s) => f(s),
                Value::Array(a) => a.iter_mut().for_each(|x| walk(x, f)),
                Value::Object(o) => o.iter_mut().for_each(|(_, x)| walk(x, f)),
                _ => {}
            }
        }
        walk(&mut v, &mut |x| {
            if (part(x).is_some() || rpart(x)) && !self.names.known(x) {
                ok = false;
            }
        });
        ok
    }

    /// Known finding K1: a report that leaves the weight as it was is invisible but for the council votes it rewrites.
    fn settle_unclear(&mut self) {
        for (k, id, u, old) in std::mem::take(&mut self.model.unclear) {
            let q = json!({"proposal_votes": {"proposal_id": id, "start_after": null, "limit": 100}});
            if let Ok(r) = self.qn(&format!("d{k}.ctl"), q) {
                let a = self.names.a(&u);
                let real = r["votes"].as_array().and_then(|v| v.iter().find(|x| x["voter"].as_str() == Some(a.as_str())).and_then(|x| num(&x["amount"])));
                if real == Some(old) {
                    if let Some(v) = self.model.daos[k].props.get_mut(&id).and_then(|p| p.votes.get_mut(&u)) {
                        v.1 = old;
                    }
                }
            }
        }
    }

    /// `drafted`: the messages to send, when they are not simply those of `acts`.
    pub fn tx(&mut self, s: &str, acts: &[Act], drafted: Option<Vec<CosmosMsg>>, abort: Option<u32>, fail: Option<u32>) -> StepOut {
        let mut out = StepOut::default();
        if !self.all_known(s, acts) {
            out.skipped = true;
            return out;
        }
        let before = self.model.clone();
        let mut pred = self.model.tx(s, acts);
        if let Err(w) = &pred {
            if w.tags.contains(&"?") {
                self.model = before;
                out.skipped = true;
                out.err = w.what.clone();
                return out;
            }
        }
        out.why = pred.as_ref().err().map(|w| w.what.clone());
        out.why_tags = pred.as_ref().err().map(|w| w.tags.iter().copied().collect()).unwrap_or_default();
        let msgs = drafted.unwrap_or_else(|| acts.iter().map(|a| self.names.cosmos(a)).collect());
        let sender = self.names.a(s);
        let real = self.chain.tx(&sender, msgs, FaultPlan { abort_at: abort, fail_at: fail });
        out.fired = real.fired.clone();
        out.dispatches = real.dispatches;
        out.ok = real.ok();
        out.err = real.err();
        if !real.fired.is_empty() {
            if !real.ok() {
                // the transaction failed because of the fault: nothing may have changed
                let ev = std::mem::take(&mut self.model.ev);
                self.model = before;
                let _ = ev;
                return out;
            }
            // a fault was absorbed: only the actions of a passed proposal may do that
            self.model = before.clone();
            match self.enclosing_actions(&real, fail) {
                None => {
                    let mut tags: Tags = ["G04"].into();
                    for a in acts {
                        op_tags(&before, s, a, false, &mut tags);
                    }
                    out.mis.push(Mis { tags, what: "a failing message inside a transaction was swallowed".into() });
                    return out;
                }
                Some(k) => {
                    out.absorbed = true;
                    self.model.force_fail = Some(k);
                    pred = self.model.tx(s, acts);
                    self.model.force_fail = None;
                }
            }
        }
        let mut otags = Tags::new();
        match (&pred, real.ok()) {
            (Ok(()), false) => {
                for a in acts {
                    op_tags(&before, s, a, false, &mut otags);
                }
                out.mis.push(Mis { tags: otags, what: format!("refused ({}) although it is legitimate: {}", real.err(), brief(acts)) });
                self.model = before;
                return out;
            }
            (Err(w), true) => {
                let tags: Tags = w.tags.iter().copied().collect();
                out.mis.push(Mis { tags, what: format!("accepted although it has to be refused ({}): {}", w.what, brief(acts)) });
                return out;
            }
            (Err(_), false) => return out,
            (Ok(()), true) => {}
        }
        self.settle_unclear();
        for a in acts {
            op_tags(&before, s, a, true, &mut otags);
        }
        for (k, id) in &self.model.exec_log {
            let p = &self.model.daos[*k].props[id];
            if p.fin == Some(Fin::Passed) && !p.actions_ok {
                otags.insert("G04");
            }
        }
        if let Err(m) = self.learn_names() {
            let mut tags = otags.clone();
            tags.insert("F01");
            out.mis.push(Mis { tags, what: m });
            return out;
        }
        let mut mis = vec![];
        self.learn_intermediates();
        self.cmp_wire(&mut mis);
        self.compare(&before, &real, &mut mis);
        for m in &mut mis {
            m.tags.extend(otags.iter().copied());
            m.what = format!("{} | after {}", m.what, brief(acts));
        }
        out.mis = mis;
        out
    }

    /// Which run of proposal actions (in call order) contains the failed dispatch.
    fn enclosing_actions(&self, o: &TxOutcome, fail: Option<u32>) -> Option<u32> {
        let i = fail? as usize;
        let is = |c: &crate::chain::Call| {
            c.kind == "execute" && c.caller == c.target && c.msg.starts_with("{\"execute_proposal_actions\"")
        };
        let mut depth = o.calls.get(i)?.depth + 1;
        let mut j = i as isize;
        while j >= 0 {
            let c = &o.calls[j as usize];
            if c.depth < depth {
                depth = c.depth;
                if is(c) {
                    let n = o.calls[..=(j as usize)].iter().filter(|c| is(c)).count();
                    return Some(n as u32 - 1);
                }
            }
            j -= 1;
        }
        None
    }

    /// New contracts get their symbolic names through the public queries.
    fn learn_names(&mut self) -> Result<(), String> {
        let all = self.chain.contracts();
        let new: Vec<_> = all[self.ncontracts.min(all.len())..].to_vec();
        self.ncontracts = all.len();
        let mut k = self.names_daos();
        let mut pend_tok = None;
        let mut pend_nft = None;
        for c in &new {
            match c.code_id % codes::VERSION_STRIDE {
                codes::ENTERPRISE => {
                    let addr = c.addr.clone();
                    let r = q(&self.chain, &addr, json!({"component_contracts": {}}))?;
                    self.names.set(&format!("d{k}.ent"), &addr);
                    for (p, key) in COMPONENTS {
                        let a = r[key].as_str().ok_or(format!("{key} missing"))?;
                        self.names.set(&format!("d{k}.{p}"), a);
                    }
                    if let Some(a) = r["attestation_contract"].as_str() {
                        self.names.set(&format!("d{k}.att0"), a);
                    }
                    k += 1;
                }
                codes::CW20 => pend_tok = Some(c.addr.clone()),
                codes::CW721 => pend_nft = Some(c.addr.clone()),
                _ => {}
            }
            if let Some(t) = pend_tok.take() {
                self.names.set(&format!("d{}.tok", k.max(1) - 1), &t);
            }
            if let Some(t) = pend_nft.take() {
                self.names.set(&format!("d{}.nft", k.max(1) - 1), &t);
            }
        }
        for d in &self.model.daos {
            if let Some(a) = &d.att {
                if !self.names.known(a) {
                    let r = self.qn(&format!("d{}.ent", d.k), json!({"component_contracts": {}}))?;
                    if let Some(addr) = r["attestation_contract"].as_str() {
                        let addr = addr.to_string();
                        self.names.set(a, &addr);
                    }
                }
            }
        }
        Ok(())
    }
    fn names_daos(&self) -> usize {
        let mut k = 0;
        while self.names.known(&format!("d{k}.ent")) {
            k += 1;
        }
        k
    }
}

pub const COMPONENTS: [(&str, &str); 7] = [
    ("gov", "enterprise_governance_contract"),
    ("ctl", "enterprise_governance_controller_contract"),
    ("out", "enterprise_outposts_contract"),
    ("tre", "enterprise_treasury_contract"),
    ("dist", "funds_distributor_contract"),
    ("mem", "membership_contract"),
    ("cmem", "council_membership_contract"),
];

pub fn brief(a: &[Act]) -> String {
    let mut s = serde_json::to_string(a).unwrap_or_default();
    if s.len() > 400 {
        s.truncate(400);
    }
    s
}

// ---------------------------------------------------------------- comparison
pub struct Cmp<'a> {
    pub mis: &'a mut Vec<Mis>,
    pub n: u64,
    pub ev: Vec<(&'static str, String)>,
}
impl<'a> Cmp<'a> {
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, tags: &[&'static str], what: &str, real: T, model: T) {
        self.n += 1;
        if real != model {
            self.mis.push(Mis {
                tags: tags.iter().copied().collect(),
                what: format!("{what}: contracts {real:?}, expected {model:?}"),
            });
        }
    }
    pub fn fail(&mut self, tags: &[&'static str], what: String) {
        self.mis.push(Mis { tags: tags.iter().copied().collect(), what });
    }
}

/// A contract of a remote chain, such as "r0.3".
fn rpart(n: &str) -> bool {
    n.strip_prefix('r').and_then(|x| x.split_once('.')).map(|(c, i)| c.parse::<u8>().is_ok() && i.parse::<usize>().is_ok()).unwrap_or(false)
}
fn holder_tags(n: &str) -> Vec<&'static str> {
    match part(n) {
        Some((_, "tre")) => vec!["T01"],
        Some((_, "ctl")) => vec!["G06"],
        Some((_, "dist")) => vec!["D01"],
        Some((_, "mem")) => vec!["S01"],
        Some((_, "out")) => vec!["X01"],
        _ => vec![],
    }
}

impl World {
    pub fn status(&self, k: usize, p: &Prop) -> &'static str {
        let m = &self.model;
        let d = &m.daos[k];
        if p.executed.is_some() {
            return "executed";
        }
        let total = m.votes_total(k, p);
        let o = p.outcome(total);
        if p.ends <= m.now {
            return if o == Fin::Passed { "passed" } else { "rejected" };
        }
        let early = p.council || d.gov.early;
        if early && p.earliest.map(|t| m.now >= t).unwrap_or(true) && matches!(o, Fin::Passed | Fin::Rejecting | Fin::Vetoed) {
            "in_progress_can_execute_early"
        } else {
            "in_progress"
        }
    }

    pub fn compare(&mut self, before: &Model, real: &TxOutcome, mis: &mut Vec<Mis>) {
        let touched: BTreeSet<N> = real.touched.iter().map(|a| self.names.n(a)).collect();
        let m = &self.model;
        let mut c = Cmp { mis, n: 0, ev: vec![] };
        self.cmp_bank(&mut c);
        for t in m.tok.keys() {
            if touched.contains(t) || before.tok.get(t) != m.tok.get(t) {
                self.cmp_tok(t, &mut c);
            }
        }
        for t in m.nft.keys() {
            if touched.contains(t) || before.nft.get(t) != m.nft.get(t) {
                self.cmp_nft(t, &mut c);
            }
        }
        if touched.contains("ext") || before.ext != m.ext || before.ext_w != m.ext_w {
            self.cmp_ext(&mut c);
        }
        if touched.contains("ver") || before.releases != m.releases || before.ver_admin != m.ver_admin {
            self.cmp_ver(&mut c);
        }
        if touched.contains("fac") || before.fac_admin != m.fac_admin || before.fac_versioning != m.fac_versioning || before.daos.len() != m.daos.len() {
            self.cmp_fac(&mut c);
        }
        for k in 0..m.daos.len() {
            let new = Some(&m.daos[k]) != before.daos.get(k) || k >= before.daos.len();
            let t = |p: &str| touched.contains(&format!("d{k}.{p}"));
            let b = before.daos.get(k);
            let d = &m.daos[k];
            if t("mem") || b.map(|b| b.mem != d.mem).unwrap_or(true) {
                self.cmp_mem(k, &mut c);
            }
            if t("cmem") || b.map(|b| b.cmem != d.cmem).unwrap_or(true) {
                self.cmp_cmem(k, &mut c);
            }
            if t("dist") || t("mem") || b.map(|b| b.dist != d.dist).unwrap_or(true) {
                self.cmp_dist(k, &mut c);
            }
            if t("tre") || b.map(|b| b.tre != d.tre).unwrap_or(true) {
                self.cmp_tre(k, &mut c);
            }
            if t("out") || b.map(|b| b.out != d.out).unwrap_or(true) {
                self.cmp_out(k, &mut c);
            }
            if t("ent") || new || before.code != m.code || before.atts != m.atts || d.att.as_ref().map(|a| touched.contains(a)).unwrap_or(false) {
                self.cmp_ent(k, &mut c);
            }
            if t("ctl") || b.map(|b| b.gov != d.gov || b.council != d.council).unwrap_or(true) {
                self.cmp_gov(k, &mut c);
            }
            if t("ctl") || t("gov") || t("mem") || t("cmem") || b.map(|b| b.props != d.props).unwrap_or(true) {
                self.cmp_props(k, &mut c, &Look::Tx(b.map(|b| &b.props)));
            }
        }
        self.checks += c.n;
    }
    fn time_compare(&mut self, before: u64, mis: &mut Vec<Mis>) {
        let mut c = Cmp { mis, n: 0, ev: vec![] };
        for k in 0..self.model.daos.len() {
            self.cmp_props(k, &mut c, &Look::Time(before));
        }
        self.cmp_old(&mut c, false);
        self.checks += c.n;
    }
    /// Everything, including what nothing should have touched, and the paged queries.
    pub fn deep_compare(&mut self) -> Vec<Mis> {
        let mut mis = vec![];
        let mut c = Cmp { mis: &mut mis, n: 0, ev: vec![] };
        self.cmp_bank(&mut c);
        for t in self.model.tok.keys() {
            self.cmp_tok(t, &mut c);
        }
        for t in self.model.nft.keys() {
            self.cmp_nft(t, &mut c);
        }
        self.cmp_ext(&mut c);
        self.cmp_ver(&mut c);
        self.cmp_fac(&mut c);
        self.cmp_remotes(&mut c);
        self.cmp_old(&mut c, true);
        for k in 0..self.model.daos.len() {
            self.cmp_mem(k, &mut c);
            self.cmp_cmem(k, &mut c);
            self.cmp_dist(k, &mut c);
            self.cmp_tre(k, &mut c);
            self.cmp_ent(k, &mut c);
            self.cmp_gov(k, &mut c);
            self.cmp_props(k, &mut c, &Look::Deep);
            self.cmp_out(k, &mut c);
            self.cmp_history(k, &mut c);
            if self.cfg.views & 1 != 0 {
                self.cmp_facade(k, &mut c);
            }
            if self.cfg.views & 2 != 0 {
                self.cmp_listings(k, &mut c);
            }
        }
        self.checks += c.n;
        let ev = c.ev;
        self.model.ev.extend(ev);
        mis
    }

    pub fn cmp_bank(&self, c: &mut Cmp) {
        let mut real: BTreeMap<(N, String), Amt> = BTreeMap::new();
        for ((a, d), x) in self.chain.all_balances() {
            if x > 0 {
                real.insert((self.names.n(&a), d), x);
            }
        }
        c.n += 1;
        let keys: BTreeSet<(N, String)> = real
            .keys()
            .cloned()
            .chain(self.model.bank.iter().filter(|x| *x.1 > 0).map(|x| x.0.clone()))
            .collect();
        for k in keys {
            let r = real.get(&k).copied().unwrap_or(0);
            let e = self.model.bank.get(&k).copied().unwrap_or(0);
            if r != e {
                c.fail(&holder_tags(&k.0), format!("balance of {} in {}: contracts {r}, expected {e}", k.0, k.1));
            }
        }
    }
    pub fn cmp_tok(&self, t: &str, c: &mut Cmp) {
        let addr = self.names.a(t);
        let real: BTreeMap<N, Amt> = self.chain.with_store(&addr, |s| {
            CW20_BALANCES
                .range(s, None, None, cosmwasm_std::Order::Ascending)
                .filter_map(|r| r.ok())
                .filter(|(_, x)| !x.is_zero())
                .map(|(a, x)| (self.names.n(a.as_str()), x.u128()))
                .collect()
        });
        if let (Some(i), Some(_)) = (self.model.tinfo.get(t), part(t)) {
            let r = self.qn(t, json!({"token_info": {}})).unwrap_or_default();
            let got = (r["name"].as_str().map(String::from), r["symbol"].as_str().map(String::from), r["decimals"].as_u64());
            c.eq(&["F01"], &format!("name of {t}"), got, (Some(i.look.name()), Some(i.look.symbol()), Some(i.look.n as u64 % 19)));
            let r = self.qn(t, json!({"minter": {}})).unwrap_or_default();
            let got = r["minter"].as_str().map(|m| (self.names.n(m), num(&r["cap"])));
            c.eq(&["F01"], &format!("minter of {t}"), got, i.minter.clone());
            let r = self.qn(t, json!({"marketing_info": {}})).unwrap_or_default();
            let s = |v: &Value| v.as_str().map(String::from);
            let got = (s(&r["project"]), s(&r["description"]), r["marketing"].as_str().map(|a| self.names.n(a)), s(&r["logo"]["url"]));
            let k = part(t).unwrap().0;
            let (p, d, o, l) = i.look.marketing.clone().unwrap_or((None, None, None, None));
            c.eq(&["F01"], &format!("marketing information of {t}"), got, (p, d, Some(o.unwrap_or(format!("d{k}.ent"))), l));
        }
        let want: BTreeMap<N, Amt> = self.model.tok[t].iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect();
        c.n += 1;
        let keys: BTreeSet<&N> = real.keys().chain(want.keys()).collect();
        for k in keys {
            let (r, e) = (real.get(k).copied().unwrap_or(0), want.get(k).copied().unwrap_or(0));
            if r != e {
                c.fail(&holder_tags(k), format!("balance of {k} in {t}: contracts {r}, expected {e}"));
            }
        }
    }
    pub fn cmp_nft(&self, t: &str, c: &mut Cmp) {
        let addr = self.names.a(t);
        let owners: BTreeMap<String, N> = self.chain.with_store(&addr, |s| {
            let k = cw721_base::Cw721Contract::<cw721_base::Extension, cosmwasm_std::Empty, cosmwasm_std::Empty, cosmwasm_std::Empty>::default();
            k.tokens
                .range(s, None, None, cosmwasm_std::Order::Ascending)
                .filter_map(|r| r.ok())
                .map(|(id, t)| (id, self.names.n(t.owner.as_str())))
                .collect()
        });
        c.n += 1;
        if let Some(n) = self.model.ninfo.get(t) {
            let r = self.qn(t, json!({"contract_info": {}})).unwrap_or_default();
            let got = (r["name"].as_str().map(String::from), r["symbol"].as_str().map(String::from));
            c.eq(&["F01"], &format!("name of {t}"), got, (Some(format!("Nft {n}")), Some(format!("NFT{n}"))));
            let r = self.qn(t, json!({"minter": {}})).unwrap_or_default();
            c.eq(&["F01"], &format!("minter of {t}"), r["minter"].as_str().map(|a| self.names.n(a)), self.model.nft[t].minter.clone());
        }
        let want = &self.model.nft[t].owner;
        for (id, o) in want {
            if owners.get(id) != Some(o) {
                let r = owners.get(id).cloned().unwrap_or_default();
                let mut tags = holder_tags(o);
                tags.extend(holder_tags(&r));
                c.fail(&tags, format!("owner of {t}/{id}: contracts {r}, expected {o}"));
            }
        }
    }
    fn cmp_ext(&self, c: &mut Cmp) {
        let r = self.qn("ext", json!({})).ok().and_then(|v| v.as_u64());
        c.eq(&["G04"], "calls received by an external contract", r, Some(self.model.ext));
        if self.model.ext_w.is_empty() {
            return;
        }
        let real: BTreeMap<(N, N), Option<Amt>> = self.chain.with_store(&self.names.a("ext"), |s| {
            codes::EXT_WEIGHTS
                .range(s, None, None, cosmwasm_std::Order::Ascending)
                .filter_map(|r| r.ok())
                .map(|((a, b), x)| ((self.names.n(&a), self.names.n(&b)), x.parse().ok()))
                .collect()
        });
        for (k, w) in &self.model.ext_w {
            c.eq(&["M02", "M01"], &format!("weight of {} reported by {} to another contract", k.1, k.0), real.get(k).copied().flatten(), Some(*w));
        }
    }
    fn cmp_ver(&self, c: &mut Cmp) {
        let r = self.qn("ver", json!({"admin": {}}));
        c.eq(&["U02"], "registry admin", r.ok().and_then(|v| v["admin"].as_str().map(|a| self.names.n(a))), Some(self.model.ver_admin.clone()));
        for (v, rel) in &self.model.releases {
            let r = self.qn("ver", json!({"version": {"version": ver(*v)}}));
            let want = release_info(*v, &rel.log, &rel.k);
            c.eq(&["U02"], "release", r.ok().map(|x| x["version"].clone()), Some(want));
        }
        let r = self.qn("ver", json!({"latest_version": {}})).ok().and_then(|x| unver(&x["version"]["version"]));
        c.eq(&["U02"], "latest release", r, self.model.releases.keys().last().copied());
        // complete, in order, whatever the page size
        let all: Vec<Ver> = self.model.releases.keys().copied().collect();
        for lim in [1u32, 2, 7] {
            let mut got: Vec<Ver> = vec![];
            let mut after: Option<Ver> = None;
            for _ in 0..all.len() + 2 {
                let r = match self.qn("ver", json!({"versions": {"start_after": after.map(ver), "limit": lim}})) {
                    Ok(r) => r,
                    Err(x) => {
                        c.fail(&["U02", "Q01"], format!("versions query: {x}"));
                        break;
                    }
                };
                let page: Vec<Ver> = r["versions"].as_array().map(|v| v.iter().filter_map(|x| unver(&x["version"])).collect()).unwrap_or_default();
                if page.is_empty() {
                    break;
                }
                after = page.last().copied();
                got.extend(page);
            }
            c.eq(&["U02", "Q01"], "releases listed page by page", got, all.clone());
        }
    }
    fn cmp_fac(&self, c: &mut Cmp) {
        let r = self.qn("fac", json!({"config": {}}));
        let v = r.unwrap_or_default()["config"].clone();
        let name = |v: &Value| v.as_str().map(|a| self.names.n(a));
        let m = &self.model;
        c.eq(&["F01", "A01"], "factory admin", name(&v["admin"]), Some(m.fac_admin.clone()));
        c.eq(&["F01", "A01"], "registry of the factory", name(&v["enterprise_versioning"]), Some(m.fac_versioning.clone()));
        c.eq(&["F01", "A01"], "token code", v["cw20_code_id"].as_u64(), Some(m.fac_cw20));
        c.eq(&["F01", "A01"], "NFT code", v["cw721_code_id"].as_u64(), Some(m.fac_cw721));
        let r = self.qn("fac", json!({"global_asset_whitelist": {}}));
        let got: Option<BTreeSet<String>> = r.ok().and_then(|v| v["assets"].as_array().map(|v| v.iter().map(|x| x.to_string()).collect()));
        c.eq(&["F01", "D03"], "global asset whitelist", got, Some(m.global_assets.iter().map(|a| self.names.asset_v(a).to_string()).collect()));
        let r = self.qn("fac", json!({"global_nft_whitelist": {}}));
        let got: Option<BTreeSet<N>> = r.ok().and_then(|v| v["nfts"].as_array().map(|v| v.iter().filter_map(name).collect()));
        c.eq(&["F01"], "global NFT whitelist", got, Some(m.global_nfts.iter().cloned().collect()));
        let r = self.qn("fac", json!({"enterprise_code_ids": {"start_after": null, "limit": null}}));
        c.eq(&["F01", "Q01"], "code ids", r.ok().map(|v| v["code_ids"].clone()), Some(json!([])));
        let first = m.reg(&m.fac_versioning).and_then(|r| r.get(&(1, 0, 0))).map(|r| r.code(codes::TREASURY));
        for code in (0..5).map(|k| codes::TREASURY + k * codes::VERSION_STRIDE).chain([codes::ENTERPRISE]) {
            let r = self.qn("fac", json!({"is_enterprise_code_id": {"code_id": code.to_string()}}));
            c.eq(&["F01"], &format!("{code} is a DAO's code"), r.ok().and_then(|v| v["is_enterprise_code_id"].as_bool()), first.map(|x| x == code));
        }
        let want: Vec<N> = (0..self.model.daos.len()).map(|k| format!("d{k}.tre")).collect();
        for lim in [3u32, 100] {
            let mut got = vec![];
            let mut after: Option<String> = None;
            for _ in 0..want.len() + 2 {
                let r = self.qn("fac", json!({"all_daos": {"start_after": after, "limit": lim}}));
                let page: Vec<(String, N)> = r
                    .ok()
                    .and_then(|v| {
                        v["daos"].as_array().map(|v| {
                            v.iter()
                                .map(|x| {
                                    (
                                        num(&x["dao_id"]).unwrap_or(0).to_string(),
                                        self.names.n(x["dao_address"].as_str().unwrap_or("")),
                                    )
                                })
                                .collect()
                        })
                    })
                    .unwrap_or_default();
                if page.is_empty() {
                    break;
                }
                after = page.last().map(|x| x.0.clone());
                got.extend(page.into_iter().map(|x| x.1));
            }
            c.eq(&["F01", "Q01"], "DAOs listed by the factory", got, want.clone());
        }
    }

    fn cmp_mem(&self, k: usize, c: &mut Cmp) {
        let n = format!("d{k}.mem");
        let d = &self.model.daos[k];
        for u in &self.users {
            let r = self.qn(&n, json!({"user_weight": {"user": self.names.a(u)}})).ok().and_then(|v| num(&v["weight"]));
            c.eq(&["M01", "S01"], &format!("weight of {u}"), r, Some(d.mem.wt.get(u)));
        }
        let r = self.qn(&n, json!({"total_weight": {"expiration": {"never": {}}}})).ok().and_then(|v| num(&v["total_weight"]));
        c.eq(&["M01"], "total weight", r, Some(d.mem.wt.total));
        self.cmp_members(&n, &d.mem.wt.w, &["M01", "Q01"], c);
        if d.kind == Kind::Multisig {
            return;
        }
        let (key, _) = match d.kind {
            Kind::Denom => ("denom_config", ""),
            Kind::Token => ("token_config", ""),
            _ => ("nft_contract_config", ""),
        };
        let r = self.qn(&n, json!({key: {}}));
        c.eq(&["S02", "P01"], "unlocking period", r.ok().and_then(|v| undur(&v["unlocking_period"])), Some(d.mem.unlock));
        for u in &self.users {
            for (qy, only) in [("claims", false), ("releasable_claims", true)] {
                let mut got: Vec<(Amt, Vec<String>, Rel)> = vec![];
                match self.qn(&n, json!({qy: {"user": self.names.a(u)}})) {
                    Err(x) => c.fail(&["S02"], format!("{qy} of {u}: {x}")),
                    Ok(v) => {
                        for x in v["claims"].as_array().unwrap_or(&vec![]) {
                            let mut ids: Vec<String> = x["nft_ids"]
                                .as_array()
                                .map(|v| v.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect())
                                .unwrap_or_default();
                            ids.sort();
                            got.push((num(&x["amount"]).unwrap_or(0), ids, unrel(&x["release_at"]).unwrap_or(Rel::Height(0))));
                        }
                    }
                }
                got.sort();
                let mut want: Vec<(Amt, Vec<String>, Rel)> = d
                    .mem
                    .claims
                    .iter()
                    .filter(|x| &x.user == u && (!only || self.model.mature(x.rel)))
                    .map(|x| {
                        let mut ids = x.ids.clone();
                        ids.sort();
                        (x.amount, ids, x.rel)
                    })
                    .collect();
                want.sort();
                c.eq(&["S02"], &format!("{qy} of {u}"), got, want);
            }
        }
        if d.kind == Kind::Nft {
            let mut got: BTreeMap<String, N> = BTreeMap::new();
            for u in &self.users {
                let mut after: Option<String> = None;
                for _ in 0..60 {
                    let r = self.qn(&n, json!({"user_stake": {"user": self.names.a(u), "start_after": after, "limit": 3}}));
                    let page: Vec<String> = r
                        .ok()
                        .and_then(|v| v["tokens"].as_array().map(|v| v.iter().filter_map(|x| x.as_str().map(String::from)).collect()))
                        .unwrap_or_default();
                    if page.is_empty() {
                        break;
                    }
                    after = page.last().cloned();
                    for id in page {
                        got.insert(id, u.clone());
                    }
                }
            }
            let want: BTreeMap<String, N> =
                d.mem.stakes.iter().filter(|x| self.users.contains(x.1)).map(|(a, b)| (a.clone(), b.clone())).collect();
            c.eq(&["S01"], "staked tokens", got, want);
        }
    }
    fn cmp_members(&self, n: &str, w: &BTreeMap<N, Amt>, tags: &[&'static str], c: &mut Cmp) {
        let mut got: BTreeMap<N, Amt> = BTreeMap::new();
        let mut after: Option<String> = None;
        let mut cnt = 0;
        for _ in 0..60 {
            let r = match self.qn(n, json!({"members": {"start_after": after, "limit": 4}})) {
                Ok(r) => r,
                Err(x) => {
                    c.fail(tags, format!("members query: {x}"));
                    break;
                }
            };
            let page: Vec<(String, Amt)> = r["members"]
                .as_array()
                .map(|v| v.iter().map(|x| (x["user"].as_str().unwrap_or("").to_string(), num(&x["weight"]).unwrap_or(0))).collect())
                .unwrap_or_default();
            if page.is_empty() {
                break;
            }
            after = page.last().map(|x| x.0.clone());
            for (a, x) in page {
                cnt += 1;
                if x > 0 {
                    got.insert(self.names.n(&a), x);
                }
            }
        }
        let _ = cnt;
        c.eq(tags, &format!("members of {n}"), got, w.clone());
    }
    fn cmp_cmem(&self, k: usize, c: &mut Cmp) {
        let n = format!("d{k}.cmem");
        let d = &self.model.daos[k];
        self.cmp_members(&n, &d.cmem.w, &["C01"], c);
        let r = self.qn(&n, json!({"total_weight": {"expiration": {"never": {}}}})).ok().and_then(|v| num(&v["total_weight"]));
        c.eq(&["C01", "M01"], "council size", r, Some(d.cmem.total));
    }
    fn cmp_history(&self, k: usize, c: &mut Cmp) {
        let d = &self.model.daos[k];
        for (n, w) in [(format!("d{k}.mem"), &d.mem.wt), (format!("d{k}.cmem"), &d.cmem)] {
            let len = w.hist.len();
            let mut pts: Vec<(u64, u64)> = vec![(self.model.height, self.model.now)];
            for i in 0..len {
                if len <= 8 || i % (len / 8) == (self.deep_seed as usize % (len / 8)) {
                    let (h, t, _) = w.hist[i];
                    pts.push((h, t));
                    pts.push((h + 1, t + SEC));
                }
            }
            for (h, t) in pts {
                if h > self.model.height || t > self.model.now {
                    continue;
                }
                let r = self.qn(&n, json!({"total_weight": {"expiration": {"at_time": t.to_string()}}})).ok().and_then(|v| num(&v["total_weight"]));
                c.eq(&["M01"], &format!("total weight of {n} at time {t}"), r, Some(w.at_time(t)));
                let r = self.qn(&n, json!({"total_weight": {"expiration": {"at_height": h}}})).ok().and_then(|v| num(&v["total_weight"]));
                c.eq(&["M01"], &format!("total weight of {n} at height {h}"), r, Some(w.at_height(h)));
            }
        }
    }
    pub fn reward_assets(&self) -> (Vec<String>, Vec<N>) {
        let mut toks: Vec<N> = TOKS.iter().map(|t| t.to_string()).collect();
        for d in &self.model.daos {
            if d.token == format!("d{}.tok", d.k) {
                toks.push(d.token.clone());
            }
        }
        (DENOMS.iter().map(|d| d.to_string()).collect(), toks)
    }
    fn cmp_dist(&self, k: usize, c: &mut Cmp) {
        let n = format!("d{k}.dist");
        let d = &self.model.daos[k].dist;
        let r = self.qn(&n, json!({"minimum_eligible_weight": {}})).ok().and_then(|v| num(&v["minimum_eligible_weight"]));
        c.eq(&["D02"], "minimum reward weight", r, Some(d.min));
        if d.idx.is_empty() {
            return;
        }
        let (nat, toks) = self.reward_assets();
        // asking twice does not make it more
        let twice: Vec<&String> = nat.iter().chain(nat.iter().take(2)).collect();
        let toks_twice: Vec<String> = toks.iter().chain(toks.iter().take(1)).map(|t| self.names.a(t)).collect();
        for u in &self.users {
            let r = self.qn(&n, json!({"user_rewards": {"user": self.names.a(u), "native_denoms": twice, "cw20_assets": toks_twice}}));
            let mut got: BTreeMap<Asset, Amt> = BTreeMap::new();
            match r {
                Err(x) => c.fail(&["D01"], format!("rewards of {u}: {x}")),
                Ok(v) => {
                    for x in v["native_rewards"].as_array().unwrap_or(&vec![]) {
                        *got.entry(Asset::Nat(x["denom"].as_str().unwrap_or("").into())).or_insert(0) += num(&x["amount"]).unwrap_or(0);
                    }
                    for x in v["cw20_rewards"].as_array().unwrap_or(&vec![]) {
                        *got.entry(Asset::Cw20(self.names.n(x["asset"].as_str().unwrap_or("")))).or_insert(0) += num(&x["amount"]).unwrap_or(0);
                    }
                }
            }
            got.retain(|_, x| *x > 0);
            let mut want: BTreeMap<Asset, Amt> = BTreeMap::new();
            for a in nat.iter().map(|d| Asset::Nat(d.clone())).chain(toks.iter().map(|t| Asset::Cw20(t.clone()))) {
                let x = d.reward(u, &a);
                if x > 0 {
                    want.insert(a, x);
                }
            }
            let below = d.w.get(u).map(|w| *w < d.min).unwrap_or(false);
            let mut t = vec!["D01", "M02"];
            if below || d.min > 1 {
                t.push("D02");
            }
            if self.model.daos[k].kind == Kind::Multisig {
                // those it was created with are counted from the start
                t.push("F01");
            }
            c.eq(&t, &format!("rewards of {u}"), got, want);
        }
    }
    fn cmp_tre(&self, k: usize, c: &mut Cmp) {
        let n = format!("d{k}.tre");
        let d = &self.model.daos[k].tre;
        let r = self.qn(&n, json!({"config": {}})).ok().and_then(|v| v["admin"].as_str().map(|a| self.names.n(a)));
        c.eq(&["T01", "A01", "F01"], "treasury admin", r, Some(d.admin.clone()));
        let r = |q: &str, key: &str| self.qn(&n, json!({q: {}})).ok().and_then(|v| v[key].as_bool());
        let going = d.legacy.as_ref().map(|l| l.running).unwrap_or(false);
        c.eq(&["L01"], "migration in progress", r("has_incomplete_v2_migration", "has_incomplete_migration"), Some(going));
        let left = d.legacy.as_ref().map(|l| !l.empty()).unwrap_or(false);
        c.eq(&["L01"], "something left to move", r("has_unmoved_stakes_or_claims", "has_unmoved_stakes_or_claims"), Some(left));
        if let Some(l) = &d.legacy {
            for u in &self.users {
                let r = self.qn(&n, json!({"user_weight": {"user": self.names.a(u)}})).ok().and_then(|v| num(&v["weight"]));
                c.eq(&["L01"], &format!("weight of {u} before the rewrite"), r, Some(l.weight(u)));
            }
        }
        let mut got: Vec<Value> = vec![];
        let mut after = Value::Null;
        let lim = if d.assets.len() > 8 { json!(null) } else { json!(2) };
        for _ in 0..40 {
            let r = self.qn(&n, json!({"asset_whitelist": {"start_after": after, "limit": lim}}));
            let page = match r {
                Ok(v) => v["assets"].as_array().cloned().unwrap_or_default(),
                Err(x) => {
                    c.fail(&["T01", "Q01"], format!("whitelist query: {x}"));
                    break;
                }
            };
            if page.is_empty() {
                break;
            }
            after = page.last().cloned().unwrap();
            got.extend(page);
        }
        let set: BTreeSet<String> = got.iter().map(|v| v.to_string()).collect();
        c.eq(&["T01", "Q01"], "whitelist has duplicates", set.len(), got.len());
        let want: BTreeSet<String> = d.assets.iter().map(|a| self.names.asset_v(a).to_string()).collect();
        c.eq(&["T01", "D03", "Q01"], "asset whitelist", set, want);
        let mut got: Vec<N> = vec![];
        let mut after = Value::Null;
        for _ in 0..40 {
            let r = self.qn(&n, json!({"nft_whitelist": {"start_after": after, "limit": 2}}));
            let page = r.ok().and_then(|v| v["nfts"].as_array().cloned()).unwrap_or_default();
            if page.is_empty() {
                break;
            }
            after = page.last().cloned().unwrap();
            got.extend(page.iter().filter_map(|x| x.as_str().map(|a| self.names.n(a))));
        }
        let len = got.len();
        let set: BTreeSet<N> = got.into_iter().collect();
        c.eq(&["T01", "Q01"], "NFT whitelist has duplicates", set.len(), len);
        c.eq(&["T01", "Q01"], "NFT whitelist", set, d.nfts.clone());
    }
    fn cmp_ent(&self, k: usize, c: &mut Cmp) {
        let n = format!("d{k}.ent");
        let d = &self.model.daos[k];
        match self.qn(&n, json!({"dao_info": {}})) {
            Err(x) => c.fail(&["F01", "U01"], format!("DAO info: {x}")),
            Ok(v) => {
                c.eq(&["F01", "G04"], "name", v["metadata"]["name"].as_str().map(String::from), Some(d.name.clone()));
                let m = &v["metadata"];
                for (i, key) in META.iter().enumerate() {
                    let x = match i {
                        0 => m[key].clone(),
                        1 => m[key]["url"].clone(),
                        _ => m["socials"][key].clone(),
                    };
                    c.eq(&["F01", "G04"], key, x.as_str().map(String::from), d.meta[i].clone());
                }
                c.eq(&["U01", "F01"], "DAO version", unver(&v["dao_version"]), Some(d.version));
                let t = match d.kind {
                    Kind::Denom => "denom",
                    Kind::Token => "token",
                    Kind::Nft => "nft",
                    Kind::Multisig => "multisig",
                };
                c.eq(&["F01"], "DAO type", v["dao_type"].as_str().map(String::from), Some(t.to_string()));
            }
        }
        match self.qn(&n, json!({"component_contracts": {}})) {
            Err(x) => c.fail(&["F01"], format!("components: {x}")),
            Ok(v) => {
                for (p, key) in COMPONENTS {
                    c.eq(&["F01", "A01"], key, v[key].as_str().map(|a| self.names.n(a)), Some(format!("d{k}.{p}")));
                }
                c.eq(&["F01"], "factory of the DAO", v["enterprise_factory_contract"].as_str().map(|a| self.names.n(a)), Some(d.factory.clone()));
                c.eq(&["F01"], "registry of the DAO", v["enterprise_versioning_contract"].as_str().map(|a| self.names.n(a)), Some(d.versioning.clone()));
                c.eq(&["R01", "F01"], "attestation", v["attestation_contract"].as_str().map(|a| self.names.n(a)), d.att.clone());
            }
        }
        for u in &self.users {
            let r = self.qn(&n, json!({"is_restricted_user": {"user": self.names.a(u)}})).ok().and_then(|v| v["is_restricted"].as_bool());
            c.eq(&["R01"], &format!("{u} restricted"), r, Some(self.model.restricted(k, u)));
        }
        if let Some(a) = &d.att {
            let r = self.qn(a, json!({"attestation_text": {}})).ok().and_then(|v| v["text"].as_str().map(String::from));
            c.eq(&["R01", "F01"], "text of the attestation", r, self.model.att_text.get(a).cloned());
        }
        let att = d.att.as_ref().and_then(|a| part(a)).map(|x| x.1);
        let own = [&d.token, &d.nft].into_iter().filter_map(|n| part(n)).filter(|x| x.0 == k).map(|x| x.1);
        let parts = ["ent", "ctl", "gov", "mem", "cmem", "tre", "dist", "out"].into_iter().chain(att).chain(own);
        for p in parts {
            let name = format!("d{k}.{p}");
            if let Some(m) = self.chain.meta(&self.names.a(&name)) {
                c.eq(&["U01", "F01"], &format!("code of {name}"), Some(m.code_id), self.model.code.get(&name).copied());
                // an attestation cannot be changed by anyone
                let want = if p.starts_with("att") { None } else { Some(n.clone()) };
                c.eq(&["U01", "F01", "A01"], &format!("migration admin of {name}"), m.admin.map(|a| self.names.n(&a)), want);
            } else {
                c.fail(&["F01"], format!("{name} does not exist"));
            }
        }
    }
    fn cmp_gov(&self, k: usize, c: &mut Cmp) {
        let d = &self.model.daos[k];
        match self.qn(&format!("d{k}.ctl"), json!({"gov_config": {}})) {
            Err(x) => c.fail(&["P01"], format!("gov config: {x}")),
            Ok(v) => {
                let g = &v["gov_config"];
                let real = (
                    undec(&g["quorum"]),
                    undec(&g["threshold"]),
                    undec(&g["veto_threshold"]),
                    g["vote_duration"].as_u64(),
                    num(&g["minimum_deposit"]),
                    g["allow_early_proposal_execution"].as_bool(),
                );
                let w = &d.gov;
                let want = (Some(w.quorum), Some(w.threshold), w.veto, Some(w.duration), w.min_deposit, Some(w.early));
                c.eq(&["P01"], "governance configuration", real, want);
                let cc = &v["council_gov_config"];
                let real = if cc.is_null() {
                    None
                } else {
                    let mut t: Vec<String> = cc["allowed_proposal_action_types"]
                        .as_array()
                        .map(|v| v.iter().filter_map(|x| x.as_str().map(String::from)).collect())
                        .unwrap_or_default();
                    t.sort();
                    Some((undec(&cc["quorum"]), undec(&cc["threshold"]), t))
                };
                let want = d.council.as_ref().map(|x| {
                    let mut t = x.types.clone();
                    t.sort();
                    (Some(x.quorum), Some(x.threshold), t)
                });
                c.eq(&["C01", "P01"], "council configuration", real, want);
            }
        }
    }
    fn cmp_props(&self, k: usize, c: &mut Cmp, look: &Look) {
        let d = &self.model.daos[k];
        let ctl = format!("d{k}.ctl");
        for (id, p) in &d.props {
            let only_status = match look {
                Look::Deep => false,
                // the passing of time changes nothing but the end of a vote
                Look::Time(t) => {
                    if p.executed.is_some() || p.ends > self.model.now || p.ends < *t {
                        continue;
                    }
                    true
                }
                // settled proposals do not change any more; the deep comparison looks at them again
                Look::Tx(b) => {
                    if b.and_then(|b| b.get(id)) != Some(p) {
                        false
                    } else if p.executed.is_some() || p.ends <= self.model.now {
                        continue;
                    } else {
                        true
                    }
                }
            };
            let v = match self.qn(&ctl, json!({"proposal": {"proposal_id": id}})) {
                Ok(v) => v,
                Err(x) => {
                    c.fail(&["G07", "G04"], format!("proposal {id}: {x}"));
                    continue;
                }
            };
            let mut ctags: Vec<&'static str> = vec![];
            if p.council {
                ctags.push("C01");
            }
            let with = |a: &[&'static str]| -> Vec<&'static str> { a.iter().copied().chain(ctags.iter().copied()).collect() };
            let mut tally = [0u128; 4];
            for r in v["results"].as_array().unwrap_or(&vec![]) {
                if let (Some(o), Some(x)) = (r[0].as_u64(), num(&r[1])) {
                    if (o as usize) < 4 {
                        tally[o as usize] = x;
                    }
                }
            }
            c.eq(&with(&["G01"]), &format!("tally of proposal {id}"), tally, p.tally());
            let st = v["proposal_status"].as_str().map(String::from);
            let want = self.status(k, p);
            let mut stags = vec!["G02"];
            if p.executed.is_some() {
                stags = vec!["G02", "G04"];
            } else if p.earliest.is_some() && p.ends > self.model.now {
                stags = vec!["G02", "G05"];
            }
            c.eq(&with(&stags), &format!("status of proposal {id}"), st, Some(want.to_string()));
            let w = if p.council { &d.cmem } else { &d.mem.wt };
            let total = match p.executed {
                Some((t, _)) => w.at_time(p.ends.min(t)),
                None if p.ends <= self.model.now => w.at_time(p.ends),
                None => w.total,
            };
            c.eq(&with(&["G02", "M01"]), &format!("votes available to proposal {id}"), num(&v["total_votes_available"]), Some(total));
            let pp = &v["proposal"];
            c.eq(&with(&["G03"]), &format!("end of proposal {id}"), num(&pp["expires"]["at_time"]), Some(p.ends as u128));
            if only_status {
                continue;
            }
            c.eq(&with(&["G07"]), &format!("proposer of {id}"), pp["proposer"].as_str().map(|a| self.names.n(a)), Some(p.proposer.clone()));
            c.eq(&["C01", "G07"], &format!("type of {id}"), pp["proposal_type"].as_str(), Some(if p.council { "council" } else { "general" }));
            c.eq(&with(&["G07"]), &format!("start of {id}"), num(&pp["started_at"]), Some(p.created as u128));
            c.eq(&with(&["G07", "G04"]), &format!("actions of {id}"), pp["proposal_actions"].as_array().map(|a| a.len()), Some(p.actions.len()));
            let want = Value::Array(p.actions.iter().map(|a| norm(&self.names.pa(a))).collect());
            c.eq(&with(&["G07", "G04", "V01"]), &format!("what {id} proposes"), norm(&pp["proposal_actions"]), want);
            let title = Names::title(&p.actions);
            c.eq(&with(&["G07", "V01"]), &format!("title of {id}"), pp["title"].as_str(), Some(&*title));
            c.eq(&with(&["G07", "V01"]), &format!("text of {id}"), pp["description"].as_str(), Some(&*format!("about {title}")));
            let mut got: BTreeMap<N, (u8, Amt)> = BTreeMap::new();
            let mut after: Option<String> = None;
            for _ in 0..40 {
                let r = match self.qn(&ctl, json!({"proposal_votes": {"proposal_id": id, "start_after": after, "limit": 5}})) {
                    Ok(r) => r,
                    Err(x) => {
                        c.fail(&["G01", "Q01"], format!("votes of {id}: {x}"));
                        break;
                    }
                };
                let page = r["votes"].as_array().cloned().unwrap_or_default();
                if page.is_empty() {
                    break;
                }
                for x in &page {
                    let a = x["voter"].as_str().unwrap_or("").to_string();
                    got.insert(self.names.n(&a), (x["outcome"].as_u64().unwrap_or(9) as u8, num(&x["amount"]).unwrap_or(0)));
                    after = Some(a);
                }
            }
            c.eq(&with(&["G01", "M02"]), &format!("votes of proposal {id}"), got, p.votes.clone());
        }
        if matches!(look, Look::Time(_)) {
            return;
        }
        // nothing beyond what was proposed
        let next = d.props.len() as u64 + 1;
        let r = self.qn(&ctl, json!({"proposal": {"proposal_id": next}}));
        c.eq(&["G07"], "proposals nobody made", r.is_ok(), false);
    }
}

/// How closely to look at the proposals.
enum Look<'a> {
    Deep,
    Time(u64),
    Tx(Option<&'a BTreeMap<u64, Prop>>),
}

pub fn why_str(w: &Why) -> String {
    format!("{:?} {}", w.tags, w.what)
}
