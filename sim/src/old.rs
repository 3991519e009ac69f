//! DAOs from before the rewrite: a stand-in for such a contract, what the facade has to say about
//! it, and transactions drafted for it by the facade.
use crate::chain::{CallResult, FaultPlan};
use crate::model::{Fin, SEC};
use crate::types::*;
use crate::views::norm;
use crate::world::{Cmp, Mis, StepOut, World};
use cosmwasm_std::{from_json, to_json_binary, Binary, Decimal, Deps, DepsMut, Env, MessageInfo, Response};
use cw_storage_plus::Item;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OldCfg {
    pub kind: Kind,
    pub gov: Gov,
    pub unlock: Dur,
    pub council: Option<Council>,
    pub version: u64,
    pub meta: Vec<Option<String>>,
    pub members: Vec<(N, u64)>,
    pub assets: Vec<Asset>,
    pub nfts: Vec<N>,
}

/// State of the stand-in; the model keeps a second copy and applies to it what was asked for.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct OldDao {
    pub info: Value,
    pub kind: String,
    pub contract: String,
    pub council: Option<Vec<String>>,
    pub min: u64,
    pub duration: u64,
    pub unlock: Option<Dur>,
    pub w: BTreeMap<String, u64>,
    pub nfts: BTreeMap<String, String>,
    pub claims: BTreeMap<String, Vec<OldClaim>>,
    pub props: Vec<OldProp>,
    pub assets: Vec<Value>,
    pub nft_wl: Vec<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OldClaim {
    pub asset: Value,
    pub rel: Rel,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OldProp {
    pub council: bool,
    pub proposer: String,
    pub title: String,
    pub description: String,
    pub actions: Vec<Value>,
    pub status: String,
    pub started: u64,
    pub ends: u64,
    pub votes: BTreeMap<String, (u8, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum OldOp {
    Propose { council: bool, title: String, description: String, actions: Vec<Value>, deposit: u64 },
    Vote { council: bool, id: u64, o: u8 },
    Execute { id: u64 },
    Stake { amount: u64 },
    StakeNft { id: String },
    Unstake { amount: u64 },
    UnstakeNft { ids: Vec<String> },
    Claim,
}

impl OldDao {
    pub fn new(c: &OldCfg, names: &Names, now: u64) -> OldDao {
        let contract = match c.kind {
            Kind::Token => names.a("tok0"),
            Kind::Nft => names.a("nft0"),
            _ => names.a("cw3a"),
        };
        let kind = match c.kind {
            Kind::Token => "token",
            Kind::Nft => "nft",
            _ => "multisig",
        };
        let mut gov = names.gov(&c.gov);
        gov["unlocking_period"] = dur(c.unlock);
        let mut council = names.council(&c.council);
        if !council.is_null() && council["allowed_proposal_action_types"].is_null() {
            council["allowed_proposal_action_types"] = json!(["upgrade_dao"]);
        }
        OldDao {
            info: json!({
                "creation_date": (now - 1000).to_string(),
                "metadata": {"name": "old", "description": c.meta[0], "logo": logo(&c.meta[1]), "socials": {
                    "github_username": c.meta[2], "discord_username": c.meta[3], "twitter_username": c.meta[4], "telegram_username": c.meta[5]}},
                "gov_config": gov, "dao_council": council, "dao_type": kind,
                "dao_membership_contract": contract, "enterprise_factory_contract": names.a("fac2"),
                "funds_distributor_contract": names.a("ext"), "dao_code_version": c.version.to_string(),
            }),
            kind: kind.into(),
            contract,
            council: c.council.as_ref().map(|c| c.members.iter().map(|m| names.a(m)).collect()),
            min: c.gov.min_deposit.unwrap_or(0) as u64,
            duration: c.gov.duration,
            unlock: Some(c.unlock),
            w: if c.kind == Kind::Multisig { c.members.iter().map(|(n, x)| (names.a(n), *x)).collect() } else { BTreeMap::new() },
            assets: c.assets.iter().map(|a| names.asset_v(a)).collect(),
            nft_wl: c.nfts.iter().map(|n| names.a(n)).collect(),
            ..Default::default()
        }
    }
    fn total(&self) -> u64 {
        self.w.values().sum()
    }
    fn votes_of(&self, council: bool) -> u64 {
        if council {
            self.council.as_ref().map(|c| c.len() as u64).unwrap_or(0)
        } else {
            self.total()
        }
    }
    pub fn apply(&mut self, s: &str, op: &OldOp, now: u64, height: u64) -> Result<(), String> {
        let staking = |k: &str| if self.kind == k { Ok(()) } else { Err("DAO of another kind".to_string()) };
        match op {
            OldOp::Propose { council, title, description, actions, deposit } => {
                if *council {
                    if !self.council.as_ref().map(|c| c.iter().any(|x| x == s)).unwrap_or(false) {
                        return Err("not in the council".into());
                    }
                } else if *deposit < self.min {
                    return Err("no deposit".into());
                }
                self.props.push(OldProp {
                    council: *council,
                    proposer: s.into(),
                    title: title.clone(),
                    description: description.clone(),
                    actions: actions.clone(),
                    status: "in_progress".into(),
                    started: now,
                    ends: now + self.duration * SEC,
                    votes: BTreeMap::new(),
                });
            }
            OldOp::Vote { council, id, o } => {
                let w = if *council {
                    self.council.as_ref().map(|c| c.iter().any(|x| x == s) as u64).unwrap_or(0)
                } else {
                    self.w.get(s).copied().unwrap_or(0)
                };
                let p = self.props.get_mut((*id as usize).wrapping_sub(1)).ok_or("no such proposal")?;
                if p.council != *council || p.status != "in_progress" || now >= p.ends || w == 0 {
                    return Err("no vote".into());
                }
                p.votes.insert(s.into(), (*o, w));
            }
            OldOp::Execute { id } => {
                let p = self.props.get_mut((*id as usize).wrapping_sub(1)).ok_or("no such proposal")?;
                if p.status != "in_progress" || now < p.ends {
                    return Err("not yet".into());
                }
                let n = |o: u8| p.votes.values().filter(|v| v.0 == o).map(|v| v.1).sum::<u64>();
                p.status = match n(0).cmp(&n(1)) {
                    std::cmp::Ordering::Greater => "executed",
                    std::cmp::Ordering::Equal => "passed",
                    _ => "rejected",
                }
                .into();
            }
            OldOp::Stake { amount } => {
                staking("token")?;
                *self.w.entry(s.into()).or_insert(0) += amount;
            }
            OldOp::StakeNft { id } => {
                staking("nft")?;
                self.nfts.insert(id.clone(), s.into());
                *self.w.entry(s.into()).or_insert(0) += 1;
            }
            OldOp::Unstake { amount } => {
                staking("token")?;
                let w = self.w.get_mut(s).filter(|w| **w >= *amount).ok_or("not that much")?;
                *w -= amount;
                self.claim(s, json!({"cw20": {"amount": amount.to_string()}}), now, height);
            }
            OldOp::UnstakeNft { ids } => {
                staking("nft")?;
                for id in ids {
                    if self.nfts.get(id).map(|x| x.as_str()) != Some(s) {
                        return Err("not staked".into());
                    }
                    self.nfts.remove(id);
                    *self.w.get_mut(s).ok_or("?")? -= 1;
                }
                self.claim(s, json!({"cw721": {"tokens": ids}}), now, height);
            }
            OldOp::Claim => {
                let l = self.claims.get_mut(s).ok_or("no claims")?;
                let n = l.len();
                l.retain(|c| !ripe(&c.rel, now, height));
                if l.len() == n {
                    return Err("nothing to claim".into());
                }
            }
        }
        Ok(())
    }
    fn claim(&mut self, s: &str, asset: Value, now: u64, height: u64) {
        let rel = match self.unlock.unwrap_or(Dur::Time(0)) {
            Dur::Time(t) => Rel::Time(now + t * SEC),
            Dur::Height(h) => Rel::Height(height + h),
        };
        self.claims.entry(s.into()).or_default().push(OldClaim { asset, rel });
    }
    fn tally(p: &OldProp) -> BTreeMap<u8, u64> {
        let mut t = BTreeMap::new();
        for (o, x) in p.votes.values() {
            *t.entry(*o).or_insert(0) += x;
        }
        t
    }
    fn prop(&self, i: usize) -> Value {
        let p = &self.props[i];
        json!({
            "proposal": {
                "proposal_type": if p.council { "council" } else { "general" }, "id": i as u64 + 1, "proposer": p.proposer,
                "title": p.title, "description": p.description, "status": p.status, "started_at": p.started.to_string(),
                "expires": {"at_time": p.ends.to_string()}, "proposal_actions": p.actions,
            },
            "proposal_status": p.status,
            "results": OldDao::tally(p).iter().map(|(o, x)| json!([o, x.to_string()])).collect::<Vec<_>>(),
            "total_votes_available": self.votes_of(p.council).to_string(),
        })
    }
    /// What became of a proposal whose vote is over, or would if it were now.
    fn outcome(&self, p: &OldProp, gov: &Gov) -> Fin {
        let q = crate::model::Prop {
            council: p.council,
            proposer: String::new(),
            actions: vec![],
            created: p.started,
            ends: p.ends,
            quorum: gov.quorum,
            threshold: gov.threshold,
            veto: gov.veto,
            deposit: None,
            votes: p.votes.iter().map(|(u, v)| (u.clone(), (v.0, v.1 as Amt))).collect(),
            earliest: None,
            executed: None,
            fin: None,
            actions_ok: false,
            tainted: false,
        };
        q.outcome(self.votes_of(p.council) as Amt)
    }
    /// The answers a facade may give for the status of a proposal.
    pub fn status(&self, i: usize, gov: &Gov, now: u64) -> Vec<&'static str> {
        let p = &self.props[i];
        match p.status.as_str() {
            "executed" => return vec!["executed"],
            "passed" => return vec!["passed"],
            "rejected" => return vec!["rejected"],
            _ => {}
        }
        let o = self.outcome(p, gov);
        if now >= p.ends {
            return vec![if o == Fin::Passed { "passed" } else { "rejected" }];
        }
        let early = "in_progress_can_execute_early";
        if !(p.council || gov.early) {
            return vec!["in_progress"];
        }
        match o {
            Fin::Passed | Fin::Rejecting | Fin::Vetoed => vec![early],
            // a tie may still be broken, or ended as it is
            Fin::Draw => vec![early, "in_progress"],
            _ => vec!["in_progress"],
        }
    }
}
fn ripe(r: &Rel, now: u64, height: u64) -> bool {
    match r {
        Rel::Time(t) => *t <= now,
        Rel::Height(h) => *h <= height,
    }
}

// ------------------------------------------------------------ the stand-in
const STATE: Item<String> = Item::new("old");
#[derive(Deserialize)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
enum OldExec {
    CreateProposal(OldCreate),
    CreateCouncilProposal(OldCreate),
    CastVote(OldVote),
    CastCouncilVote(OldVote),
    ExecuteProposal(OldId),
    Unstake(OldUnstake),
    Claim {},
    Receive(OldReceive),
    ReceiveNft(OldReceiveNft),
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct OldCreate {
    title: String,
    description: Option<String>,
    proposal_actions: Vec<Value>,
}
#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
enum OldHook {
    Stake {},
    CreateProposal(OldCreate),
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct OldVote {
    proposal_id: u64,
    outcome: String,
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
struct OldId {
    proposal_id: u64,
}
#[derive(Deserialize)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
enum OldUnstake {
    Cw20 { amount: String },
    Cw721 { tokens: Vec<String> },
}
#[derive(Deserialize)]
struct OldReceive {
    sender: String,
    amount: String,
    msg: String,
}
#[derive(Deserialize)]
struct OldReceiveNft {
    sender: String,
    token_id: String,
    msg: String,
}

fn e(x: impl ToString) -> String {
    x.to_string()
}
fn load(s: &dyn cosmwasm_std::Storage) -> Result<OldDao, String> {
    serde_json::from_str(&STATE.load(s).map_err(e)?).map_err(e)
}
pub fn old_inst(d: DepsMut, _: Env, _: MessageInfo, m: &[u8]) -> CallResult {
    STATE.save(d.storage, &String::from_utf8(m.to_vec()).map_err(e)?).map_err(e)?;
    Ok(Response::new())
}
fn create(c: OldCreate, council: bool, deposit: u64) -> Result<OldOp, String> {
    for a in &c.proposal_actions {
        let known = [
            "update_metadata", "update_gov_config", "update_council", "update_asset_whitelist", "update_nft_whitelist", "request_funding_from_dao",
            "upgrade_dao", "execute_msgs", "modify_multisig_membership", "distribute_funds", "update_minimum_weight_for_rewards",
        ];
        let o = a.as_object().ok_or("no action")?;
        let (k, b) = o.iter().next().ok_or("no action")?;
        if o.len() != 1 || !known.contains(&k.as_str()) || b.get("remote_treasury_target").is_some() {
            return Err("unknown action".into());
        }
    }
    Ok(OldOp::Propose { council, title: c.title, description: c.description.unwrap_or_default(), actions: c.proposal_actions, deposit })
}
fn hook<T: for<'a> Deserialize<'a>>(m: &str) -> Result<T, String> {
    serde_json::from_slice(Binary::from_base64(m).map_err(e)?.as_slice()).map_err(e)
}
pub fn old_exec(d: DepsMut, env: Env, i: MessageInfo, m: &[u8]) -> CallResult {
    let m: OldExec = serde_json::from_slice(m).map_err(e)?;
    let mut st = load(d.storage)?;
    let out = |o: &str| OUTCOMES.iter().position(|x| *x == o).map(|x| x as u8).ok_or("no such outcome".to_string());
    let mut who = i.sender.to_string();
    let op = match m {
        OldExec::CreateProposal(c) => create(c, false, 0)?,
        OldExec::CreateCouncilProposal(c) => create(c, true, 0)?,
        OldExec::CastVote(v) => OldOp::Vote { council: false, id: v.proposal_id, o: out(&v.outcome)? },
        OldExec::CastCouncilVote(v) => OldOp::Vote { council: true, id: v.proposal_id, o: out(&v.outcome)? },
        OldExec::ExecuteProposal(x) => OldOp::Execute { id: x.proposal_id },
        OldExec::Unstake(OldUnstake::Cw20 { amount }) => OldOp::Unstake { amount: amount.parse().map_err(e)? },
        OldExec::Unstake(OldUnstake::Cw721 { tokens }) => OldOp::UnstakeNft { ids: tokens },
        OldExec::Claim {} => OldOp::Claim,
        OldExec::Receive(r) => {
            if who != st.contract || st.kind != "token" {
                return Err("not our token".into());
            }
            who = r.sender;
            let amount = r.amount.parse().map_err(e)?;
            match hook(&r.msg)? {
                OldHook::Stake {} => OldOp::Stake { amount },
                OldHook::CreateProposal(c) => create(c, false, amount)?,
            }
        }
        OldExec::ReceiveNft(r) => {
            if who != st.contract || st.kind != "nft" {
                return Err("not our NFT".into());
            }
            who = r.sender;
            match hook(&r.msg)? {
                OldHook::Stake {} => OldOp::StakeNft { id: r.token_id },
                _ => return Err("no such thing with an NFT".into()),
            }
        }
    };
    if !i.funds.is_empty() {
        return Err("no funds expected".into());
    }
    st.apply(&who, &op, env.block.time.nanos(), env.block.height)?;
    STATE.save(d.storage, &serde_json::to_string(&st).map_err(e)?).map_err(e)?;
    Ok(Response::new())
}
pub fn old_query(d: Deps, env: Env, m: &[u8]) -> Result<Binary, String> {
    let st = load(d.storage)?;
    let q: Value = from_json(m).map_err(e)?;
    let (k, p) = q.as_object().and_then(|o| o.iter().next()).ok_or("no query")?;
    let has = |keys: &[&str]| -> Result<(), String> {
        let o = p.as_object().ok_or("no parameters")?;
        if o.keys().all(|k| keys.contains(&k.as_str())) {
            Ok(())
        } else {
            Err(format!("unknown parameter in {p}"))
        }
    };
    let s = |k: &str| p[k].as_str().map(String::from).ok_or(format!("no {k}"));
    let lim = p["limit"].as_u64().unwrap_or(10).min(30) as usize;
    let after = p["start_after"].as_str().map(String::from);
    let beyond = |x: &String| after.as_ref().map(|a| x > a).unwrap_or(true);
    let page = ["start_after", "limit"];
    let vote = |i: u64, u: &String, v: &(u8, u64)| json!({"poll_id": i, "voter": u, "outcome": v.0, "amount": v.1.to_string()});
    let (now, height) = (env.block.time.nanos(), env.block.height);
    let id = p["proposal_id"].as_u64().unwrap_or(0);
    let pr = st.props.get((id as usize).wrapping_sub(1));
    let r = match k.as_str() {
        "dao_info" => st.info.clone(),
        "member_info" => {
            has(&["member_address"])?;
            let w = st.w.get(&s("member_address")?).copied().unwrap_or(0);
            let t = st.total();
            json!({"voting_power": if t == 0 { Decimal::zero() } else { Decimal::from_ratio(w, t) }.to_string()})
        }
        "list_multisig_members" => {
            has(&page)?;
            if st.kind != "multisig" {
                return Err("no multisig".into());
            }
            json!({"members": st.w.iter().filter(|x| beyond(x.0)).take(lim).map(|(u, w)| json!({"address": u, "weight": w.to_string()})).collect::<Vec<_>>()})
        }
        "asset_whitelist" => {
            has(&page)?;
            let i = st.assets.iter().position(|a| *a == p["start_after"]).map(|i| i + 1).unwrap_or(0);
            json!({"assets": st.assets[i..].iter().take(lim).collect::<Vec<_>>()})
        }
        "nft_whitelist" => {
            has(&page)?;
            let i = st.nft_wl.iter().position(|a| p["start_after"] == json!(a)).map(|i| i + 1).unwrap_or(0);
            json!({"nfts": st.nft_wl[i..].iter().take(lim).collect::<Vec<_>>()})
        }
        "proposal" => {
            has(&["proposal_id"])?;
            pr.ok_or("no such proposal")?;
            st.prop(id as usize - 1)
        }
        "proposals" => {
            has(&["filter", "start_after", "limit"])?;
            let a = p["start_after"].as_u64().unwrap_or(0) as usize;
            let want = |i: &usize| match p["filter"].as_str() {
                None => true,
                Some("passed") => matches!(st.props[*i].status.as_str(), "passed" | "executed"),
                Some(f) => st.props[*i].status == f,
            };
            json!({"proposals": (a..st.props.len()).filter(want).take(lim).map(|i| st.prop(i)).collect::<Vec<_>>()})
        }
        "member_vote" => {
            has(&["member", "proposal_id"])?;
            let u = s("member")?;
            json!({"vote": pr.and_then(|p| p.votes.get(&u)).map(|v| vote(id, &u, v))})
        }
        "proposal_votes" => {
            has(&["proposal_id", "start_after", "limit"])?;
            let p = pr.ok_or("no such proposal")?;
            json!({"votes": p.votes.iter().filter(|x| beyond(x.0)).take(lim).map(|(u, v)| vote(id, u, v)).collect::<Vec<_>>()})
        }
        "user_stake" => {
            has(&["user"])?;
            let u = s("user")?;
            let w = st.w.get(&u).copied().unwrap_or(0).to_string();
            json!({"user_stake": match st.kind.as_str() {
                "token" => json!({"token": {"amount": w}}),
                "nft" => json!({"nft": {"amount": w, "tokens": st.nfts.iter().filter(|x| *x.1 == u).map(|x| x.0).collect::<Vec<_>>()}}),
                _ => json!("none"),
            }})
        }
        "total_staked_amount" => json!({"total_staked_amount": if st.kind == "multisig" { 0 } else { st.total() }.to_string()}),
        "staked_nfts" => {
            has(&page)?;
            json!({"nfts": st.nfts.keys().filter(|x| beyond(x)).take(lim).collect::<Vec<_>>()})
        }
        "claims" | "releasable_claims" => {
            has(&["owner"])?;
            let l = st.claims.get(&s("owner")?).cloned().unwrap_or_default();
            json!({"claims": l.iter().filter(|c| k == "claims" || ripe(&c.rel, now, height)).map(|c| json!({"asset": c.asset, "release_at": rel(c.rel)})).collect::<Vec<_>>()})
        }
        // for the harness
        "state" => serde_json::to_value(&st).map_err(e)?,
        _ => return Err("unknown question".into()),
    };
    to_json_binary(&r).map_err(e)
}

// ------------------------------------------------------------ what is expected
impl World {
    /// An action in the words of the old contract.
    fn v1_action(&self, p: &PA) -> Result<Value, &'static str> {
        let v = self.names.pa(p);
        let (k, b) = v.as_object().and_then(|o| o.iter().next()).ok_or("no action")?;
        let mut b = b.clone();
        let far = !b["remote_treasury_target"].is_null();
        Ok(match k.as_str() {
            "deploy_cross_chain_treasury" => return Err("no treasuries on other chains"),
            "update_asset_whitelist" | "update_nft_whitelist" | "request_funding_from_dao" | "execute_treasury_msgs" if far => return Err("no treasuries on other chains"),
            "update_asset_whitelist" | "update_nft_whitelist" | "request_funding_from_dao" => {
                b.as_object_mut().map(|o| o.remove("remote_treasury_target"));
                json!({k: b})
            }
            "execute_treasury_msgs" | "execute_enterprise_msgs" => json!({"execute_msgs": {"action_type": b["action_type"], "msgs": b["msgs"]}}),
            "modify_multisig_membership" => {
                let l = b["edit_members"].as_array().cloned().unwrap_or_default();
                json!({k: {"edit_members": l.iter().map(|x| json!({"address": x["user"], "weight": x["weight"]})).collect::<Vec<_>>()}})
            }
            "upgrade_dao" => {
                let PA::Upgrade { to, .. } = p else { return Err("?") };
                let (v, base, msg) = if *to >= (1, 0, 0) {
                    ((1, 0, 0), crate::codes::TREASURY, json!({"initial_submsgs_limit": null}))
                } else {
                    (*to, crate::codes::ENTERPRISE, json!({}))
                };
                let r = self.model.releases.get(&v).ok_or("no such release")?;
                json!({k: {"new_dao_code_id": r.code(base), "migrate_msg": b64(&msg)}})
            }
            _ => json!({k: b}),
        })
    }
    fn old_ops(&self, v: &Via) -> Result<Vec<OldOp>, &'static str> {
        let st = self.model.old.as_ref().ok_or("no old DAO")?;
        let only = |k: &str| if st.kind == k { Ok(()) } else { Err("the DAO is of another type") };
        let create = |actions: &[PA], council: bool, deposit: Amt| -> Result<Vec<OldOp>, &'static str> {
            let title = Names::title(actions);
            let actions = actions.iter().map(|a| self.v1_action(a)).collect::<Result<Vec<_>, _>>()?;
            Ok(vec![OldOp::Propose { council, description: format!("about {title}"), title, actions, deposit: deposit as u64 }])
        };
        Ok(match v {
            Via::Propose { actions, .. } => create(actions, false, 0)?,
            Via::CouncilPropose { actions } => create(actions, true, 0)?,
            Via::ProposeToken { actions, amount, .. } => {
                only("token")?;
                create(actions, false, *amount)?
            }
            Via::ProposeDenom { .. } | Via::StakeDenom { .. } | Via::UnstakeDenom { .. } | Via::ProposeNft { .. } => return Err("unknown to old DAOs"),
            Via::Vote { id, o } => vec![OldOp::Vote { council: false, id: *id, o: *o }],
            Via::CouncilVote { id, o } => vec![OldOp::Vote { council: true, id: *id, o: *o }],
            Via::Execute { id } => vec![OldOp::Execute { id: *id }],
            Via::StakeCw20 { amount, .. } => {
                only("token")?;
                vec![OldOp::Stake { amount: *amount as u64 }]
            }
            Via::StakeNft { ids, .. } => {
                only("nft")?;
                ids.iter().map(|id| OldOp::StakeNft { id: id.clone() }).collect()
            }
            Via::UnstakeCw20 { amount } => vec![OldOp::Unstake { amount: *amount as u64 }],
            Via::UnstakeNft { ids } => vec![OldOp::UnstakeNft { ids: ids.clone() }],
            Via::Claim => vec![OldOp::Claim],
        })
    }
    /// The state after the request, with what changes hands.
    fn old_next(&self, s: &str, v: &Via) -> Result<(OldDao, Vec<(N, Amt)>, Vec<String>), String> {
        let mut st = self.model.old.clone().ok_or("no old DAO")?;
        let (mut toks, mut nfts) = (vec![], vec![]);
        let me = self.names.a(s);
        for op in self.old_ops(v)? {
            match &op {
                OldOp::Stake { amount } | OldOp::Propose { deposit: amount, .. } if *amount > 0 => toks.push(("tok0".to_string(), *amount as Amt)),
                OldOp::StakeNft { id } => {
                    // whoever the owner allowed to move the token may stake it, too
                    let x = &self.model.nft["nft0"];
                    let may = x.owner.get(id).map_or(false, |o| {
                        o == s || x.approved.get(id).map_or(false, |a| a.contains(s)) || x.ops.contains(&(o.clone(), s.to_string()))
                    });
                    if !may || nfts.contains(id) {
                        return Err("neither the owner nor allowed by the owner".into());
                    }
                    nfts.push(id.clone());
                }
                _ => {}
            }
            st.apply(&me, &op, self.model.now, self.model.height)?;
        }
        let need: Amt = toks.iter().map(|x| x.1).sum();
        if need > self.model.tok["tok0"].get(s).copied().unwrap_or(0) {
            return Err("not that many tokens".into());
        }
        Ok((st, toks, nfts))
    }

    pub fn old_via(&mut self, s: &str, v: &Via, abort: Option<u32>, fail: Option<u32>) -> StepOut {
        let mut out = StepOut::default();
        if self.model.old.is_none() || !self.names_in(v) {
            out.skipped = true;
            return out;
        }
        self.model.start();
        let want = self.old_next(s, v);
        let bad = |what: String| Mis { tags: ["V02"].into(), what };
        let draft = self.qn("facade", self.names.via(&self.names.a("old"), v));
        let msgs = draft.as_ref().ok().and_then(|v| self.drafted(v));
        out.why = want.as_ref().err().cloned();
        out.why_tags = if want.is_err() { vec!["V02"] } else { vec![] };
        let Some(msgs) = msgs else {
            if want.is_ok() {
                out.mis.push(bad(format!("the facade drafts nothing ({}) for {v:?} of an old DAO", draft.err().unwrap_or_default())));
            }
            return out;
        };
        let real = self.chain.tx(&self.names.a(s), msgs, FaultPlan { abort_at: abort, fail_at: fail });
        out.fired = real.fired.clone();
        out.dispatches = real.dispatches;
        out.ok = real.ok();
        out.err = real.err();
        if real.ok() {
            match want {
                Err(w) => {
                    out.mis.push(bad(format!("the facade drafts what has to be refused ({w}): {v:?} of an old DAO")));
                    return out;
                }
                Ok((st, toks, nfts)) => {
                    self.model.old = Some(st);
                    for (t, x) in toks {
                        let b = self.model.tok.get_mut(&t).unwrap();
                        *b.entry(s.into()).or_insert(0) -= x;
                        *b.entry("old".into()).or_insert(0) += x;
                    }
                    let n = self.model.nft.get_mut("nft0").unwrap();
                    for id in nfts {
                        n.approved.remove(&id);
                        n.owner.insert(id, "old".into());
                    }
                    let n = serde_json::to_value(v).ok().and_then(|x| x.as_object().and_then(|o| o.keys().next().cloned()).or(x.as_str().map(String::from)));
                    self.model.e("V02", format!("drafted {}", n.unwrap_or_default()));
                }
            }
        } else if want.is_ok() && real.fired.is_empty() {
            out.mis.push(bad(format!("refused ({}) although it is legitimate: drafted {v:?} of an old DAO", real.err())));
            return out;
        }
        let mut mis = vec![];
        let mut c = Cmp { mis: &mut mis, n: 0, ev: vec![] };
        self.cmp_old(&mut c, false);
        self.cmp_bank(&mut c);
        self.cmp_tok("tok0", &mut c);
        self.cmp_nft("nft0", &mut c);
        self.checks += c.n;
        for x in &mut mis {
            x.tags.insert("V02");
            x.what = format!("{} | after {v:?} of an old DAO", x.what);
        }
        out.mis.extend(mis);
        out
    }

    fn old_action_now(v: &Value) -> Value {
        let Some((k, b)) = v.as_object().and_then(|o| o.iter().next()) else { return v.clone() };
        match k.as_str() {
            "modify_multisig_membership" => {
                let l = b["edit_members"].as_array().cloned().unwrap_or_default();
                json!({k: {"edit_members": l.iter().map(|x| json!({"user": x["address"], "weight": x["weight"]})).collect::<Vec<_>>()}})
            }
            "upgrade_dao" => {
                let ver = json!({"major": 0, "minor": b["new_dao_code_id"], "patch": 0});
                json!({k: {"new_version": ver, "migrate_msgs": [{"version": ver, "migrate_msg": b["migrate_msg"]}]}})
            }
            _ => v.clone(),
        }
    }

    /// Compares what the facade says of the old DAO with what it is.
    pub fn cmp_old(&self, c: &mut Cmp, all: bool) {
        let Some(st) = &self.model.old else { return };
        let Some(cfg) = &self.cfg.old else { return };
        let t = &["V02"];
        let real = self.qn("old", json!({"state": {}})).ok().and_then(|v| serde_json::from_value::<OldDao>(v).ok());
        c.n += 1;
        // as values: texts may be written in more than one way
        let flat = |o: &OldDao| norm(&serde_json::to_value(o).unwrap());
        if real.as_ref().map(flat) != Some(flat(st)) {
            c.fail(t, format!("old DAO: {real:?}, expected {st:?}"));
        }
        let a = self.names.a("old");
        let ask = |q: &str, p: &Value| {
            let mut m = json!({q: {"contract": a}});
            if let Some(o) = p.as_object() {
                for (k, v) in o {
                    m[q][k] = v.clone();
                }
            }
            self.qn("facade", m)
        };
        let want_prop = |i: usize| {
            let mut v = st.prop(i);
            let l: Vec<Value> = st.props[i].actions.iter().map(World::old_action_now).collect();
            v["proposal"]["proposal_actions"] = json!(l);
            v
        };
        // the status must be one of those that fit, and the same in both places
        let same = |got: &Value, i: usize| {
            let s = got["proposal_status"].as_str().unwrap_or("").to_string();
            let mut want = want_prop(i);
            want["proposal_status"] = json!(s);
            want["proposal"]["status"] = json!(s);
            st.status(i, &cfg.gov, self.model.now).contains(&s.as_str()) && norm(got) == norm(&want)
        };
        let n = st.props.len();
        let from = if all { 0 } else { n.saturating_sub(4) };
        for i in from..n {
            let id = i as u64 + 1;
            c.n += 2;
            let ok = st.status(i, &cfg.gov, self.model.now);
            match ask("proposal", &json!({"params": {"proposal_id": id}})) {
                Ok(v) if same(&v, i) => c.ev.push(("V02", format!("proposal {}", v["proposal_status"].as_str().unwrap_or("")))),
                r => c.fail(t, format!("facade on proposal {id} of an old DAO: {r:?}, expected {ok:?} {}", want_prop(i))),
            }
            match ask("proposal_status", &json!({"params": {"proposal_id": id}})) {
                Ok(v)
                    if ok.contains(&v["status"].as_str().unwrap_or(""))
                        && v["expires"] == json!({"at_time": st.props[i].ends.to_string()})
                        && norm(&v["results"]) == norm(&st.prop(i)["results"]) => {}
                r => c.fail(t, format!("facade on the status of proposal {id} of an old DAO: {r:?}, expected {ok:?}")),
            }
        }
        if !all {
            return;
        }
        for (f, after, lim) in [(None, None, None), (Some("in_progress"), Some(1u64), Some(3u64)), (Some("passed"), None, Some(2)), (Some("rejected"), None, None)] {
            let p = json!({"filter": f, "start_after": after, "limit": lim});
            let ids: Vec<usize> = self
                .qn("old", json!({"proposals": p}))
                .ok()
                .and_then(|v| v["proposals"].as_array().map(|a| a.iter().map(|x| x["proposal"]["id"].as_u64().unwrap_or(1) as usize - 1).collect()))
                .unwrap_or_default();
            c.n += 1;
            match ask("proposals", &json!({"params": p})) {
                Ok(v) if v["proposals"].as_array().map(|l| l.len() == ids.len() && l.iter().zip(&ids).all(|(x, i)| same(x, *i))).unwrap_or(false) => {}
                r => c.fail(t, format!("facade on proposals {p} of an old DAO: {r:?}, expected {ids:?}")),
            }
        }
        let mut qs: Vec<(&str, Value, Result<Value, String>)> = vec![];
        let i = &st.info;
        let mut info = i.clone();
        if info["gov_config"]["veto_threshold"].is_null() {
            info["gov_config"]["veto_threshold"] = info["gov_config"]["threshold"].clone();
        }
        info["dao_version"] = json!({"major": 0, "minor": cfg.version, "patch": 0});
        qs.push(("dao_info", Value::Null, Ok(info)));
        qs.push(("treasury_address", Value::Null, Ok(json!({"treasury_address": a}))));
        let parts = json!({"enterprise_factory_contract": i["enterprise_factory_contract"], "funds_distributor_contract": i["funds_distributor_contract"], "enterprise_contract": a});
        qs.push(("component_contracts", Value::Null, Ok(parts)));
        qs.push(("cross_chain_treasuries", json!({"params": {"start_after": null, "limit": null}}), Ok(json!({"treasuries": []}))));
        qs.push(("has_incomplete_v2_migration", Value::Null, Ok(json!({"has_incomplete_migration": false}))));
        qs.push(("has_unmoved_stakes_or_claims", Value::Null, Ok(json!({"has_unmoved_stakes_or_claims": false}))));
        qs.push(("v2_migration_stage", Value::Null, Ok(json!({"stage": "migration_not_started"}))));
        let direct = |q: &str, p: Value| self.qn("old", json!({q: p}));
        for u in self.users.iter().take(4) {
            let a = self.names.a(u);
            let p = json!({"member_address": a});
            qs.push(("member_info", json!({"msg": p}), direct("member_info", p)));
            qs.push(("user_stake", json!({"params": {"user": a, "start_after": null, "limit": 2}}), direct("user_stake", json!({"user": a}))));
            for q in ["claims", "releasable_claims"] {
                let p = json!({"owner": a});
                qs.push((q, json!({"params": p}), direct(q, p)));
            }
            for id in [1, n] {
                let p = json!({"member": a, "proposal_id": id});
                qs.push(("member_vote", json!({"params": p}), direct("member_vote", p)));
            }
        }
        qs.push(("total_staked_amount", Value::Null, direct("total_staked_amount", json!({}))));
        let a0 = self.names.a("u0");
        for (after, lim) in [(Value::Null, json!(2)), (json!(a0), json!(3)), (Value::Null, Value::Null)] {
            let p = json!({"start_after": after, "limit": lim});
            qs.push(("list_multisig_members", json!({"msg": p}), direct("list_multisig_members", p.clone())));
            qs.push(("nft_whitelist", json!({"params": p}), direct("nft_whitelist", p)));
            for id in [1, n, n + 1] {
                let p = json!({"proposal_id": id, "start_after": after, "limit": lim});
                qs.push(("proposal_votes", json!({"params": p}), direct("proposal_votes", p)));
            }
        }
        for (after, lim) in [(Value::Null, json!(1)), (json!({"native": "uluna"}), Value::Null)] {
            let p = json!({"start_after": after, "limit": lim});
            qs.push(("asset_whitelist", json!({"params": p}), direct("asset_whitelist", p)));
        }
        for (after, lim) in [(Value::Null, json!(2)), (json!("n1"), Value::Null)] {
            let p = json!({"start_after": after, "limit": lim});
            qs.push(("staked_nfts", json!({"params": p}), direct("staked_nfts", p)));
        }
        qs.push(("proposal", json!({"params": {"proposal_id": n + 1}}), Err("none".into())));
        for (q, p, want) in qs {
            let got = ask(q, &p).ok().map(|v| norm(&v));
            let want = want.ok().map(|v| norm(&v));
            c.n += 1;
            c.ev.push(("V02", format!("asked for {q}")));
            if got != want {
                c.fail(t, format!("facade {q} {p} of an old DAO: {got:?}, expected {want:?}"));
            }
        }
    }
}
