//! What the facade and the listings say, and transactions drafted by the facade.
use crate::model::{no, Model, R};
use crate::types::*;
use crate::world::{Cmp, Mis, StepOut, World};
use cosmwasm_std::{BankMsg, Binary, Coin, CosmosMsg, Decimal, WasmMsg};
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// JSON without nulls, with decimals and embedded messages in one form.
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|x| !x.1.is_null()).map(|(k, x)| (k.clone(), norm(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::String(s) => {
            if let Some((i, f)) = s.split_once('.') {
                if !i.is_empty() && !f.is_empty() && i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) {
                    let f = f.trim_end_matches('0');
                    return Value::String(if f.is_empty() { i.to_string() } else { format!("{i}.{f}") });
                }
            }
            if s.starts_with('{') || s.starts_with('[') {
                if let Ok(x) = serde_json::from_str::<Value>(s) {
                    return norm(&x);
                }
            }
            if let Ok(b) = Binary::from_base64(s) {
                if let Ok(x @ (Value::Object(_) | Value::Array(_))) = serde_json::from_slice::<Value>(b.as_slice()) {
                    return norm(&x);
                }
            }
            v.clone()
        }
        x => x.clone(),
    }
}

/// One page of a listing as it has to be: what follows the cursor, in order, up to the limit.
fn page_ok<T: PartialEq>(page: &[T], raw: usize, rest: &[T], limit: Option<u32>) -> bool {
    let n = page.len();
    if n > rest.len() || page != &rest[..n] {
        return false;
    }
    let want = match limit {
        None => 10,
        Some(l) => (l as usize).min(30),
    };
    if let Some(l) = limit {
        if raw > l as usize {
            return false;
        }
    }
    n == rest.len() || raw >= want
}

impl Model {
    /// The messages that do what the facade is asked for.
    pub fn expand(&self, k: usize, v: &Via) -> R<Vec<Act>> {
        let d = &self.daos[k];
        let (ctl, mem) = (format!("d{k}.ctl"), format!("d{k}.mem"));
        let one = |to: &str, m: M| Ok(vec![Act::ex(to, m)]);
        let only = |kind: Kind| if d.kind == kind { Ok(()) } else { no(&["V01"], "the DAO is of another type") };
        let nft = || match self.known_nft(k) {
            Some(n) => Ok(n),
            None => no(&["V01", "I01"], "no NFT contract yet"),
        };
        match v {
            Via::Propose { owner, actions } => one(&ctl, M::Propose { owner: owner.clone(), actions: actions.clone() }),
            Via::ProposeDenom { owner, actions, amount } => {
                only(Kind::Denom)?;
                Ok(vec![Act::exf(&*ctl, M::Propose { owner: owner.clone(), actions: actions.clone() }, vec![(d.denom.clone(), *amount)])])
            }
            Via::ProposeToken { owner, actions, amount } => {
                only(Kind::Token)?;
                let hook = Hook::Propose { owner: owner.clone(), actions: actions.clone() };
                one(&d.token, M::C20Send { to: ctl, amount: *amount, hook })
            }
            Via::ProposeNft { owner, actions, ids } => {
                only(Kind::Nft)?;
                let c = nft()?;
                let mut out: Vec<Act> = ids.iter().map(|id| Act::ex(&*c, M::NftApprove { spender: ctl.clone(), id: id.clone() })).collect();
                out.push(Act::ex(&*ctl, M::ProposeNft { owner: owner.clone(), ids: ids.clone(), actions: actions.clone() }));
                Ok(out)
            }
            Via::CouncilPropose { actions } => one(&ctl, M::CouncilPropose { actions: actions.clone() }),
            Via::Vote { id, o } => one(&ctl, M::Vote { id: *id, o: *o }),
            Via::CouncilVote { id, o } => one(&ctl, M::CouncilVote { id: *id, o: *o }),
            Via::Execute { id } => {
                let Some(p) = d.props.get(id) else { return no(&["V01", "G04"], "no such proposal") };
                let far = p
                    .actions
                    .iter()
                    .filter(|a| match a {
                        PA::Assets { remote, .. } | PA::Nfts { remote, .. } | PA::Fund { remote, .. } | PA::TreExec { remote, .. } => remote.is_some(),
                        PA::DeployX { .. } => true,
                        _ => false,
                    })
                    .count();
                let mut out = vec![];
                if far > 0 {
                    out.push(Act::Bank { to: format!("d{k}.out"), coins: vec![("uluna".into(), far as Amt)] });
                }
                out.push(Act::ex(&*ctl, M::Execute { id: *id }));
                Ok(out)
            }
            Via::StakeCw20 { user, amount } => {
                only(Kind::Token)?;
                one(&d.token, M::C20Send { to: mem, amount: *amount, hook: Hook::Stake { user: user.clone() } })
            }
            Via::StakeNft { user, ids } => {
                only(Kind::Nft)?;
                let c = nft()?;
                Ok(ids.iter().map(|id| Act::ex(&*c, M::NftSend { to: mem.clone(), id: id.clone(), hook: Hook::Stake { user: user.clone() } })).collect())
            }
            Via::StakeDenom { user, amount } => {
                only(Kind::Denom)?;
                Ok(vec![Act::exf(&*mem, M::Stake { user: Some(user.clone()) }, vec![(d.denom.clone(), *amount)])])
            }
            Via::UnstakeCw20 { amount } | Via::UnstakeDenom { amount } => one(&mem, M::Unstake { amount: *amount }),
            Via::UnstakeNft { ids } => one(&mem, M::UnstakeNft { ids: ids.clone() }),
            Via::Claim => {
                if d.kind == Kind::Multisig {
                    return no(&["V01"], "nothing to claim in a multisig");
                }
                one(&mem, M::Claim { user: None })
            }
        }
    }
}

impl World {
    pub fn drafted(&self, v: &Value) -> Option<Vec<CosmosMsg>> {
        let coins = |v: &Value| -> Option<Vec<Coin>> {
            v.as_array()?.iter().map(|c| Some(Coin::new(num(&c["amount"])?, c["denom"].as_str()?))).collect()
        };
        v["msgs"]
            .as_array()?
            .iter()
            .map(|m| {
                if let Some(e) = m.get("execute") {
                    Some(
                        WasmMsg::Execute {
                            contract_addr: e["target_contract"].as_str()?.to_string(),
                            msg: Binary(e["msg"].as_str()?.as_bytes().to_vec()),
                            funds: coins(&e["funds"])?,
                        }
                        .into(),
                    )
                } else {
                    let b = m.get("bank")?;
                    Some(BankMsg::Send { to_address: b["receiver"].as_str()?.to_string(), amount: coins(&b["funds"])? }.into())
                }
            })
            .collect()
    }

    /// A transaction whose messages the facade drafts.
    pub fn via(&mut self, s: &str, k: usize, tre: bool, v: &Via, abort: Option<u32>, fail: Option<u32>) -> StepOut {
        let mut out = StepOut::default();
        let name = if tre { format!("d{k}.tre") } else { format!("d{k}.ent") };
        if k >= self.model.daos.len() || (tre && self.model.daos[k].tre.admin != format!("d{k}.ctl")) || !self.names_in(v) {
            out.skipped = true;
            return out;
        }
        let acts = self.model.expand(k, v);
        if let Ok(a) = &acts {
            let mut trial = self.model.clone();
            if !self.all_known(s, a) || matches!(trial.tx(s, a), Err(w) if w.tags.contains(&"?")) {
                out.skipped = true;
                return out;
            }
        }
        let draft = self.qn("facade", self.names.via(&self.names.a(&name), v));
        let msgs = match &draft {
            Ok(v) => self.drafted(v),
            Err(_) => None,
        };
        match (acts, msgs) {
            (Err(w), None) => {
                self.model.start();
                out.why = Some(w.what);
                out.why_tags = w.tags;
                out
            }
            // refused after all: an aborted draft is no harm
            (Err(w), Some(m)) => {
                let sender = self.names.a(s);
                self.model.start();
                let r = self.chain.tx(&sender, m, Default::default());
                out.ok = r.ok();
                out.err = r.err();
                if r.ok() {
                    let tags = w.tags.iter().copied().collect();
                    out.mis.push(Mis { tags, what: format!("the facade drafts what has to be refused ({}): {v:?}", w.what) });
                }
                out.why = Some(w.what);
                out.why_tags = w.tags;
                out
            }
            (Ok(a), None) => {
                self.model.start();
                let mut trial = self.model.clone();
                let ok = trial.tx(s, &a).is_ok();
                if ok {
                    let what = format!("the facade drafts nothing ({}) for {v:?}", draft.err().unwrap_or_default());
                    out.mis.push(Mis { tags: ["V01"].into(), what });
                } else {
                    out.why = Some("nothing to draft".into());
                    out.why_tags = vec!["V01"];
                }
                out
            }
            (Ok(a), Some(m)) => {
                let plain: Vec<CosmosMsg> = a.iter().map(|x| self.names.cosmos(x)).collect();
                let same = norm(&serde_json::to_value(&m).unwrap()) == norm(&serde_json::to_value(&plain).unwrap());
                let mut o = self.tx(s, &a, Some(m), abort, fail);
                // what another draft did may show only later
                self.odd_draft = self.odd_draft || !same;
                if !same {
                    for x in &mut o.mis {
                        x.tags.insert("V01");
                        x.what = format!("{} | drafted by the facade", x.what);
                    }
                }
                if o.ok {
                    let n = serde_json::to_value(v).ok().and_then(|x| x.as_object().and_then(|o| o.keys().next().cloned()).or(x.as_str().map(String::from)));
                    self.model.e("V01", format!("drafted {} by {}", n.unwrap_or_default(), if tre { "treasury" } else { "DAO" }));
                }
                o
            }
        }
    }
    pub fn names_in(&self, v: &Via) -> bool {
        // the same rule as for plain transactions, on what the request names
        let m = match v {
            Via::Propose { owner, actions } | Via::ProposeDenom { owner, actions, .. } | Via::ProposeToken { owner, actions, .. } | Via::ProposeNft { owner, actions, .. } => {
                M::Propose { owner: owner.clone(), actions: actions.clone() }
            }
            Via::CouncilPropose { actions } => M::CouncilPropose { actions: actions.clone() },
            Via::StakeCw20 { user, .. } | Via::StakeNft { user, .. } | Via::StakeDenom { user, .. } => M::Stake { user: Some(user.clone()) },
            _ => return true,
        };
        self.all_known("u0", &[Act::ex("u0", m)])
    }

    // ------------------------------------------------------------ the facade's answers
    pub fn cmp_facade(&self, k: usize, c: &mut Cmp) {
        let d = &self.model.daos[k];
        let n = |p: &str| format!("d{k}.{p}");
        let (ent, tre, mem) = (self.names.a(&n("ent")), self.names.a(&n("tre")), n("mem"));
        let mut by = vec![ent.clone()];
        if d.tre.admin == n("ctl") {
            by.push(tre.clone());
        }
        // something that is no DAO
        for x in ["u0", "ext", "tok0", "fac"] {
            let r = self.qn("facade", json!({"dao_info": {"contract": self.names.a(x)}}));
            c.eq(&["V01"], &format!("facade knows {x}"), r.is_ok(), false);
        }
        let cc = match self.qn(&n("ent"), json!({"component_contracts": {}})) {
            Ok(v) => v,
            Err(_) => return,
        };
        let info = self.qn(&n("ent"), json!({"dao_info": {}})).unwrap_or_default();
        let gov = self.qn(&n("ctl"), json!({"gov_config": {}})).unwrap_or_default();
        // (query, what to give along, what the components say)
        let mut qs: Vec<(&str, Option<(&str, Value)>, Result<Value, String>)> = vec![];
        let par = |v: Value| Some(("params", v));
        qs.push(("treasury_address", None, Ok(json!({"treasury_address": cc["enterprise_treasury_contract"]}))));
        let mut want = cc.clone();
        want["enterprise_contract"] = json!(ent);
        qs.push(("component_contracts", None, Ok(want)));
        qs.push(("dao_info", None, self.dao_info_by_parts(k, &info, &gov, &cc)));
        let total = self.qn(&mem, json!({"total_weight": {"expiration": {"never": {}}}})).ok().and_then(|v| num(&v["total_weight"]));
        for u in self.users.iter().take(4) {
            let a = self.names.a(u);
            let w = self.qn(&mem, json!({"user_weight": {"user": a}})).ok().and_then(|v| num(&v["weight"]));
            let power = match (w, total) {
                (_, Some(0)) => Ok(json!({"voting_power": "0"})),
                (Some(w), Some(t)) => Ok(json!({"voting_power": Decimal::from_ratio(w, t).to_string()})),
                _ => Err("no weight".into()),
            };
            qs.push(("member_info", Some(("msg", json!({"member_address": a}))), power));
            let stake = match d.kind {
                Kind::Denom => w.map(|w| json!({"user_stake": {"denom": {"amount": w.to_string()}}})),
                Kind::Token => w.map(|w| json!({"user_stake": {"token": {"amount": w.to_string()}}})),
                Kind::Multisig => Some(json!({"user_stake": "none"})),
                Kind::Nft => None,
            };
            if let Some(s) = stake {
                qs.push(("user_stake", par(json!({"user": a, "start_after": null, "limit": 3})), Ok(s)));
            } else {
                for (after, lim) in [(Value::Null, json!(2)), (json!("n1"), Value::Null)] {
                    let p = json!({"user": a, "start_after": after, "limit": lim});
                    let r = self.qn(&mem, json!({"user_stake": p}));
                    let s = r.map(|v| json!({"user_stake": {"nft": {"tokens": v["tokens"], "amount": v["total_user_stake"]}}}));
                    qs.push(("user_stake", par(p), s));
                }
            }
            for q in ["claims", "releasable_claims"] {
                let want = if d.kind == Kind::Multisig {
                    Ok(json!({"claims": []}))
                } else {
                    self.qn(&mem, json!({q: {"user": a}})).map(|v| {
                        let l = v["claims"].as_array().cloned().unwrap_or_default();
                        json!({"claims": l.iter().map(|x| {
                            let asset = match d.kind {
                                Kind::Denom => json!({"denom": {"amount": x["amount"]}}),
                                Kind::Token => json!({"cw20": {"amount": x["amount"]}}),
                                _ => json!({"cw721": {"tokens": x["nft_ids"]}}),
                            };
                            json!({"asset": asset, "release_at": x["release_at"]})
                        }).collect::<Vec<_>>()})
                    })
                };
                qs.push((q, par(json!({"owner": a})), want));
            }
            if let Some(id) = d.props.keys().last() {
                let p = json!({"member": a, "proposal_id": id});
                qs.push(("member_vote", par(p.clone()), self.qn(&n("ctl"), json!({"member_vote": p}))));
            }
        }
        qs.push(("total_staked_amount", None, Ok(json!({"total_staked_amount": if d.kind == Kind::Multisig { "0".into() } else { total.unwrap_or(0).to_string() }}))));
        let a0 = self.names.a("u0");
        for (after, lim) in [(Value::Null, json!(2)), (json!(a0), json!(3)), (Value::Null, Value::Null)] {
            let want = if d.kind == Kind::Multisig {
                self.qn(&mem, json!({"members": {"start_after": after, "limit": lim}})).map(|v| {
                    let l = v["members"].as_array().cloned().unwrap_or_default();
                    json!({"members": l.iter().map(|x| json!({"address": x["user"], "weight": x["weight"]})).collect::<Vec<_>>()})
                })
            } else {
                Err("no multisig".into())
            };
            qs.push(("list_multisig_members", Some(("msg", json!({"start_after": after, "limit": lim}))), want));
            qs.push(("nft_whitelist", par(json!({"start_after": after, "limit": lim})), self.qn(&n("tre"), json!({"nft_whitelist": {"start_after": after, "limit": lim}}))));
        }
        for (after, lim) in [(Value::Null, json!(1)), (json!({"native": "uluna"}), json!(40)), (json!({"cw20": self.names.a("tok0")}), Value::Null)] {
            let p = json!({"start_after": after, "limit": lim});
            qs.push(("asset_whitelist", par(p.clone()), self.qn(&n("tre"), json!({"asset_whitelist": p}))));
        }
        for (after, lim) in [(Value::Null, json!(2)), (json!("n1"), Value::Null)] {
            let p = json!({"start_after": after, "limit": lim});
            let want = if d.kind == Kind::Nft { self.qn(&mem, json!({"staked_nfts": p})) } else { Ok(json!({"nfts": []})) };
            qs.push(("staked_nfts", par(p), want));
        }
        let np = d.props.len() as u64;
        for id in [1, np, np + 1] {
            for q in ["proposal", "proposal_status"] {
                qs.push((q, par(json!({"proposal_id": id})), self.qn(&n("ctl"), json!({q: {"proposal_id": id}}))));
            }
            for (after, lim) in [(Value::Null, json!(2)), (json!(a0), Value::Null)] {
                let p = json!({"proposal_id": id, "start_after": after, "limit": lim});
                qs.push(("proposal_votes", par(p.clone()), self.qn(&n("ctl"), json!({"proposal_votes": p}))));
            }
        }
        for (f, after, lim) in [
            (Value::Null, Value::Null, Value::Null),
            (json!("in_progress"), json!(1), json!(3)),
            (json!("passed"), Value::Null, json!(2)),
            (json!("rejected"), Value::Null, Value::Null),
        ] {
            let p = json!({"filter": f, "start_after": after, "limit": lim});
            qs.push(("proposals", par(p.clone()), self.qn(&n("ctl"), json!({"proposals": p}))));
        }
        for (after, lim) in [(Value::Null, Value::Null), (json!("a"), json!(1))] {
            let p = json!({"start_after": after, "limit": lim});
            qs.push(("cross_chain_treasuries", par(p.clone()), self.qn(&n("out"), json!({"cross_chain_treasuries": p}))));
        }
        let inc = self.qn(&n("tre"), json!({"has_incomplete_v2_migration": {}}));
        let going = inc.as_ref().ok().and_then(|v| v["has_incomplete_migration"].as_bool()).unwrap_or(false);
        qs.push(("has_incomplete_v2_migration", None, inc));
        qs.push(("v2_migration_stage", None, Ok(json!({"stage": if going { "migration_in_progress" } else { "migration_completed" }}))));
        // before 1.0.2 there was no such question
        let unmoved = if d.version < (1, 0, 2) {
            Ok(json!({"has_unmoved_stakes_or_claims": false}))
        } else {
            self.qn(&n("tre"), json!({"has_unmoved_stakes_or_claims": {}}))
        };
        if self.model.known_nft(k).is_some() || d.kind != Kind::Nft || d.version >= (1, 2, 0) {
            qs.push(("has_unmoved_stakes_or_claims", None, unmoved));
        }
        for (q, p, want) in qs {
            for a in &by {
                let mut m = json!({q: {"contract": a}});
                if let Some((key, v)) = &p {
                    m[q][*key] = v.clone();
                }
                let got = self.qn("facade", m).ok().map(|v| norm(&v));
                c.ev.push(("V01", format!("asked for {q}")));
                let want = want.as_ref().ok().map(norm);
                c.n += 1;
                if got != want {
                    c.fail(&["V01"], format!("facade {q} {p:?} of DAO d{k} asked by {}: {got:?}, components {want:?}", self.names.n(a)));
                }
            }
        }
    }

    fn dao_info_by_parts(&self, k: usize, info: &Value, gov: &Value, cc: &Value) -> Result<Value, String> {
        let d = &self.model.daos[k];
        let mem = format!("d{k}.mem");
        let (contract, unlock) = match d.kind {
            Kind::Denom => {
                let v = self.qn(&mem, json!({"denom_config": {}}))?;
                (v["denom"].clone(), v["unlocking_period"].clone())
            }
            Kind::Token => {
                let v = self.qn(&mem, json!({"token_config": {}}))?;
                (v["token_contract"].clone(), v["unlocking_period"].clone())
            }
            Kind::Nft if unver(&info["dao_version"]) >= Some((1, 2, 0)) => {
                let v = self.qn(&mem, json!({"nft_contract_config": {}}))?;
                let x = &v["nft_contract"];
                (if x["ics721"].is_null() { x["cw721"]["contract"].clone() } else { x["ics721"]["class_id"].clone() }, v["unlocking_period"].clone())
            }
            Kind::Nft => {
                let v = self.qn(&mem, json!({"nft_config": {}}))?;
                (v["nft_contract"].clone(), v["unlocking_period"].clone())
            }
            Kind::Multisig => (json!(self.names.a(&format!("d{k}.ent"))), json!({"time": 0})),
        };
        let mut g = gov["gov_config"].clone();
        if g["veto_threshold"].is_null() {
            g["veto_threshold"] = g["threshold"].clone();
        }
        g["unlocking_period"] = unlock;
        let council = &gov["council_gov_config"];
        let council = if council.is_null() {
            Value::Null
        } else {
            let m = self.qn(&format!("d{k}.cmem"), json!({"members": {"start_after": null, "limit": 100}}))?;
            let mut v = council.clone();
            v["members"] = Value::Array(m["members"].as_array().unwrap_or(&vec![]).iter().map(|x| x["user"].clone()).collect());
            v
        };
        let (a, b, p) = unver(&info["dao_version"]).unwrap_or((0, 0, 0));
        Ok(json!({
            "creation_date": info["creation_date"], "metadata": info["metadata"], "gov_config": g, "dao_council": council,
            "dao_type": info["dao_type"], "dao_membership_contract": contract,
            "enterprise_factory_contract": cc["enterprise_factory_contract"], "funds_distributor_contract": cc["funds_distributor_contract"],
            "dao_code_version": (a * 10_000 + b * 100 + p).to_string(), "dao_version": info["dao_version"],
        }))
    }

    // ------------------------------------------------------------ listings
    #[allow(clippy::too_many_arguments)]
    fn listing<T: PartialEq + Clone + std::fmt::Debug>(
        &self,
        c: &mut Cmp,
        what: &str,
        to: &str,
        mk: &dyn Fn(Value, Value) -> Value,
        get: &dyn Fn(&Value) -> (usize, Vec<T>),
        all: &[(Value, T)],
    ) {
        let n = all.len();
        let mut starts: BTreeSet<Option<usize>> = [None].into();
        if n > 0 {
            starts.extend([Some(0), Some(n - 1), Some(n / 2), Some(n / 3)]);
        }
        for st in starts {
            let rest: Vec<T> = all[st.map(|i| i + 1).unwrap_or(0)..].iter().map(|x| x.1.clone()).collect();
            for lim in [None, Some(1u32), Some(2), Some(5), Some(1000)] {
                if lim == Some(5) && n < 3 {
                    continue;
                }
                let after = st.map(|i| all[i].0.clone()).unwrap_or(Value::Null);
                c.n += 1;
                match self.qn(to, mk(after.clone(), json!(lim))) {
                    Err(e) => c.fail(&["Q01"], format!("{what} after {after} limit {lim:?}: {e}")),
                    Ok(v) => {
                        let (raw, page) = get(&v);
                        let kind = match page.len() {
                            0 => "empty page",
                            n if n < rest.len() => "full page",
                            _ => "last page",
                        };
                        c.ev.push(("Q01", format!("{kind} of {what}")));
                        if !page_ok(&page, raw, &rest, lim) {
                            c.fail(&["Q01"], format!("{what} after {after} limit {lim:?}: {page:?} out of {rest:?}"));
                        }
                    }
                }
            }
        }
    }

    pub fn cmp_listings(&self, k: usize, c: &mut Cmp) {
        let d = &self.model.daos[k];
        let n = |p: &str| format!("d{k}.{p}");
        let arr = |v: &Value, key: &str| v[key].as_array().cloned().unwrap_or_default();
        let strs = |v: &Value, key: &str| -> (usize, Vec<String>) {
            let a: Vec<String> = v[key].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
            (a.len(), a)
        };
        // members, in the order of their addresses; some may have left
        for (p, w) in [("mem", &d.mem.wt.w), ("cmem", &d.cmem.w)] {
            let mut all: Vec<(Value, (String, Amt))> = w.iter().filter(|x| *x.1 > 0).map(|(u, x)| (json!(self.names.a(u)), (self.names.a(u), *x))).collect();
            all.sort_by(|a, b| a.1.cmp(&b.1));
            let get = |v: &Value| {
                let a = arr(v, "members");
                let m: Vec<(String, Amt)> = a.iter().map(|x| (x["user"].as_str().unwrap_or("").to_string(), num(&x["weight"]).unwrap_or(0))).filter(|x| x.1 > 0).collect();
                (a.len(), m)
            };
            self.listing(c, "members", &n(p), &|s, l| json!({"members": {"start_after": s, "limit": l}}), &get, &all);
        }
        if d.kind == Kind::Nft {
            let all: Vec<(Value, String)> = d.mem.stakes.keys().map(|id| (json!(id), id.clone())).collect();
            self.listing(c, "staked NFTs", &n("mem"), &|s, l| json!({"staked_nfts": {"start_after": s, "limit": l}}), &|v| strs(v, "nfts"), &all);
            for u in self.users.iter().take(5) {
                let a = self.names.a(u);
                let all: Vec<(Value, String)> = d.mem.stakes.iter().filter(|x| x.1 == u).map(|(id, _)| (json!(id), id.clone())).collect();
                let mk = |s: Value, l: Value| json!({"user_stake": {"user": a, "start_after": s, "limit": l}});
                self.listing(c, "NFTs staked by a user", &n("mem"), &mk, &|v| strs(v, "tokens"), &all);
                let r = self.qn(&n("mem"), mk(Value::Null, json!(1))).ok().and_then(|v| num(&v["total_user_stake"]));
                c.eq(&["Q01", "S01"], "number of NFTs staked by a user", r, Some(all.len() as Amt));
            }
        }
        // whitelists
        let mut wl: Vec<((u8, String, String), Value)> = d
            .tre
            .assets
            .iter()
            .map(|a| {
                let key = match a {
                    Asset::Nat(x) => (0, x.clone(), String::new()),
                    Asset::Cw20(x) => (1, self.names.a(x), String::new()),
                    Asset::Cw1155(x, id) => (2, self.names.a(x), id.clone()),
                };
                (key, self.names.asset_v(a))
            })
            .collect();
        wl.sort_by(|a, b| a.0.cmp(&b.0));
        let all: Vec<(Value, Value)> = wl.into_iter().map(|x| (x.1.clone(), x.1)).collect();
        let get = |v: &Value| {
            let a = arr(v, "assets");
            (a.len(), a)
        };
        self.listing(c, "asset whitelist", &n("tre"), &|s, l| json!({"asset_whitelist": {"start_after": s, "limit": l}}), &get, &all);
        let mut all: Vec<(Value, String)> = d.tre.nfts.iter().map(|x| (json!(self.names.a(x)), self.names.a(x))).collect();
        all.sort_by(|a, b| a.1.cmp(&b.1));
        self.listing(c, "NFT whitelist", &n("tre"), &|s, l| json!({"nft_whitelist": {"start_after": s, "limit": l}}), &|v| strs(v, "nfts"), &all);
        // proposals; concluded ones are listed under their outcome
        let state = |p: &crate::model::Prop| match p.fin {
            None => "in_progress",
            Some(crate::model::Fin::Passed) => "passed",
            Some(_) => "rejected",
        };
        for f in [None, Some("in_progress"), Some("passed"), Some("rejected")] {
            let all: Vec<(Value, (u64, String))> = d
                .props
                .iter()
                .filter(|(_, p)| f.map(|f| state(p) == f).unwrap_or(true))
                .map(|(id, p)| (json!(id), (*id, self.status(k, p).to_string())))
                .collect();
            let get = |v: &Value| {
                let a = arr(v, "proposals");
                (a.len(), a.iter().map(|x| (x["proposal"]["id"].as_u64().unwrap_or(0), x["proposal_status"].as_str().unwrap_or("").to_string())).collect())
            };
            self.listing(c, &format!("proposals {f:?}"), &n("ctl"), &|s, l| json!({"proposals": {"filter": f, "start_after": s, "limit": l}}), &get, &all);
            let ids: Vec<(Value, u64)> = all.iter().map(|x| (json!(x.1 .0.to_string()), x.1 .0)).collect();
            let get = |v: &Value| {
                let a = arr(v, "polls");
                (a.len(), a.iter().map(|x| x["id"].as_u64().unwrap_or(0)).collect())
            };
            let page = |s: Value, l: Value, e: Value, o: &str| json!({"polls": {"filter": f, "pagination": {"start_after": s, "end_at": e, "limit": l, "order_by": o}}});
            self.listing(c, &format!("polls {f:?}"), &n("gov"), &|s, l| page(s, l, Value::Null, "ascending"), &get, &ids);
            // between two polls, from the newest
            let top = d.props.len() as u64;
            for (from, to, lim) in [(None, None, None), (Some(top / 4), Some(top - top / 4), None), (None, Some(top / 2), Some(2usize))] {
                let mut want: Vec<u64> = ids.iter().map(|x| x.1).filter(|i| from.map(|f| *i > f).unwrap_or(true) && to.map(|t| *i <= t).unwrap_or(true)).collect();
                want.reverse();
                want.truncate(lim.unwrap_or(usize::MAX));
                let id = |x: Option<u64>| json!(x.map(|x| x.to_string()));
                let got = self.qn(&n("gov"), page(id(from), json!(lim), id(to), "descending")).ok().map(|v| get(&v).1);
                c.eq(&["Q01"], &format!("polls {f:?} after {from:?} up to {to:?}, newest first"), got, Some(want));
            }
        }
        for (id, p) in d.props.iter().rev().take(3) {
            let mut all: Vec<(Value, (String, u8, Amt))> = p.votes.iter().map(|(u, v)| (json!(self.names.a(u)), (self.names.a(u), v.0, v.1))).collect();
            all.sort_by(|a, b| a.1.cmp(&b.1));
            let get = |v: &Value| {
                let a = arr(v, "votes");
                (a.len(), a.iter().map(|x| (x["voter"].as_str().unwrap_or("").to_string(), x["outcome"].as_u64().unwrap_or(9) as u8, num(&x["amount"]).unwrap_or(0))).collect())
            };
            self.listing(c, "votes", &n("ctl"), &|s, l| json!({"proposal_votes": {"proposal_id": id, "start_after": s, "limit": l}}), &get, &all);
            for u in self.users.iter().take(4) {
                let r = self.qn(&n("ctl"), json!({"member_vote": {"member": self.names.a(u), "proposal_id": id}}));
                let got = r.ok().map(|v| {
                    let x = &v["vote"];
                    if x.is_null() { None } else { Some((x["outcome"].as_u64().unwrap_or(9) as u8, num(&x["amount"]).unwrap_or(0))) }
                });
                c.eq(&["Q01", "G01"], "vote of a member", got, Some(p.votes.get(u).copied()));
            }
            let r = self.qn(&n("ctl"), json!({"proposal_status": {"proposal_id": id}})).unwrap_or_default();
            c.eq(&["Q01", "G02"], "status asked for alone", r["status"].as_str().map(String::from), Some(self.status(k, p).to_string()));
        }
        // all votes of a member
        for u in self.users.iter().take(4) {
            let all: Vec<(Value, (u64, u8))> = d.props.iter().filter_map(|(id, p)| p.votes.get(u).map(|v| (json!(id), (*id, v.0)))).collect();
            let get = |v: &Value| {
                let a = arr(v, "votes");
                (a.len(), a.iter().map(|x| (num(&x["poll_id"]).unwrap_or(0) as u64, x["outcome"].as_u64().unwrap_or(9) as u8)).collect())
            };
            let a = self.names.a(u);
            self.listing(c, "votes of a member", &n("gov"), &|s, l| json!({"voter": {"voter_addr": a, "start_after": s, "limit": l}}), &get, &all);
        }
        if k != 0 {
            return;
        }
        // the factory
        let all: Vec<(Value, String)> = (0..self.model.daos.len()).map(|k| (json!((k + 1).to_string()), self.names.a(&format!("d{k}.tre")))).collect();
        let get = |v: &Value| {
            let a = arr(v, "daos");
            (a.len(), a.iter().map(|x| x["dao_address"].as_str().unwrap_or("").to_string()).collect())
        };
        self.listing(c, "DAOs", "fac", &|s, l| json!({"all_daos": {"start_after": s, "limit": l}}), &get, &all);
        let all: Vec<(Value, Ver)> = self.model.releases.keys().map(|v| (ver(*v), *v)).collect();
        let get = |v: &Value| {
            let a = arr(v, "versions");
            (a.len(), a.iter().filter_map(|x| unver(&x["version"])).collect())
        };
        self.listing(c, "releases", "ver", &|s, l| json!({"versions": {"start_after": s, "limit": l}}), &get, &all);
    }
}
