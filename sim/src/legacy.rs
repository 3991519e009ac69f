//! State that contracts from before the rewrite left behind: it is written into the treasury's storage
//! in the layout those contracts used, as it is found on the chain.
use crate::types::*;
use crate::world::{StepOut, World};
use cosmwasm_std::{Addr, Storage, Uint128};
use cw_storage_plus::{Index, IndexList, IndexedMap, Map, MultiIndex};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Serialize, Deserialize, Clone)]
struct NftStake {
    staker: Addr,
    token_id: String,
}
struct Idx<'a> {
    staker: MultiIndex<'a, Addr, NftStake, String>,
}
impl IndexList<NftStake> for Idx<'_> {
    fn get_indexes(&'_ self) -> Box<dyn Iterator<Item = &'_ dyn Index<NftStake>> + '_> {
        let v: Vec<&dyn Index<NftStake>> = vec![&self.staker];
        Box::new(v.into_iter())
    }
}
fn nft_stakes<'a>() -> IndexedMap<'a, String, NftStake, Idx<'a>> {
    let i = Idx { staker: MultiIndex::new(|_, s: &NftStake| s.staker.clone(), "nft_stakes", "nft_stakes__staker") };
    IndexedMap::new("nft_stakes", i)
}
const STAKES: Map<Addr, Uint128> = Map::new("stakes");
const CLAIMS: Map<&Addr, ()> = Map::new("claims");

fn item(s: &mut dyn Storage, key: &str, v: &Value) {
    s.set(key.as_bytes(), v.to_string().as_bytes());
}

impl World {
    pub fn legacy(&mut self, k: usize, l: &Legacy) -> StepOut {
        let mut out = StepOut::default();
        out.skipped = true;
        let Some(d) = self.model.daos.get(k) else { return out };
        let (tre, kind) = (format!("d{k}.tre"), d.kind);
        if d.tre.legacy.is_some() || d.ics.is_some() || l.empty() {
            return out;
        }
        let mut l = l.clone();
        l.moved.clear();
        match kind {
            Kind::Token => l.nfts.clear(),
            Kind::Nft => l.stakes.clear(),
            _ => return out,
        }
        for x in &mut l.claims {
            x.1.retain(|c| c.ids.is_empty() == (kind == Kind::Token));
        }
        l.claims.retain(|x| !x.1.is_empty());
        let known = |u: &N| self.users.contains(u);
        if !l.stakes.iter().all(|x| known(&x.0)) || !l.nfts.iter().all(|x| known(&x.1)) || !l.claims.iter().all(|x| known(&x.0)) {
            return out;
        }
        // the lists as the storage orders them, each key once
        l.stakes.sort_by_key(|x| self.names.a(&x.0));
        l.stakes.dedup_by_key(|x| x.0.clone());
        l.claims.sort_by_key(|x| self.names.a(&x.0));
        l.claims.dedup_by_key(|x| x.0.clone());
        l.nfts.sort();
        l.nfts.dedup_by_key(|x| x.0.clone());
        // the assets that belong to it
        let (token, nft) = (d.token.clone(), d.nft.clone());
        let mut moves: Vec<(N, Act)> = vec![];
        if kind == Kind::Token {
            let sum: Amt = l.stakes.iter().map(|x| x.1).sum::<Amt>() + l.claims.iter().flat_map(|x| &x.1).map(|c| c.amount).sum::<Amt>();
            let rich = std::iter::once("admin".to_string()).chain(self.users.iter().cloned()).find(|u| self.model.tbal(&token, u) >= sum);
            let Some(u) = rich else { return out };
            moves.push((u, Act::ex(token, M::C20Transfer { to: tre.clone(), amount: sum })));
        } else {
            let mut ids: Vec<String> = l.nfts.iter().map(|x| x.0.clone()).collect();
            ids.extend(l.claims.iter().flat_map(|x| x.1.iter().flat_map(|c| c.ids.clone())));
            let n = ids.len();
            ids.sort();
            ids.dedup();
            if ids.len() != n {
                return out;
            }
            for id in ids {
                match self.model.nft.get(&nft).and_then(|x| x.owner.get(&id)) {
                    Some(o) if self.users.contains(o) => moves.push((o.clone(), Act::ex(nft.clone(), M::NftTransfer { to: tre.clone(), id }))),
                    _ => return out,
                }
            }
        }
        let mut total = StepOut { ok: true, ..Default::default() };
        for (u, a) in moves {
            let o = self.tx(&u, &[a], None, None, None);
            total.mis.extend(o.mis);
            if !o.ok {
                // a model that is no longer in step says so
                return total;
            }
        }
        let a = |u: &str| Addr::unchecked(self.names.a(u));
        let contract = self.names.a(if kind == Kind::Token { &self.model.daos[k].token } else { &self.model.daos[k].nft });
        let info = json!({
            "version_info": release_info((1, 0, 0), "notes", &Default::default()),
            "enterprise_contract": self.names.a(&format!("d{k}.ent")),
            "enterprise_governance_controller_contract": self.names.a(&format!("d{k}.ctl")),
            "enterprise_outposts_contract": self.names.a(&format!("d{k}.out")),
            "membership_contract": self.names.a(&format!("d{k}.mem")),
            "council_membership_contract": self.names.a(&format!("d{k}.cmem")),
            "initial_submsgs_limit": Value::Null,
        });
        self.chain.with_store(&self.names.a(&tre), |s| {
            item(s, "dao_type", &json!(if kind == Kind::Token { "token" } else { "nft" }));
            item(s, "dao_membership_contract", &json!(contract));
            item(s, "migration_info", &info);
            item(s, "migration_stage", &json!(if l.running { "migration_in_progress" } else { "migration_completed" }));
            for (u, x) in &l.stakes {
                STAKES.save(s, a(u), &Uint128::from(*x)).unwrap();
            }
            for (id, u) in &l.nfts {
                nft_stakes().save(s, id.clone(), &NftStake { staker: a(u), token_id: id.clone() }).unwrap();
            }
            for (u, v) in &l.claims {
                let list: Vec<Value> = v
                    .iter()
                    .map(|c| {
                        let asset = if kind == Kind::Token {
                            json!({"cw20": {"amount": c.amount.to_string()}})
                        } else {
                            json!({"cw721": {"tokens": c.ids}})
                        };
                        json!({"asset": asset, "release_at": rel(c.rel)})
                    })
                    .collect();
                s.set(&CLAIMS.key(&a(u)), Value::Array(list).to_string().as_bytes());
            }
        });
        self.model.e("L01", format!("left behind: {kind:?} running={} stakes={} claims={}", l.running, !(l.stakes.is_empty() && l.nfts.is_empty()), !l.claims.is_empty()));
        self.model.daos[k].tre.legacy = Some(l);
        total
    }
}
