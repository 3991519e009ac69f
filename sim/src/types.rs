//! The vocabulary of the simulation: messages with symbolic addresses. The same value is rendered
//! to the JSON the contracts receive, and interpreted by the reference model.
use crate::chain::Chain;
use cosmwasm_std::{to_json_string, BankMsg, Binary, Coin, CosmosMsg, WasmMsg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Symbolic address: "u3", "d0.tre", "tok1", "ext", ... A name starting with "bad" is rendered as
/// is and is not a valid address.
pub type N = String;
pub type Amt = u128;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Asset {
    Nat(String),
    Cw20(N),
    Cw1155(N, String),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Dur {
    Time(u64),
    Height(u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rel {
    /// nanoseconds
    Time(u64),
    Height(u64),
}

/// What a DAO from before the rewrite left in its treasury contract.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Legacy {
    /// token stakes, in the order of the addresses
    pub stakes: Vec<(N, Amt)>,
    /// staked NFTs, in the order of their ids
    pub nfts: Vec<(String, N)>,
    /// claims of each user, in the order of the addresses
    pub claims: Vec<(N, Vec<LClaim>)>,
    /// still in progress, or believed to be complete
    pub running: bool,
    /// weights that have been moved
    #[serde(default)]
    pub moved: std::collections::BTreeMap<N, Amt>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LClaim {
    pub amount: Amt,
    pub ids: Vec<String>,
    pub rel: Rel,
}
impl Legacy {
    pub fn empty(&self) -> bool {
        self.stakes.is_empty() && self.nfts.is_empty() && self.claims.is_empty()
    }
    pub fn weight(&self, u: &str) -> Amt {
        let a: Amt = self.stakes.iter().filter(|x| x.0 == u).map(|x| x.1).sum();
        let b = self.nfts.iter().filter(|x| x.1 == u).count() as Amt;
        a + b + self.moved.get(u).copied().unwrap_or(0)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Denom,
    Token,
    Nft,
    Multisig,
}

/// Ratios are in units of 1e-4.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Gov {
    pub quorum: u64,
    pub threshold: u64,
    pub veto: Option<u64>,
    pub duration: u64,
    pub min_deposit: Option<Amt>,
    pub early: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Council {
    pub members: Vec<N>,
    pub quorum: u64,
    pub threshold: u64,
    pub types: Option<Vec<String>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct GovChange {
    pub quorum: Option<u64>,
    pub threshold: Option<u64>,
    #[serde(default, with = "twice")]
    pub veto: Option<Option<u64>>,
    pub duration: Option<u64>,
    pub unlocking: Option<Dur>,
    #[serde(default, with = "twice")]
    pub min_deposit: Option<Option<Amt>>,
    pub early: Option<bool>,
}

/// An optional change to something optional: null, [null] or [value].
mod twice {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<T: Serialize, S: Serializer>(v: &Option<Option<T>>, s: S) -> Result<S::Ok, S::Error> {
        v.as_ref().map(|x| [x]).serialize(s)
    }
    pub fn deserialize<'de, T: Deserialize<'de>, D: Deserializer<'de>>(d: D) -> Result<Option<Option<T>>, D::Error> {
        Ok(Option::<[Option<T>; 1]>::deserialize(d)?.map(|[x]| x))
    }
}

pub type Ver = (u64, u64, u64);

/// What a DAO says about itself besides its name.
pub const META: [&str; 6] =
    ["description", "logo", "github_username", "discord_username", "twitter_username", "telegram_username"];
pub type Meta = [Option<String>; 6];
/// Changes to some of them.
pub type MetaChange = Vec<(u8, Option<String>)>;
pub fn logo(x: &Option<String>) -> Value {
    match x {
        None => json!("none"),
        Some(u) => json!({ "url": u }),
    }
}
fn meta_change(name: &Option<String>, f: &MetaChange) -> Value {
    let mut v = json!({"name": change(name.clone().map(Value::String))});
    for (i, key) in META.iter().enumerate() {
        let x = f.iter().rev().find(|x| x.0 as usize == i).map(|x| if i == 1 { logo(&x.1) } else { json!(x.1) });
        v[key] = change(x);
    }
    v
}

/// What a new token says about itself.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct TokLook {
    pub n: u8,
    /// project, description, owner of the marketing information, logo
    pub marketing: Option<(Option<String>, Option<String>, Option<N>, Option<String>)>,
}
impl TokLook {
    pub fn name(&self) -> String {
        format!("Token {}", self.n)
    }
    pub fn symbol(&self) -> String {
        format!("TOK{}", (b'A' + self.n % 26) as char)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PA {
    Meta { name: Option<String>, f: MetaChange },
    Gov(GovChange),
    Council(Option<Council>),
    Assets { remote: Option<u8>, add: Vec<Asset>, remove: Vec<Asset> },
    Nfts { remote: Option<u8>, add: Vec<N>, remove: Vec<N> },
    Fund { remote: Option<u8>, to: N, assets: Vec<(Asset, Amt)> },
    Upgrade { to: Ver, msgs: Vec<(Ver, bool)> },
    Exec(Vec<Act>),
    TreExec { remote: Option<u8>, acts: Vec<Act> },
    EntExec(Vec<Act>),
    Multisig(Vec<(N, Amt)>),
    Dist(Vec<(Asset, Amt)>),
    MinWeight(Amt),
    DeployX { chain: u8, #[serde(default)] w: u8 },
}

/// What a new DAO's membership is based on.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MemSpec {
    Denom { denom: String, unlock: Dur },
    ImportCw20 { tok: N, unlock: Dur },
    NewCw20 { balances: Vec<(N, Amt)>, dao: Option<Amt>, minter: Option<N>, cap: Option<Amt>, unlock: Dur, #[serde(default)] look: TokLook },
    ImportCw721 { nft: N, unlock: Dur },
    NewCw721 { minter: Option<N>, unlock: Dur, #[serde(default)] n: u8 },
    Ics721 { class: String, unlock: Dur },
    ImportCw3 { cw3: N },
    NewMultisig { members: Vec<(N, Amt)> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DaoCfg {
    pub name: String,
    #[serde(default)]
    pub meta: Meta,
    pub gov: Gov,
    pub council: Option<Council>,
    pub mem: MemSpec,
    pub assets: Option<Vec<Asset>>,
    pub nfts: Option<Vec<N>>,
    pub min_weight: Option<Amt>,
    pub xchain: Option<Vec<(u8, u8)>>,
    pub attest: Option<String>,
    pub version: Option<Ver>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hook {
    /// cw20 / cw721: stake for a user
    Stake { user: N },
    AddStakes(Vec<(N, Amt)>),
    AddClaims(Vec<(N, Amt, Rel)>),
    AddNftClaim { user: N, release: Rel },
    Propose { owner: Option<N>, actions: Vec<PA> },
    Distribute,
    Junk,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum M {
    // cw20 / cw721 (third party contracts)
    C20Transfer { to: N, amount: Amt },
    C20Send { to: N, amount: Amt, hook: Hook },
    C20Mint { to: N, amount: Amt },
    NftTransfer { to: N, id: String },
    NftSend { to: N, id: String, hook: Hook },
    NftApprove { spender: N, id: String },
    NftRevoke { spender: N, id: String },
    NftApproveAll { operator: N },
    NftMint { id: String, owner: N },
    // forged token callbacks sent by an account
    FakeC20 { from: N, amount: Amt, hook: Hook },
    FakeNft { from: N, id: String, hook: Hook },
    // governance controller
    Propose { owner: Option<N>, actions: Vec<PA> },
    ProposeNft { owner: Option<N>, ids: Vec<String>, actions: Vec<PA> },
    CouncilPropose { actions: Vec<PA> },
    Vote { id: u64, o: u8 },
    CouncilVote { id: u64, o: u8 },
    Execute { id: u64 },
    ExecuteActions { id: u64 },
    WeightsChanged(Vec<(N, Amt, Amt)>),
    DeployInitial,
    // governance (polls)
    PollCreate { ends_in: u64 },
    PollVote { id: u64, o: u8, voter: N, amount: Amt },
    PollUpdate { voter: N, amount: Amt },
    PollEnd { id: u64, max: Amt, early: bool },
    // memberships
    Stake { user: Option<N> },
    Unstake { amount: Amt },
    UnstakeNft { ids: Vec<String> },
    Claim { user: Option<N> },
    SetUnlocking { d: Option<Dur> },
    AddHook { hook: N },
    RemoveHook { hook: N },
    UpdateMembers(Vec<(N, Amt)>),
    SetMembers(Vec<(N, Amt)>),
    // distributor
    UserWeights(Vec<(N, Amt)>),
    MinWeight { w: Amt },
    DistNative,
    ClaimRewards { user: N, natives: Vec<String>, cw20s: Vec<N> },
    // treasury
    SetAdmin { to: N },
    TreAssets { add: Vec<Asset>, remove: Vec<Asset> },
    TreNfts { add: Vec<N>, remove: Vec<N> },
    Spend { to: N, assets: Vec<(Asset, Amt)> },
    TreDist { dist: N, funds: Vec<(Asset, Amt)> },
    Cosmos(Vec<Act>),
    MigStep { limit: Option<u32> },
    // enterprise
    EntMeta { name: Option<String>, f: MetaChange },
    EntUpgrade { to: Ver, msgs: Vec<(Ver, bool)> },
    SetAttestation { text: String },
    RemoveAttestation,
    EntMsgs(Vec<Act>),
    EntConfig { versioning: Option<N>, factory: Option<N> },
    EntFinalize { dao: usize },
    // attestation
    Sign,
    // versioning registry
    AddVersion { v: Ver, k: u64 },
    EditVersion { v: Ver, changelog: Option<String>, k: Option<u64>, #[serde(default)] only: Vec<u8> },
    VerAdmin { to: N },
    // factory
    FacConfig { admin: Option<N>, versioning: Option<N>, #[serde(default)] cw20: Option<u64>, #[serde(default)] cw721: Option<u64> },
    FacFinalize,
    CreateDao(Box<DaoCfg>),
    // outposts
    OutDeploy { chain: u8, #[serde(default)] w: u8 },
    OutExec { chain: u8, to: N, amount: Amt },
    OutCallback { id: u32 },
    /// any treasury command for a remote treasury
    OutRun { chain: u8, m: Box<M> },
    /// the IBC proxy of a remote chain
    ProxyRun(Vec<Act>),
    // external contract
    Bump,
    Fail,
    Forward(Vec<Act>),
    // ics721
    IcsRegister { class: String, nft: N },
    IcsForward(Vec<Act>),
    IcsCallback { nft: N, ids: Vec<String>, user: N, mem: N, junk: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Bank { to: N, coins: Vec<(String, Amt)> },
    Ex { to: N, m: Box<M>, funds: Vec<(String, Amt)> },
    Migrate { c: N, code: u64 },
    /// only inside lists of raw messages: text that is not a chain message
    Garbage,
}

impl Act {
    pub fn ex(to: impl Into<String>, m: M) -> Act {
        Act::Ex { to: to.into(), m: Box::new(m), funds: vec![] }
    }
    pub fn exf(to: impl Into<String>, m: M, funds: Vec<(String, Amt)>) -> Act {
        Act::Ex { to: to.into(), m: Box::new(m), funds }
    }
}

/// A request to the facade to draft messages.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via {
    Propose { owner: Option<N>, actions: Vec<PA> },
    ProposeDenom { owner: Option<N>, actions: Vec<PA>, amount: Amt },
    ProposeToken { owner: Option<N>, actions: Vec<PA>, amount: Amt },
    ProposeNft { owner: Option<N>, actions: Vec<PA>, ids: Vec<String> },
    CouncilPropose { actions: Vec<PA> },
    Vote { id: u64, o: u8 },
    CouncilVote { id: u64, o: u8 },
    Execute { id: u64 },
    StakeCw20 { user: N, amount: Amt },
    StakeNft { user: N, ids: Vec<String> },
    StakeDenom { user: N, amount: Amt },
    UnstakeCw20 { amount: Amt },
    UnstakeNft { ids: Vec<String> },
    UnstakeDenom { amount: Amt },
    Claim,
}

pub const OUTCOMES: [&str; 4] = ["yes", "no", "abstain", "veto"];

/// Where the remote chains are, for cross-chain messages.
#[derive(Clone, Debug)]
pub struct RemoteSpec {
    pub chain_id: String,
    pub prefix: String,
    pub src_channel: String,
    pub dest_channel: String,
    pub uluna_denom: String,
    pub global_proxy: String,
    pub timeout_nanos: Option<u64>,
}

/// Name resolution: symbolic names to bech32 addresses.
#[derive(Default)]
pub struct Names {
    pub map: BTreeMap<N, String>,
    pub rev: BTreeMap<String, N>,
    pub remotes: Vec<RemoteSpec>,
}

impl Names {
    pub fn set(&mut self, n: &str, addr: &str) {
        self.map.insert(n.to_string(), addr.to_string());
        self.rev.insert(addr.to_string(), n.to_string());
    }
    pub fn a(&self, n: &str) -> String {
        match self.map.get(n) {
            Some(a) => a.clone(),
            None => n.to_string(),
        }
    }
    pub fn n(&self, addr: &str) -> N {
        match self.rev.get(addr) {
            Some(n) => n.clone(),
            None => format!("?{addr}"),
        }
    }
    pub fn known(&self, n: &str) -> bool {
        self.map.contains_key(n)
    }

    fn asset(&self, a: &Asset) -> Value {
        match a {
            Asset::Nat(d) => json!({"native": d}),
            Asset::Cw20(n) => json!({"cw20": self.a(n)}),
            Asset::Cw1155(n, id) => json!({"cw1155": [self.a(n), id]}),
        }
    }
    pub fn asset_v(&self, a: &Asset) -> Value {
        self.asset(a)
    }
    fn assets(&self, v: &[Asset]) -> Value {
        Value::Array(v.iter().map(|a| self.asset(a)).collect())
    }
    fn amounts(&self, v: &[(Asset, Amt)]) -> Value {
        Value::Array(
            v.iter()
                .map(|(a, x)| json!({"info": self.asset(a), "amount": x.to_string()}))
                .collect(),
        )
    }
    fn addrs(&self, v: &[N]) -> Value {
        Value::Array(v.iter().map(|n| Value::String(self.a(n))).collect())
    }
    fn opt(&self, o: &Option<N>) -> Value {
        match o {
            Some(n) => Value::String(self.a(n)),
            None => Value::Null,
        }
    }
    fn weights(&self, v: &[(N, Amt)]) -> Value {
        Value::Array(
            v.iter()
                .map(|(n, w)| json!({"user": self.a(n), "weight": w.to_string()}))
                .collect(),
        )
    }
    pub fn spec(&self, chain: u8) -> Value {
        let r = &self.remotes[chain as usize];
        json!({
            "chain_id": r.chain_id, "chain_bech32_prefix": r.prefix,
            "src_ibc_port": "transfer", "src_ibc_channel": r.src_channel,
            "dest_ibc_port": "transfer", "dest_ibc_channel": r.dest_channel,
            "uluna_denom": r.uluna_denom, "timeout_nanos": r.timeout_nanos,
        })
    }
    fn remote(&self, r: &Option<u8>) -> Value {
        match r {
            None => Value::Null,
            Some(c) => json!({"cross_chain_msg_spec": self.spec(*c)}),
        }
    }
    pub fn deploy(&self, chain: u8, w: u8) -> Value {
        let (assets, nfts) = deploy_lists(chain, w);
        json!({
            "cross_chain_msg_spec": self.spec(chain),
            "asset_whitelist": assets.map(|v| self.assets(&v)),
            "nft_whitelist": nfts.map(|v| self.addrs(&v)),
            "ics_proxy_code_id": crate::codes::STUB_ICS_PROXY,
            "enterprise_treasury_code_id": crate::codes::TREASURY,
            "chain_global_proxy": self.remotes[chain as usize].global_proxy,
        })
    }
    pub fn msgs(&self, v: &[Act]) -> Value {
        Value::Array(
            v.iter()
                .map(|a| match a {
                    Act::Garbage => Value::String("{\"not\": a message".into()),
                    a => Value::String(to_json_string(&self.cosmos(a)).unwrap()),
                })
                .collect(),
        )
    }
    pub fn council(&self, c: &Option<Council>) -> Value {
        match c {
            None => Value::Null,
            Some(c) => json!({
                "members": self.addrs(&c.members), "quorum": dec(c.quorum), "threshold": dec(c.threshold),
                "allowed_proposal_action_types": c.types,
            }),
        }
    }
    pub fn gov(&self, g: &Gov) -> Value {
        json!({
            "quorum": dec(g.quorum), "threshold": dec(g.threshold), "veto_threshold": g.veto.map(dec),
            "vote_duration": g.duration, "minimum_deposit": g.min_deposit.map(|x| x.to_string()),
            "allow_early_proposal_execution": g.early,
        })
    }
    pub fn pa(&self, p: &PA) -> Value {
        match p {
            PA::Meta { name, f } => json!({"update_metadata": meta_change(name, f)}),
            PA::Gov(g) => json!({"update_gov_config": {
                "quorum": change(g.quorum.map(|x| json!(dec(x)))),
                "threshold": change(g.threshold.map(|x| json!(dec(x)))),
                "veto_threshold": change(g.veto.map(|x| json!(x.map(dec)))),
                "voting_duration": change(g.duration.map(|x| json!(x.to_string()))),
                "unlocking_period": change(g.unlocking.map(dur)),
                "minimum_deposit": change(g.min_deposit.map(|x| json!(x.map(|y| y.to_string())))),
                "allow_early_proposal_execution": change(g.early.map(|x| json!(x))),
            }}),
            PA::Council(c) => json!({"update_council": {"dao_council": self.council(c)}}),
            PA::Assets { remote, add, remove } => json!({"update_asset_whitelist": {
                "remote_treasury_target": self.remote(remote),
                "add": self.assets(add), "remove": self.assets(remove)}}),
            PA::Nfts { remote, add, remove } => json!({"update_nft_whitelist": {
                "remote_treasury_target": self.remote(remote),
                "add": self.addrs(add), "remove": self.addrs(remove)}}),
            PA::Fund { remote, to, assets } => json!({"request_funding_from_dao": {
                "remote_treasury_target": self.remote(remote),
                "recipient": self.a(to), "assets": self.amounts(assets)}}),
            PA::Upgrade { to, msgs } => json!({"upgrade_dao": upgrade(to, msgs)}),
            PA::Exec(a) => json!({"execute_msgs": {"action_type": "custom", "msgs": self.msgs(a)}}),
            PA::TreExec { remote, acts } => json!({"execute_treasury_msgs": {
                "action_type": "custom", "msgs": self.msgs(acts),
                "remote_treasury_target": self.remote(remote)}}),
            PA::EntExec(a) => json!({"execute_enterprise_msgs": {"action_type": "custom", "msgs": self.msgs(a)}}),
            PA::Multisig(v) => json!({"modify_multisig_membership": {"edit_members": self.weights(v)}}),
            PA::Dist(v) => json!({"distribute_funds": {"funds": self.amounts(v)}}),
            PA::MinWeight(w) => json!({"update_minimum_weight_for_rewards": {
                "minimum_weight_for_rewards": w.to_string()}}),
            PA::DeployX { chain, w } => json!({"deploy_cross_chain_treasury": self.deploy(*chain, *w)}),
        }
    }
    /// Each proposal has a text of its own.
    pub fn title(actions: &[PA]) -> String {
        format!("title {}", crate::rng::fnv(format!("{actions:?}").as_bytes()) % 100_000)
    }
    pub fn create(&self, owner: &Option<N>, actions: &[PA]) -> Value {
        let mut v = json!({
            "title": Names::title(actions), "description": format!("about {}", Names::title(actions)),
            "proposal_actions": Value::Array(actions.iter().map(|p| self.pa(p)).collect()),
        });
        if let Some(o) = owner {
            v["deposit_owner"] = json!(self.a(o));
        }
        v
    }
    pub fn hook(&self, h: &Hook) -> Value {
        match h {
            Hook::Stake { user } => json!({"stake": {"user": self.a(user)}}),
            Hook::AddStakes(v) => json!({"add_stakes": {"stakers": v.iter().map(|(n, x)|
                json!({"user": self.a(n), "staked_amount": x.to_string()})).collect::<Vec<_>>()}}),
            Hook::AddClaims(v) => json!({"add_claims": {"claims": v.iter().map(|(n, x, r)|
                json!({"user": self.a(n), "claim_amount": x.to_string(), "release_at": rel(*r)})).collect::<Vec<_>>()}}),
            Hook::AddNftClaim { user, release } => json!({"add_claim": {"user": self.a(user), "release_at": rel(*release)}}),
            Hook::Propose { owner, actions } => json!({"create_proposal": self.create(owner, actions)}),
            Hook::Distribute => json!({"distribute": {}}),
            Hook::Junk => json!({"junk": {}}),
        }
    }
    pub fn body(&self, m: &M) -> Value {
        match m {
            M::C20Transfer { to, amount } => json!({"transfer": {"recipient": self.a(to), "amount": amount.to_string()}}),
            M::C20Send { to, amount, hook } => json!({"send": {"contract": self.a(to), "amount": amount.to_string(), "msg": b64(&self.hook(hook))}}),
            M::C20Mint { to, amount } => json!({"mint": {"recipient": self.a(to), "amount": amount.to_string()}}),
            M::NftTransfer { to, id } => json!({"transfer_nft": {"recipient": self.a(to), "token_id": id}}),
            M::NftSend { to, id, hook } => json!({"send_nft": {"contract": self.a(to), "token_id": id, "msg": b64(&self.hook(hook))}}),
            M::NftApprove { spender, id } => json!({"approve": {"spender": self.a(spender), "token_id": id, "expires": null}}),
            M::NftRevoke { spender, id } => json!({"revoke": {"spender": self.a(spender), "token_id": id}}),
            M::NftApproveAll { operator } => json!({"approve_all": {"operator": self.a(operator), "expires": null}}),
            M::NftMint { id, owner } => json!({"mint": {"token_id": id, "owner": self.a(owner), "token_uri": null, "extension": null}}),
            M::FakeC20 { from, amount, hook } => json!({"receive": {"sender": self.a(from), "amount": amount.to_string(), "msg": b64(&self.hook(hook))}}),
            M::FakeNft { from, id, hook } => json!({"receive_nft": {"sender": self.a(from), "token_id": id, "msg": b64(&self.hook(hook))}}),
            M::Propose { owner, actions } => json!({"create_proposal": self.create(owner, actions)}),
            M::ProposeNft { owner, ids, actions } => json!({"create_proposal_with_nft_deposit": {
                "create_proposal_msg": self.create(owner, actions), "deposit_tokens": ids}}),
            M::CouncilPropose { actions } => json!({"create_council_proposal": self.create(&None, actions)}),
            M::Vote { id, o } => json!({"cast_vote": {"proposal_id": id, "outcome": OUTCOMES[*o as usize]}}),
            M::CouncilVote { id, o } => json!({"cast_council_vote": {"proposal_id": id, "outcome": OUTCOMES[*o as usize]}}),
            M::Execute { id } => json!({"execute_proposal": {"proposal_id": id}}),
            M::ExecuteActions { id } => json!({"execute_proposal_actions": {"proposal_id": id}}),
            M::WeightsChanged(v) => json!({"weights_changed": {"weight_changes": v.iter().map(|(n, o, w)|
                json!({"user": self.a(n), "old_weight": o.to_string(), "new_weight": w.to_string()})).collect::<Vec<_>>()}}),
            M::DeployInitial => json!({"deploy_initial_cross_chain_treasuries": {}}),
            M::PollCreate { ends_in } => json!({"create_poll": {
                "proposer": self.a("u0"), "deposit_amount": "0", "label": "x", "description": "x",
                "scheme": "coin_voting", "ends_at": ends_in.to_string(), "quorum": "0.5", "threshold": "0.5", "veto_threshold": null}}),
            M::PollVote { id, o, voter, amount } => json!({"cast_vote": {"poll_id": id.to_string(), "outcome": OUTCOMES[*o as usize], "voter": self.a(voter), "amount": amount.to_string()}}),
            M::PollUpdate { voter, amount } => json!({"update_votes": {"voter": self.a(voter), "new_amount": amount.to_string()}}),
            M::PollEnd { id, max, early } => json!({"end_poll": {"poll_id": id.to_string(), "maximum_available_votes": max.to_string(), "error_if_already_ended": false, "allow_early_ending": early}}),
            M::Stake { user } => json!({"stake": {"user": self.opt(user)}}),
            M::Unstake { amount } => json!({"unstake": {"amount": amount.to_string()}}),
            M::UnstakeNft { ids } => json!({"unstake": {"nft_ids": ids}}),
            M::Claim { user } => json!({"claim": {"user": self.opt(user)}}),
            M::SetUnlocking { d } => json!({"update_unlocking_period": {"new_unlocking_period": d.map(dur)}}),
            M::AddHook { hook } => json!({"add_weight_change_hook": {"hook_addr": self.a(hook)}}),
            M::RemoveHook { hook } => json!({"remove_weight_change_hook": {"hook_addr": self.a(hook)}}),
            M::UpdateMembers(v) => json!({"update_members": {"update_members": self.weights(v)}}),
            M::SetMembers(v) => json!({"set_members": {"new_members": self.weights(v)}}),
            M::UserWeights(v) => json!({"update_user_weights": {"new_user_weights": self.weights(v)}}),
            M::MinWeight { w } => json!({"update_minimum_eligible_weight": {"minimum_eligible_weight": w.to_string()}}),
            M::DistNative => json!({"distribute_native": {}}),
            M::ClaimRewards { user, natives, cw20s } => json!({"claim_rewards": {"user": self.a(user), "native_denoms": natives, "cw20_assets": self.addrs(cw20s)}}),
            M::SetAdmin { to } => json!({"set_admin": {"new_admin": self.a(to)}}),
            M::TreAssets { add, remove } => json!({"update_asset_whitelist": {"add": self.assets(add), "remove": self.assets(remove)}}),
            M::TreNfts { add, remove } => json!({"update_nft_whitelist": {"add": self.addrs(add), "remove": self.addrs(remove)}}),
            M::Spend { to, assets } => json!({"spend": {"recipient": self.a(to), "assets": self.amounts(assets)}}),
            M::TreDist { dist, funds } => json!({"distribute_funds": {"funds": self.amounts(funds), "funds_distributor_contract": self.a(dist)}}),
            M::Cosmos(v) => json!({"execute_cosmos_msgs": {"msgs": self.msgs(v)}}),
            M::MigStep { limit } => json!({"perform_next_migration_step": {"submsgs_limit": limit}}),
            M::EntMeta { name, f } => json!({"update_metadata": meta_change(name, f)}),
            M::EntUpgrade { to, msgs } => json!({"upgrade_dao": upgrade(to, msgs)}),
            M::SetAttestation { text } => json!({"set_attestation": {"attestation_text": text}}),
            M::RemoveAttestation => json!({"remove_attestation": {}}),
            M::EntMsgs(v) => json!({"execute_msgs": {"msgs": self.msgs(v)}}),
            M::EntConfig { versioning, factory } => json!({"update_config": {
                "new_versioning_contract": change(versioning.as_ref().map(|n| json!(self.a(n)))),
                "new_factory_contract": change(factory.as_ref().map(|n| json!(self.a(n))))}}),
            M::EntFinalize { dao } => {
                let c = |s: &str| self.a(&format!("d{dao}.{s}"));
                json!({"finalize_instantiation": {
                    "enterprise_treasury_contract": c("tre"), "enterprise_governance_contract": c("gov"),
                    "enterprise_governance_controller_contract": c("ctl"), "enterprise_outposts_contract": c("out"),
                    "funds_distributor_contract": c("dist"), "membership_contract": c("mem"),
                    "council_membership_contract": c("cmem"), "attestation_contract": null}})
            }
            M::Sign => json!({"sign_attestation": {}}),
            M::AddVersion { v, k } => json!({"add_version": {"version": version_info(*v, *k)}}),
            M::EditVersion { v, changelog, k, only } => {
                let mut j = json!({"version": ver(*v), "changelog": changelog.as_ref().map(|c| vec![c.clone()])});
                let info = version_info(*v, k.unwrap_or(0));
                for (i, (key, _)) in CODE_FIELDS.iter().enumerate() {
                    let set = k.is_some() && (only.is_empty() || only.contains(&(i as u8)));
                    j[key] = if set { info[key].clone() } else { Value::Null };
                }
                json!({"edit_version": j})
            }
            M::VerAdmin { to } => json!({"update_admin": {"new_admin": self.a(to)}}),
            M::FacConfig { admin, versioning, cw20, cw721 } => json!({"update_config": {"new_admin": self.opt(admin), "new_enterprise_versioning": self.opt(versioning), "new_cw20_code_id": cw20, "new_cw721_code_id": cw721}}),
            M::FacFinalize => json!({"finalize_dao_creation": {}}),
            M::CreateDao(cfg) => {
                let c = self.dao_cfg(cfg);
                match cfg.version {
                    None => json!({"create_dao": c}),
                    Some(v) => json!({"create_dao_with_version": {"create_dao_msg": c, "version": ver(v)}}),
                }
            }
            M::OutDeploy { chain, w } => json!({"deploy_cross_chain_treasury": self.deploy(*chain, *w)}),
            M::ProxyRun(v) => json!({"execute_msgs": {"msgs": v.iter().map(|a| json!({"msg": serde_json::to_value(self.cosmos(a)).unwrap(), "reply_callback": null})).collect::<Vec<_>>()}}),
            M::OutExec { chain, to, amount } => json!({"execute_cross_chain_treasury": {
                "msg": {"spend": {"recipient": self.a(to), "assets": [{"info": {"native": "uosmo"}, "amount": amount.to_string()}]}},
                "treasury_target": {"cross_chain_msg_spec": self.spec(*chain)}}}),
            M::OutRun { chain, m } => json!({"execute_cross_chain_treasury": {
                "msg": self.body(m), "treasury_target": {"cross_chain_msg_spec": self.spec(*chain)}}}),
            M::OutCallback { id } => json!({"execute_msg_reply_callback": {"callback_id": id, "events": [], "data": forged_instantiate_data(&self.a("u0"))}}),
            M::Bump => json!({"bump": {}}),
            M::Fail => json!({"fail": {}}),
            M::Forward(v) => json!({"forward": {"msgs": v.iter().map(|a| serde_json::to_value(self.cosmos(a)).unwrap()).collect::<Vec<_>>()}}),
            M::IcsRegister { class, nft } => json!({"register": {"class_id": class, "nft": self.a(nft)}}),
            M::IcsForward(v) => json!({"forward": {"msgs": v.iter().map(|a| serde_json::to_value(self.cosmos(a)).unwrap()).collect::<Vec<_>>()}}),
            M::IcsCallback { nft, ids, user, mem, junk } => {
                let hook = if *junk { json!({"junk": {}}) } else { json!({"stake": {"user": self.a(user), "membership_contract": self.a(mem)}}) };
                json!({"ics721_receive_callback": {
                    "nft_contract": self.a(nft),
                    "original_packet": {"classId": "class", "classUri": null, "classData": null, "tokenIds": ids,
                        "tokenUris": null, "tokenData": null, "sender": "cosmos1sender", "receiver": self.a("ics721cb"), "memo": null},
                    "msg": b64(&hook)}})
            }
        }
    }
    /// The facade query that drafts the messages.
    pub fn via(&self, contract: &str, v: &Via) -> Value {
        let q = |name: &str, params: Value| json!({name: {"contract": contract, "params": params}});
        let dep = |o: &Option<N>, a: &[PA], x: &Amt| json!({"create_proposal_msg": self.create(o, a), "deposit_amount": x.to_string()});
        let vote = |id: &u64, o: &u8| json!({"proposal_id": id, "outcome": OUTCOMES[*o as usize]});
        match v {
            Via::Propose { owner, actions } => q("create_proposal_adapted", self.create(owner, actions)),
            Via::ProposeDenom { owner, actions, amount } => q("create_proposal_with_denom_deposit_adapted", dep(owner, actions, amount)),
            Via::ProposeToken { owner, actions, amount } => q("create_proposal_with_token_deposit_adapted", dep(owner, actions, amount)),
            Via::ProposeNft { owner, actions, ids } => {
                q("create_proposal_with_nft_deposit_adapted", json!({"create_proposal_msg": self.create(owner, actions), "deposit_tokens": ids}))
            }
            Via::CouncilPropose { actions } => q("create_council_proposal_adapted", self.create(&None, actions)),
            Via::Vote { id, o } => q("cast_vote_adapted", vote(id, o)),
            Via::CouncilVote { id, o } => q("cast_council_vote_adapted", vote(id, o)),
            Via::Execute { id } => q("execute_proposal_adapted", json!({"proposal_id": id})),
            Via::StakeCw20 { user, amount } => q("stake_adapted", json!({"cw20": {"user": self.a(user), "amount": amount.to_string()}})),
            Via::StakeNft { user, ids } => q("stake_adapted", json!({"cw721": {"user": self.a(user), "tokens": ids}})),
            Via::StakeDenom { user, amount } => q("stake_adapted", json!({"denom": {"user": self.a(user), "amount": amount.to_string()}})),
            Via::UnstakeCw20 { amount } => q("unstake_adapted", json!({"cw20": {"amount": amount.to_string()}})),
            Via::UnstakeNft { ids } => q("unstake_adapted", json!({"cw721": {"tokens": ids}})),
            Via::UnstakeDenom { amount } => q("unstake_adapted", json!({"denom": {"amount": amount.to_string()}})),
            Via::Claim => json!({"claim_adapted": {"contract": contract}}),
        }
    }
    pub fn dao_cfg(&self, c: &DaoCfg) -> Value {
        let mem = match &c.mem {
            MemSpec::Denom { denom, unlock } => json!({"new_denom": {"denom": denom, "unlocking_period": dur(*unlock)}}),
            MemSpec::ImportCw20 { tok, unlock } => json!({"import_cw20": {"cw20_contract": self.a(tok), "unlocking_period": dur(*unlock)}}),
            MemSpec::NewCw20 { balances, dao, minter, cap, unlock, look } => json!({"new_cw20": {
                "token_name": look.name(), "token_symbol": look.symbol(), "token_decimals": look.n % 19,
                "initial_token_balances": balances.iter().map(|(n, x)| json!({"address": self.a(n), "amount": x.to_string()})).collect::<Vec<_>>(),
                "initial_dao_balance": dao.map(|x| x.to_string()),
                "token_mint": minter.as_ref().map(|m| json!({"minter": self.a(m), "cap": cap.map(|x| x.to_string())})),
                "token_marketing": look.marketing.as_ref().map(|(p, d, o, l)| json!({
                    "project": p, "description": d, "marketing_owner": self.opt(o), "logo_url": l})),
                "unlocking_period": dur(*unlock)}}),
            MemSpec::ImportCw721 { nft, unlock } => json!({"import_cw721": {"cw721_contract": self.a(nft), "unlocking_period": dur(*unlock)}}),
            MemSpec::NewCw721 { minter, unlock, n } => json!({"new_cw721": {"nft_name": format!("Nft {n}"), "nft_symbol": format!("NFT{n}"), "minter": self.opt(minter), "unlocking_period": dur(*unlock)}}),
            MemSpec::Ics721 { class, unlock } => json!({"new_ics721": {"ics721_proxy": self.a("ics721"), "class_id": class, "unlocking_period": dur(*unlock)}}),
            MemSpec::ImportCw3 { cw3 } => json!({"import_cw3": {"cw3_contract": self.a(cw3)}}),
            MemSpec::NewMultisig { members } => json!({"new_multisig": {"multisig_members": self.weights(members)}}),
        };
        json!({
            "dao_metadata": {"name": c.name, "description": c.meta[0], "logo": logo(&c.meta[1]), "socials": {
                "github_username": c.meta[2], "discord_username": c.meta[3], "twitter_username": c.meta[4], "telegram_username": c.meta[5]}},
            "gov_config": self.gov(&c.gov),
            "dao_council": self.council(&c.council),
            "dao_membership": mem,
            "asset_whitelist": c.assets.as_ref().map(|v| self.assets(v)),
            "nft_whitelist": c.nfts.as_ref().map(|v| self.addrs(v)),
            "minimum_weight_for_rewards": c.min_weight.map(|x| x.to_string()),
            "cross_chain_treasuries": c.xchain.as_ref().map(|v| v.iter().map(|x| self.deploy(x.0, x.1)).collect::<Vec<_>>()),
            "attestation_text": c.attest,
        })
    }
    pub fn cosmos(&self, a: &Act) -> CosmosMsg {
        let coins = |v: &Vec<(String, Amt)>| -> Vec<Coin> {
            v.iter().map(|(d, x)| Coin::new(*x, d.clone())).collect()
        };
        match a {
            Act::Bank { to, coins: c } => BankMsg::Send { to_address: self.a(to), amount: coins(c) }.into(),
            Act::Ex { to, m, funds } => WasmMsg::Execute {
                contract_addr: self.a(to),
                msg: Binary(self.body(m).to_string().into_bytes()),
                funds: coins(funds),
            }
            .into(),
            Act::Migrate { c, code } => WasmMsg::Migrate {
                contract_addr: self.a(c),
                new_code_id: *code,
                msg: Binary(b"{}".to_vec()),
            }
            .into(),
            Act::Garbage => BankMsg::Burn { amount: vec![] }.into(),
        }
    }
}

/// The whitelists a remote treasury starts with.
pub fn deploy_lists(chain: u8, w: u8) -> (Option<Vec<Asset>>, Option<Vec<N>>) {
    let nat = |d: &str| Asset::Nat(d.into());
    let tok = Asset::Cw20(format!("r{chain}.1"));
    match w {
        0 => (Some(vec![nat("uosmo")]), None),
        1 => (None, None),
        2 => (Some(vec![nat("uosmo"), tok]), Some(vec![format!("r{chain}.1")])),
        3 => (Some(vec![Asset::Cw20("bad.remote".into())]), None),
        4 => (Some(vec![nat("uion"), nat("uosmo"), tok]), Some(vec![format!("r{chain}.0"), format!("r{chain}.1")])),
        _ => (None, Some(vec!["u0".into()])),
    }
}

pub fn forged_instantiate_data(addr: &str) -> String {
    let mut out = vec![10u8, addr.len() as u8];
    out.extend_from_slice(addr.as_bytes());
    Binary(out).to_base64()
}

pub fn b64(v: &Value) -> String {
    Binary(v.to_string().into_bytes()).to_base64()
}
pub fn dec(bp: u64) -> String {
    format!("{}.{:04}", bp / 10_000, bp % 10_000)
}
pub fn undec(s: &Value) -> Option<u64> {
    let s = s.as_str()?;
    let (i, f) = match s.split_once('.') {
        Some((i, f)) => (i, f),
        None => (s, ""),
    };
    let mut f = f.to_string();
    while f.len() < 4 {
        f.push('0');
    }
    if f.len() > 4 && f[4..].chars().any(|c| c != '0') {
        return None;
    }
    Some(i.parse::<u64>().ok()? * 10_000 + f[..4].parse::<u64>().ok()?)
}
pub fn dur(d: Dur) -> Value {
    match d {
        Dur::Time(t) => json!({"time": t}),
        Dur::Height(h) => json!({"height": h}),
    }
}
pub fn undur(v: &Value) -> Option<Dur> {
    if let Some(t) = v.get("time") {
        return t.as_u64().map(Dur::Time);
    }
    v.get("height")?.as_u64().map(Dur::Height)
}
pub fn rel(r: Rel) -> Value {
    match r {
        Rel::Time(t) => json!({"timestamp": t.to_string()}),
        Rel::Height(h) => json!({"height": h.to_string()}),
    }
}
pub fn unrel(v: &Value) -> Option<Rel> {
    if let Some(t) = v.get("timestamp") {
        return num(t).map(|x| Rel::Time(x as u64));
    }
    num(v.get("height")?).map(|x| Rel::Height(x as u64))
}
fn change(v: Option<Value>) -> Value {
    match v {
        None => json!("no_change"),
        Some(v) => json!({ "change": v }),
    }
}
/// Accepts numbers and numeric strings.
pub fn num(v: &Value) -> Option<u128> {
    match v {
        Value::Number(n) => n.as_u64().map(|x| x as u128),
        Value::String(s) => s.parse().ok(),
        _ => None,
    }
}
pub fn ver(v: Ver) -> Value {
    json!({"major": v.0, "minor": v.1, "patch": v.2})
}
pub fn unver(v: &Value) -> Option<Ver> {
    Some((v.get("major")?.as_u64()?, v.get("minor")?.as_u64()?, v.get("patch")?.as_u64()?))
}
fn upgrade(to: &Ver, msgs: &[(Ver, bool)]) -> Value {
    json!({"new_version": ver(*to), "migrate_msgs": msgs.iter().map(|(v, good)| json!({
        "version": ver(*v),
        "migrate_msg": b64(&if *good { json!({"move_excess_membership_assets_to": null}) } else { json!("junk") }),
    })).collect::<Vec<_>>()})
}
use crate::codes::{
    ATTESTATION, CONTROLLER, DENOM_STAKING, DISTRIBUTOR, ENTERPRISE, GOVERNANCE, MULTISIG, NFT_STAKING, OUTPOSTS, TOKEN_STAKING, TREASURY,
    VERSION_STRIDE,
};
/// The code ids a release consists of.
pub const CODE_FIELDS: [(&str, u64); 11] = [
    ("attestation_code_id", ATTESTATION),
    ("enterprise_code_id", ENTERPRISE),
    ("enterprise_governance_code_id", GOVERNANCE),
    ("enterprise_governance_controller_code_id", CONTROLLER),
    ("enterprise_outposts_code_id", OUTPOSTS),
    ("enterprise_treasury_code_id", TREASURY),
    ("funds_distributor_code_id", DISTRIBUTOR),
    ("token_staking_membership_code_id", TOKEN_STAKING),
    ("denom_staking_membership_code_id", DENOM_STAKING),
    ("nft_staking_membership_code_id", NFT_STAKING),
    ("multisig_membership_code_id", MULTISIG),
];
pub fn version_info(v: Ver, k: u64) -> Value {
    release_info(v, &format!("release {k}"), &[k; CODE_FIELDS.len()])
}
/// A release whose code ids come from the builds `ks`.
pub fn release_info(v: Ver, log: &str, ks: &[u64; CODE_FIELDS.len()]) -> Value {
    let mut j = json!({"version": ver(v), "changelog": [log]});
    for (i, (key, base)) in CODE_FIELDS.iter().enumerate() {
        j[key] = json!(base + ks[i] * VERSION_STRIDE);
    }
    j
}

/// JSON query against a contract.
pub fn q(c: &Chain, addr: &str, msg: Value) -> Result<Value, String> {
    match c.smart_raw(addr, msg.to_string().as_bytes()) {
        Ok(b) => serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string()),
        Err(crate::chain::QErr::NoContract) => Err(format!("no such contract {addr}")),
        Err(crate::chain::QErr::Contract(s)) => Err(s),
    }
}
