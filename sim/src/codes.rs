//! Contract registry: the real entry points of every contract in /repo, the real cw20-base and
//! cw721-base, and small stubs for the third-party contracts a DAO meets (cw3, ICS721 bridge,
//! ICS proxy on remote chains, an arbitrary external contract that can fail on demand).
use crate::chain::{CallResult, Code, MsgTransfer, ProtoCoin};
use cosmwasm_std::{
    from_json, to_json_binary, Binary, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo,
    Order, Reply, Response, SubMsg, SubMsgResult,
};
use cw_storage_plus::{Bound, Item, Map};
use prost::Message;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

macro_rules! entry {
    ($f:path, $de:expr, $env:expr, $info:expr, $m:expr) => {{
        let msg = from_json($m).map_err(|x| format!("parse error: {x}"))?;
        $f($de, $env, $info, msg).map_err(|x| x.to_string())
    }};
}

macro_rules! real {
    ($name:literal, $m:ident) => {
        real!(@ $name, $m, |d, e, m| {
            let msg = from_json(m).map_err(|x| format!("parse error: {x}"))?;
            $m::contract::migrate(d, e, msg).map_err(|x| x.to_string())
        })
    };
    (nomigrate $name:literal, $m:ident) => {
        real!(@ $name, $m, |_, _, _| Err("no migrate entry point".to_string()))
    };
    (@ $name:literal, $m:ident, $mig:expr) => {
        Code {
            name: $name,
            instantiate: |d, e, i, m| entry!($m::contract::instantiate, d, e, i, m),
            execute: |d, e, i, m| entry!($m::contract::execute, d, e, i, m),
            query: |d, e, m| {
                let msg = from_json(m).map_err(|x| format!("parse error: {x}"))?;
                $m::contract::query(d, e, msg).map_err(|x| x.to_string())
            },
            reply: |d, e, r| $m::contract::reply(d, e, r).map_err(|x| x.to_string()),
            migrate: $mig,
        }
    };
}

pub const ATTESTATION: u64 = 1;
pub const DENOM_STAKING: u64 = 2;
pub const ENTERPRISE: u64 = 3;
pub const FACADE: u64 = 4;
pub const FACADE_V1: u64 = 5;
pub const FACADE_V2: u64 = 6;
pub const FACTORY: u64 = 7;
pub const GOVERNANCE: u64 = 8;
pub const CONTROLLER: u64 = 9;
pub const OUTPOSTS: u64 = 10;
pub const TREASURY: u64 = 11;
pub const VERSIONING: u64 = 12;
pub const DISTRIBUTOR: u64 = 13;
pub const ICS721_CALLBACK: u64 = 14;
pub const MULTISIG: u64 = 15;
pub const NFT_STAKING: u64 = 16;
pub const TOKEN_STAKING: u64 = 17;
pub const CW20: u64 = 30;
pub const CW721: u64 = 31;
pub const STUB_CW3: u64 = 40;
pub const STUB_ICS721: u64 = 41;
pub const STUB_ICS_PROXY: u64 = 42;
pub const STUB_EXTERNAL: u64 = 43;
pub const STUB_TALIS_NFT: u64 = 44;
pub const STUB_OLD: u64 = 45;

/// Code ids of later releases are the base id plus VERSION_STRIDE * k.
pub const VERSION_STRIDE: u64 = 1000;

fn no_reply(_: DepsMut, _: Env, r: Reply) -> CallResult {
    Err(format!("unexpected reply {}", r.id))
}
fn no_migrate(_: DepsMut, _: Env, _: &[u8]) -> CallResult {
    Err("no migrate entry point".into())
}

pub fn base_codes() -> BTreeMap<u64, Code> {
    let mut c = BTreeMap::new();
    c.insert(ATTESTATION, real!("attestation", attestation));
    c.insert(
        DENOM_STAKING,
        real!("denom-staking-membership", denom_staking_membership),
    );
    c.insert(ENTERPRISE, real!("enterprise", enterprise));
    c.insert(FACADE, real!("enterprise-facade", enterprise_facade));
    c.insert(
        FACADE_V1,
        real!(nomigrate "enterprise-facade-v1", enterprise_facade_v1),
    );
    c.insert(
        FACADE_V2,
        real!(nomigrate "enterprise-facade-v2", enterprise_facade_v2),
    );
    c.insert(FACTORY, real!("enterprise-factory", enterprise_factory));
    c.insert(
        GOVERNANCE,
        real!("enterprise-governance", enterprise_governance),
    );
    c.insert(
        CONTROLLER,
        real!(
            "enterprise-governance-controller",
            enterprise_governance_controller
        ),
    );
    c.insert(OUTPOSTS, real!("enterprise-outposts", enterprise_outposts));
    c.insert(TREASURY, real!("enterprise-treasury", enterprise_treasury));
    c.insert(
        VERSIONING,
        real!("enterprise-versioning", enterprise_versioning),
    );
    c.insert(DISTRIBUTOR, real!("funds-distributor", funds_distributor));
    c.insert(
        ICS721_CALLBACK,
        real!("ics721-callback-proxy", ics721_callback_proxy),
    );
    c.insert(MULTISIG, real!("multisig-membership", multisig_membership));
    c.insert(
        NFT_STAKING,
        real!("nft-staking-membership", nft_staking_membership),
    );
    c.insert(
        TOKEN_STAKING,
        real!("token-staking-membership", token_staking_membership),
    );
    c.insert(
        CW20,
        Code {
            name: "cw20-base",
            instantiate: |d, e, i, m| entry!(cw20_base::contract::instantiate, d, e, i, m),
            execute: |d, e, i, m| entry!(cw20_base::contract::execute, d, e, i, m),
            query: |d, e, m| {
                let msg = from_json(m).map_err(|x| x.to_string())?;
                cw20_base::contract::query(d, e, msg).map_err(|x| x.to_string())
            },
            reply: no_reply,
            migrate: no_migrate,
        },
    );
    c.insert(
        CW721,
        Code {
            name: "cw721-base",
            instantiate: |d, e, i, m| entry!(cw721_base::entry::instantiate, d, e, i, m),
            execute: |d, e, i, m| entry!(cw721_base::entry::execute, d, e, i, m),
            query: |d, e, m| {
                let msg = from_json(m).map_err(|x| x.to_string())?;
                cw721_base::entry::query(d, e, msg).map_err(|x| x.to_string())
            },
            reply: no_reply,
            migrate: no_migrate,
        },
    );
    c.insert(
        STUB_CW3,
        Code {
            name: "stub-cw3",
            instantiate: cw3_inst,
            execute: |_, _, _, _| Err("stub".into()),
            query: cw3_query,
            reply: no_reply,
            migrate: no_migrate,
        },
    );
    c.insert(
        STUB_ICS721,
        Code {
            name: "stub-ics721",
            instantiate: ics721_inst,
            execute: ics721_exec,
            query: ics721_query,
            reply: no_reply,
            migrate: no_migrate,
        },
    );
    c.insert(
        STUB_ICS_PROXY,
        Code {
            name: "stub-ics-proxy",
            instantiate: proxy_inst,
            execute: proxy_exec,
            query: proxy_query,
            reply: proxy_reply,
            migrate: no_migrate,
        },
    );
    c.insert(
        STUB_EXTERNAL,
        Code {
            name: "stub-external",
            instantiate: |_, _, _, _| Ok(Response::new()),
            execute: ext_exec,
            query: ext_query,
            reply: no_reply,
            migrate: |_, _, _| Ok(Response::new()),
        },
    );
    c.insert(
        STUB_OLD,
        Code {
            name: "stub-old-dao",
            instantiate: crate::old::old_inst,
            execute: crate::old::old_exec,
            query: crate::old::old_query,
            reply: no_reply,
            migrate: no_migrate,
        },
    );
    c
}

/// Registers the DAO component codes of a later release under ids shifted by `k * VERSION_STRIDE`.
pub fn add_release(codes: &mut BTreeMap<u64, Code>, k: u64) {
    let base = base_codes();
    for (id, code) in base {
        if id <= TOKEN_STAKING || id == CW20 || id == CW721 {
            codes.insert(id + k * VERSION_STRIDE, code);
        }
    }
}

// ------------------------------------------------------------------------------------- stub cw3
const CW3_VOTERS: Map<String, u64> = Map::new("voters");

fn cw3_inst(d: DepsMut, _: Env, _: MessageInfo, m: &[u8]) -> CallResult {
    let voters: Vec<(String, u64)> = from_json(m).map_err(|x| x.to_string())?;
    for (a, w) in voters {
        CW3_VOTERS
            .save(d.storage, a, &w)
            .map_err(|x| x.to_string())?;
    }
    Ok(Response::new())
}

fn cw3_query(d: Deps, _: Env, m: &[u8]) -> Result<Binary, String> {
    let q: cw3::Cw3QueryMsg = from_json(m).map_err(|x| x.to_string())?;
    match q {
        cw3::Cw3QueryMsg::ListVoters { start_after, limit } => {
            let limit = limit.unwrap_or(10).min(30) as usize;
            let voters = CW3_VOTERS
                .range(
                    d.storage,
                    start_after.map(Bound::exclusive),
                    None,
                    Order::Ascending,
                )
                .take(limit)
                .map(|r| r.map(|(addr, weight)| cw3::VoterDetail { addr, weight }))
                .collect::<Result<Vec<_>, _>>()
                .map_err(|x| x.to_string())?;
            to_json_binary(&cw3::VoterListResponse { voters }).map_err(|x| x.to_string())
        }
        _ => Err("stub".into()),
    }
}

// ---------------------------------------------------------------------------------- stub ics721
const ICS721_CLASSES: Map<String, String> = Map::new("classes");

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum Ics721Query {
    NftContract { class_id: String },
}

/// Any message is {"register": {class_id, nft}} or {"callback": {target, msg}} (forward an ICS721
/// receive callback, as the bridge does after it minted / released the tokens).
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum Ics721Exec {
    Register { class_id: String, nft: String },
    Forward { msgs: Vec<CosmosMsg> },
}

fn ics721_inst(_: DepsMut, _: Env, _: MessageInfo, _: &[u8]) -> CallResult {
    Ok(Response::new())
}
fn ics721_exec(d: DepsMut, _: Env, _: MessageInfo, m: &[u8]) -> CallResult {
    match from_json(m).map_err(|x| x.to_string())? {
        Ics721Exec::Register { class_id, nft } => {
            ICS721_CLASSES
                .save(d.storage, class_id, &nft)
                .map_err(|x| x.to_string())?;
            Ok(Response::new())
        }
        Ics721Exec::Forward { msgs } => {
            Ok(Response::new().add_submessages(msgs.into_iter().map(SubMsg::new)))
        }
    }
}
fn ics721_query(d: Deps, _: Env, m: &[u8]) -> Result<Binary, String> {
    let Ics721Query::NftContract { class_id } = from_json(m).map_err(|x| x.to_string())?;
    let r: Option<String> = ICS721_CLASSES
        .may_load(d.storage, class_id)
        .map_err(|x| x.to_string())?;
    to_json_binary(&r).map_err(|x| x.to_string())
}

// ------------------------------------------------------------------------------- stub ICS proxy
const PROXY_OWNER: Item<Option<String>> = Item::new("owner");
const PROXY_PENDING: Map<u64, ReplyCallback> = Map::new("pending");
const PROXY_NEXT: Item<u64> = Item::new("next");

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ProxyInst {
    pub allow_cross_chain_msgs: bool,
    pub owner: Option<String>,
    pub whitelist: Option<Vec<String>>,
    pub msgs: Option<Vec<CosmosMsg>>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum ProxyExec {
    ExecuteMsgs(ProxyMsgs),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ProxyMsgs {
    pub msgs: Vec<ProxyMsg>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ProxyMsg {
    pub msg: CosmosMsg,
    pub reply_callback: Option<ReplyCallback>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ReplyCallback {
    pub callback_id: u32,
    pub ibc_port: String,
    pub ibc_channel: String,
    pub denom: String,
    pub receiver: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HookMemo {
    pub wasm: HookWasm,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HookWasm {
    pub contract: String,
    pub msg: serde_json::Value,
}

fn proxy_inst(d: DepsMut, _: Env, _: MessageInfo, m: &[u8]) -> CallResult {
    let m: ProxyInst = from_json(m).map_err(|x| x.to_string())?;
    PROXY_OWNER
        .save(d.storage, &m.owner)
        .map_err(|x| x.to_string())?;
    Ok(Response::new())
}

fn proxy_exec(d: DepsMut, _: Env, i: MessageInfo, m: &[u8]) -> CallResult {
    let ProxyExec::ExecuteMsgs(m) = from_json(m).map_err(|x| x.to_string())?;
    if let Some(o) = PROXY_OWNER.load(d.storage).map_err(|x| x.to_string())? {
        if o != i.sender {
            return Err("proxy: unauthorized".into());
        }
    }
    let mut r = Response::new();
    for pm in m.msgs {
        match pm.reply_callback {
            None => r = r.add_submessage(SubMsg::new(pm.msg)),
            Some(cb) => {
                let id = PROXY_NEXT
                    .may_load(d.storage)
                    .map_err(|x| x.to_string())?
                    .unwrap_or(1);
                PROXY_NEXT
                    .save(d.storage, &(id + 1))
                    .map_err(|x| x.to_string())?;
                PROXY_PENDING
                    .save(d.storage, id, &cb)
                    .map_err(|x| x.to_string())?;
                r = r.add_submessage(SubMsg::reply_on_success(pm.msg, id));
            }
        }
    }
    Ok(r)
}

fn proxy_reply(d: DepsMut, env: Env, reply: Reply) -> CallResult {
    let cb = PROXY_PENDING
        .load(d.storage, reply.id)
        .map_err(|x| x.to_string())?;
    PROXY_PENDING.remove(d.storage, reply.id);
    let (events, data): (Vec<Event>, Option<Binary>) = match reply.result {
        SubMsgResult::Ok(r) => (r.events, r.data),
        SubMsgResult::Err(x) => return Err(x),
    };
    let receiver = cb.receiver.clone().ok_or("no receiver")?;
    let memo = HookMemo {
        wasm: HookWasm {
            contract: receiver.clone(),
            msg: serde_json::json!({"execute_msg_reply_callback": {
                "callback_id": cb.callback_id,
                "events": serde_json::to_value(events).map_err(|x| x.to_string())?,
                "data": serde_json::to_value(data).map_err(|x| x.to_string())?,
            }}),
        },
    };
    let t = MsgTransfer {
        source_port: cb.ibc_port,
        source_channel: cb.ibc_channel,
        token: Some(ProtoCoin {
            denom: cb.denom,
            amount: "1".into(),
        }),
        sender: env.contract.address.to_string(),
        receiver,
        timeout_timestamp: env.block.time.plus_seconds(3600).nanos(),
        memo: serde_json::to_string(&memo).map_err(|x| x.to_string())?,
    };
    Ok(Response::new().add_message(CosmosMsg::<Empty>::Stargate {
        type_url: "/ibc.applications.transfer.v1.MsgTransfer".into(),
        value: t.encode_to_vec().into(),
    }))
}

fn proxy_query(d: Deps, _: Env, _: &[u8]) -> Result<Binary, String> {
    to_json_binary(&PROXY_OWNER.load(d.storage).map_err(|x| x.to_string())?)
        .map_err(|x| x.to_string())
}

// -------------------------------------------------------------------------------- stub external
const EXT_COUNT: Item<u64> = Item::new("count");

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum ExtExec {
    Bump {},
    Fail {},
    /// calls back into other contracts (re-entrancy), as this contract
    Forward { msgs: Vec<CosmosMsg> },
    ReceiveNft {},
    /// a membership contract reports: the latest weight of each user is remembered
    WeightsChanged { weight_changes: Vec<serde_json::Value> },
}

pub const EXT_WEIGHTS: Map<(String, String), String> = Map::new("weights");

fn ext_exec(d: DepsMut, _: Env, i: MessageInfo, m: &[u8]) -> CallResult {
    match from_json(m).map_err(|x| x.to_string())? {
        ExtExec::Bump {} => {
            let n = EXT_COUNT
                .may_load(d.storage)
                .map_err(|x| x.to_string())?
                .unwrap_or(0);
            EXT_COUNT
                .save(d.storage, &(n + 1))
                .map_err(|x| x.to_string())?;
            Ok(Response::new())
        }
        ExtExec::Fail {} => Err("external contract failed".into()),
        ExtExec::Forward { msgs } => {
            Ok(Response::new().add_submessages(msgs.into_iter().map(SubMsg::new)))
        }
        ExtExec::ReceiveNft {} => Ok(Response::new()),
        ExtExec::WeightsChanged { weight_changes } => {
            for c in weight_changes {
                let s = |k: &str| c[k].as_str().unwrap_or("?").to_string();
                EXT_WEIGHTS
                    .save(d.storage, (i.sender.to_string(), s("user")), &s("new_weight"))
                    .map_err(|x| x.to_string())?;
            }
            Ok(Response::new())
        }
    }
}
fn ext_query(d: Deps, _: Env, _: &[u8]) -> Result<Binary, String> {
    to_json_binary(
        &EXT_COUNT
            .may_load(d.storage)
            .map_err(|x| x.to_string())?
            .unwrap_or(0),
    )
    .map_err(|x| x.to_string())
}
