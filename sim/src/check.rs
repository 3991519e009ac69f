//! The deciding step: many seeded runs of one property's workload, on all cores; the evidence of
//! what they covered; and the replay file of the first violation.
use crate::model::Quirks;
use crate::run::{minimise, replay, run, run_seed, Trace};
use crate::types::*;
use crate::world::{Step, WCfg};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

const STACK: usize = 512 << 20;

/// A short fixed history that shows whether the known finding K1 is present: the vote of a council
/// member on a council proposal takes over the member's weight in the DAO when that weight changes.
fn k1_trace() -> Trace {
    let cfg = WCfg { users: 3, coins: 1000, nfts_each: 1, releases: 1, remotes: 0, global: vec![], cw3: vec![], salt: 1, views: 0, old: None };
    let ex = |s: &str, to: &str, m: M| Step::tx(s, vec![Act::ex(to, m)]);
    let dao = DaoCfg {
        name: "k1".into(),
        meta: Default::default(),
        gov: Gov { quorum: 5000, threshold: 5000, veto: None, duration: 1000, min_deposit: None, early: false },
        council: Some(Council { members: vec!["u0".into(), "u1".into()], quorum: 5000, threshold: 5000, types: None }),
        mem: MemSpec::Denom { denom: "udao".into(), unlock: Dur::Time(1000) },
        assets: None,
        nfts: None,
        min_weight: None,
        xchain: None,
        attest: None,
        version: Some((1, 0, 0)),
    };
    Trace {
        cfg,
        steps: vec![
            ex("admin", "ver", M::AddVersion { v: (1, 0, 0), k: 0 }),
            ex("u0", "fac", M::CreateDao(Box::new(dao))),
            ex("u0", "d0.ctl", M::CouncilPropose { actions: vec![] }),
            ex("u0", "d0.ctl", M::CouncilVote { id: 1, o: 0 }),
            Step::tx("u0", vec![Act::exf("d0.mem", M::Stake { user: None }, vec![("udao".into(), 7)])]),
        ],
    }
}

/// What of the known findings the code under test shows.
pub fn quirks() -> Quirks {
    let bad = |q: Quirks| {
        let o = replay(&k1_trace(), "*", q);
        o.found.is_some() || o.foreign.is_some()
    };
    let q = Quirks { council_votes_rewritten: true };
    if !bad(q) {
        return q;
    }
    Quirks { council_votes_rewritten: false }
}

const K1: [&str; 3] = ["C01", "G01", "M02"];

fn known(prop: &str, q: Quirks) {
    if q.council_votes_rewritten && K1.contains(&prop) {
        println!("KNOWN-FINDING: property={prop} K1: a change of a council member's weight in the DAO overwrites the amount of that member's votes on open council proposals (council vote by u0, then u0 stakes 7: the council tally becomes 7)");
    }
}

#[derive(Default)]
struct Sum {
    runs: u64,
    steps: u64,
    txs: u64,
    ok: u64,
    refused: u64,
    skipped: u64,
    checks: u64,
    sim_ns: u128,
    faults: BTreeMap<String, u64>,
    ev: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    ends: BTreeSet<u64>,
    exercised: u64,
    foreign: BTreeMap<String, u64>,
    errors: u64,
    found: Option<(u64, u64, String, Trace)>,
    sample: Vec<(u64, Value)>,
}

fn sample(seed: u64, i: u64, o: &crate::run::RunOut) -> Value {
    let head: Vec<Value> = o.head.iter().map(|s| serde_json::to_value(s).unwrap()).collect();
    json!({"run": i, "seed": format!("{seed:016x}"), "steps": o.steps, "first_steps": head,
           "final_state_digest": format!("{:016x}", o.digest)})
}

pub struct Plan {
    pub runs: u64,
    pub wall: u64,
    pub long: bool,
}
pub fn plan(tier: &str, prop: &str) -> Plan {
    let get = |k: &str, d: u64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    if tier == "thorough" {
        Plan { runs: get("SIM_RUNS", 60_000), wall: get("SIM_WALL", 780), long: true }
    } else {
        // the views are dear
        let runs = if matches!(prop, "V01" | "V02" | "Q01") { 2_200 } else { 4_000 };
        Plan { runs: get("SIM_RUNS", runs), wall: get("SIM_WALL", 150), long: false }
    }
}

/// The exit code of the check.
pub fn check(prop: &str, tier: &str, base: u64, dir: &str) -> i32 {
    let t0 = Instant::now();
    println!("seed {base}, property {prop}, tier {tier}");
    let pl = plan(tier, prop);
    let q = std::thread::Builder::new().stack_size(STACK).spawn(quirks).unwrap().join().unwrap_or(Quirks { council_votes_rewritten: true });
    known(prop, q);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16);
    let next = AtomicU64::new(0);
    // runs above this index are not needed any more
    let limit = AtomicU64::new(pl.runs);
    let sum = Mutex::new(Sum::default());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= limit.load(Ordering::SeqCst) || t0.elapsed().as_secs() > pl.wall {
                        break;
                    }
                    let seed = run_seed(base, prop, i);
                    let r = std::panic::catch_unwind(|| run(seed, prop, prop, q));
                    let mut s = sum.lock().unwrap();
                    let o = match r {
                        Ok(o) => o,
                        Err(_) => {
                            s.errors += 1;
                            continue;
                        }
                    };
                    s.runs += 1;
                    s.steps += o.steps;
                    s.txs += o.txs;
                    s.ok += o.ok;
                    s.refused += o.refused;
                    s.skipped += o.skipped;
                    s.checks += o.checks;
                    s.sim_ns += o.simulated_ns as u128;
                    for (k, n) in &o.faults {
                        *s.faults.entry(k.to_string()).or_insert(0) += n;
                    }
                    for (k, n) in [
                        ("mempool_reordered", o.gen.reordered),
                        ("mempool_duplicated", o.gen.duplicated),
                        ("mempool_dropped", o.gen.dropped),
                        ("mempool_delayed", o.gen.delayed),
                    ] {
                        *s.faults.entry(k.to_string()).or_insert(0) += n;
                    }
                    let mut hit = false;
                    for ((t, e), n) in &o.ev {
                        if *t == prop {
                            hit = true;
                            *s.ev.entry(e.clone()).or_insert(0) += n;
                        }
                    }
                    if hit {
                        if s.ends.insert(o.digest) {
                            s.exercised += 1;
                        }
                    }
                    s.states.extend(o.states.iter().copied());
                    if i < 2 {
                        s.sample.push((i, sample(seed, i, &o)));
                    }
                    if let Some(m) = &o.foreign {
                        let k = format!("{:?} {}", m.tags, m.what);
                        *s.foreign.entry(k.chars().take(200).collect()).or_insert(0) += 1;
                    }
                    if let Some((m, t)) = o.found {
                        let better = s.found.as_ref().map(|x| i < x.0).unwrap_or(true);
                        if better {
                            s.found = Some((i, seed, m.what.clone(), t));
                            limit.fetch_min(i, Ordering::SeqCst);
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut s = sum.into_inner().unwrap();
    let explored = t0.elapsed().as_secs_f64();
    // the same seeds again: the simulation has to be a function of the seed
    let again = std::thread::Builder::new().stack_size(STACK).spawn({
        let prop = prop.to_string();
        move || {
            let mut diff = 0;
            let n = 6;
            for i in 0..n {
                let seed = run_seed(base, &prop, i);
                let d = |o: crate::run::RunOut| (o.steps, o.digest, o.checks, o.ok);
                let a = std::panic::catch_unwind(|| d(run(seed, &prop, &prop, q))).unwrap_or_default();
                let b = std::panic::catch_unwind(|| d(run(seed, &prop, &prop, q))).unwrap_or_default();
                if a != b {
                    diff += 1;
                }
            }
            (n, diff)
        }
    });
    let (reran, differ) = again.unwrap().join().unwrap_or((0, 0));
    s.sample.sort_by_key(|x| x.0);
    let mut code = 0;
    if let Some((i, seed, what, t)) = s.found.take() {
        let p2 = prop.to_string();
        let budget = if tier == "thorough" { 120_000 } else { 40_000 };
        let (mt, mis) = std::thread::Builder::new().stack_size(STACK).spawn(move || minimise(&t, &p2, q, budget)).unwrap().join().unwrap();
        let rdir = format!("{dir}/replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = format!("{rdir}/{prop}-{base}-{i}.json");
        let doc = json!({"property": prop, "verif_seed": base, "run": i, "run_seed": format!("{seed:016x}"),
            "violation": mis.what, "first_seen_as": what,
            "known_findings": {"council_votes_rewritten": q.council_votes_rewritten},
            "cfg": mt.cfg, "steps": mt.steps});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("violation in run {i} (run seed {seed:016x}), {} steps after minimisation:", mt.steps.len());
        println!("  {}", mis.what);
        for st in &mt.steps {
            println!("    {}", serde_json::to_string(st).unwrap());
        }
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.exercised,
            "rule": format!("one evaluation is one simulated run: a chain with the real contracts, a seeded workload and fault schedule, the reference model next to it. It counts as distinct and non-trivial when the property's own events happened in it (event kinds below) and its final chain state differs from that of every other counted run"),
            "samples": s.sample.into_iter().map(|x| x.1).collect::<Vec<_>>(),
            "steps": s.steps, "transactions": s.txs, "transactions_accepted": s.ok, "transactions_refused": s.refused,
            "outside_the_model_not_sent": s.skipped,
            "comparisons_with_the_model": s.checks,
            "simulated_seconds": (s.sim_ns / 1_000_000_000) as u64,
            "runs_per_hour": (s.runs as f64 / explored * 3600.0) as u64,
            "seeds_per_hour": (s.runs as f64 / explored * 3600.0) as u64,
            "faults_and_schedule_events_fired": s.faults,
            "event_kinds_of_the_property": s.ev,
            "distinct_chain_states_sampled": s.states.len(),
            "state_measure": "digest of the complete storage, balances and contract metadata of the chain, taken after every 8th step",
            "runs_ended_by_a_disagreement_about_another_property": s.foreign,
            "harness_errors": s.errors,
            "determinism": {"runs_repeated": reran, "runs_that_differed": differ},
            "real_code": ["attestation", "denom-staking-membership", "enterprise", "enterprise-facade", "enterprise-facade-v1", "enterprise-facade-v2", "enterprise-factory", "enterprise-governance", "enterprise-governance-controller", "enterprise-outposts", "enterprise-treasury", "enterprise-versioning", "funds-distributor", "ics721-callback-proxy", "multisig-membership", "nft-staking-membership", "token-staking-membership", "cw20-base", "cw721-base"],
            "stubs": ["chain: blocks, clock, bank, wasm dispatch with replies and rollback, IBC transfer", "cw3 multisig to import from", "ics721 bridge", "IBC proxy on remote chains", "external target contract", "DAO contract from before the rewrite"],
        },
        "assumptions": [
            "a transaction is atomic: the chain rolls back all writes of a failed message tree (the simulator does)",
            "messages are dispatched depth first, as in the Cosmos SDK wasm module",
        ],
        "wall_s": wall,
        "violations": code,
    });
    std::fs::create_dir_all(format!("{dir}/evidence")).unwrap();
    std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs, {} transactions, {} comparisons, {:.1} simulated days, {:.0} s",
        s.runs,
        s.txs,
        s.checks,
        s.sim_ns as f64 / 86_400e9,
        wall
    );
    if code == 0 && s.runs == 0 {
        eprintln!("no run completed ({} harness errors)", s.errors);
        return 2;
    }
    code
}

/// Replays a file written by `check`.
pub fn replay_file(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let prop = v["property"].as_str().unwrap().to_string();
    let t = Trace { cfg: serde_json::from_value(v["cfg"].clone()).unwrap(), steps: serde_json::from_value(v["steps"].clone()).unwrap() };
    let q = Quirks { council_votes_rewritten: v["known_findings"]["council_votes_rewritten"].as_bool().unwrap_or(true) };
    let o = std::thread::Builder::new().stack_size(STACK).spawn({
        let prop = prop.clone();
        move || replay(&t, &prop, q)
    });
    let o = o.unwrap().join().unwrap();
    match o.found {
        Some((m, _)) => {
            println!("{}", m.what);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("no violation of {prop}; final state {:016x}", o.digest);
            0
        }
    }
}
