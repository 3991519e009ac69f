#![allow(dead_code)]
mod chain;
mod check;
mod codes;
mod gen;
mod legacy;
mod model;
mod old;
mod rng;
mod run;
mod types;
mod views;
mod world;
mod xmodel;
mod xworld;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("SIM_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("hunt") => {
            // round robin over all properties until the first disagreement (for judging planted changes)
            let n: u64 = args[2].parse().unwrap();
            let base: u64 = args.get(3).map(|x| x.parse().unwrap()).unwrap_or(1);
            let q = model::Quirks { council_votes_rewritten: true };
            for i in 0..n {
                for p in gen::IDS {
                    let o = run::run(run::run_seed(base, p, i), p, "*", q);
                    if let Some((m, _)) = o.found {
                        println!("{p} run {i} {:?} {}", m.tags, m.what);
                        std::process::exit(1);
                    }
                }
            }
            println!("nothing");
        }
        Some("dev") => {
            let prop = &args[2];
            let n: u64 = args[3].parse().unwrap();
            let base: u64 = args.get(4).map(|x| x.parse().unwrap()).unwrap_or(1);
            let t = std::time::Instant::now();
            let mut kinds = std::collections::BTreeMap::new();
            let (mut steps, mut ok, mut refused, mut skipped) = (0, 0, 0, 0);
            let mut evs = std::collections::BTreeMap::new();
            let mut why = std::collections::BTreeMap::new();
            let mut faults = std::collections::BTreeMap::new();
            let q = model::Quirks { council_votes_rewritten: true };
            for i in 0..n {
                let o = run::run(run::run_seed(base, prop, i), prop, "*", q);
                steps += o.steps;
                ok += o.ok;
                refused += o.refused;
                skipped += o.skipped;
                for ((t, s), n) in &o.ev {
                    *evs.entry(*t).or_insert_with(std::collections::BTreeMap::new).entry(s.clone()).or_insert(0u64) += n;
                }
                for (t, n) in &o.why {
                    *why.entry(t.clone()).or_insert(0u64) += n;
                }
                for (t, n) in &o.faults {
                    *faults.entry(*t).or_insert(0u64) += n;
                }
                if let Some((m, tr)) = o.found {
                    let e = kinds.entry(run::class(&m)).or_insert((0, m.clone(), tr.clone()));
                    e.0 += 1;
                }
            }
            println!("{n} runs, {steps} steps, ok {ok}, refused {refused}, skipped {skipped}, {} ms", t.elapsed().as_millis());
            println!("faults {faults:?}");
            if std::env::var("EV").is_ok() {
                let mut v: Vec<_> = why.iter().map(|(a, b)| (*b, a.clone())).collect();
                v.sort();
                v.reverse();
                println!("refused: {v:?}");
                for (t, m) in &evs {
                    println!("{t} {m:?}");
                }
            }
            for (k, (n, m, tr)) in kinds {
                let (tr, m2) = run::minimise(&tr, "*", q, 3000);
                println!("== {n} x {k}\n   {:?} {}\n   min {} steps: {:?} {}", m.tags, m.what, tr.steps.len(), m2.tags, m2.what);
                for s in &tr.steps {
                    println!("      {}", serde_json::to_string(s).unwrap());
                }
            }
        }
        Some("check") => {
            let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
            if !gen::IDS.contains(&args[2].as_str()) || !["quick", "thorough"].contains(&args[3].as_str()) {
                eprintln!("no such check: {} {}", args[2], args[3]);
                std::process::exit(2);
            }
            let dir = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
            std::process::exit(check::check(&args[2], &args[3], base, &dir));
        }
        Some("replay") => std::process::exit(check::replay_file(&args[2])),
        _ => {
            eprintln!("usage: dao-sim check ID quick|thorough | replay FILE | dev PROFILE RUNS [SEED]");
            std::process::exit(2);
        }
    }
}
