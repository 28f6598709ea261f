#![recursion_limit = "512"]
#![allow(dead_code, invalid_reference_casting)]
mod abi;
mod bank;
mod check;
mod gen;
mod hist;
mod host;
mod judge;
#[cfg(feature = "fixed")]
mod layout;
mod math;
mod ops;
mod progs;
mod rng;
mod run;
mod sim;
mod spec;
mod world;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn main() {
    abi::self_check();
    bank::install();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "try" => {
            let focus = num("--focus", 0) as u8;
            let seed = num("--seed", 1);
            let start = num("--start", 0);
            let n = num("--runs", 20);
            let t = std::time::Instant::now();
            let mut st = sim::Stats::default();
            let mut classes: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            for i in start..start + n {
                let r = run::one(run::run_seed(seed, i, focus), focus, &|_| false, None, 10_000);
                for (k, v) in r.st.n {
                    *st.n.entry(k).or_insert(0) += v;
                }
                st.txs += r.st.txs;
                st.states.extend(r.st.states);
                if let Some(b) = r.broke {
                    println!("run {} BROKE {}", i, b);
                }
                for (s, v) in r.viols {
                    let e = classes.entry(v.class.clone()).or_insert((0, i, format!("step {} {:?} {}", s, v.props, v.detail)));
                    e.0 += 1;
                }
            }
            for (k, v) in &st.n {
                println!("{:8} {}", v, k);
            }
            for (k, v) in &classes {
                println!("VIOL {} x{} first run {}: {}", k, v.0, v.1, v.2);
            }
            println!("{} txs {} states {:?}", st.txs, st.states.len(), t.elapsed());
        }
        "show" => {
            let focus = num("--focus", 0) as u8;
            let n = num("--run", 0);
            let class = arg("--class").unwrap_or_default();
            let r = run::one(run::run_seed(num("--seed", 1), n, focus), focus, &|v| !class.is_empty() && v.class == class, None, 10_000);
            println!("{}", serde_json::to_string(&r.setup).unwrap());
            let mut sim = sim::Sim::new(r.setup.clone());
            for (i, s) in r.steps.iter().enumerate() {
                let before: std::collections::BTreeMap<String, u64> = sim.st.n.clone();
                sim.step(s);
                println!("{:3} {}", i, serde_json::to_string(s).unwrap());
                for (k, v) in &sim.st.n {
                    let d = v - before.get(k).unwrap_or(&0);
                    if d > 0 && k.starts_with("op:") {
                        println!("      {} x{}", k, d);
                    }
                }
                for v in sim.viols.drain(..) {
                    println!("      VIOL {} {:?} {}", v.class, v.props, v.detail);
                }
            }
        }
        "check" => {
            let prop: u8 = arg("--prop").map(|p| p.trim_start_matches('P').parse().unwrap_or(0)).unwrap_or(0);
            assert!((1..=24).contains(&prop), "which property?");
            let env = |k: &str| std::env::var(k).ok();
            let tier = arg("--tier").or(env("VERIF_TIER")).unwrap_or_else(|| "quick".into());
            let seed = arg("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
            let root = std::path::PathBuf::from(arg("--root").unwrap_or_else(|| "/verif".into()));
            let (runs, secs) = if tier == "thorough" { (1_000_000, 600) } else { (4800, 200) };
            let c = check::Cfg { prop, seed, tier, runs: num("--runs", runs), secs: num("--secs", secs), root };
            std::process::exit(check::check(&c));
        }
        "survey" => {
            // all focuses in turn; every class seen, with the properties it concerns
            let seed = num("--seed", 1);
            let secs = num("--secs", 60);
            let t = std::time::Instant::now();
            let mut classes: std::collections::BTreeMap<String, (u64, Vec<u8>, String, u64)> = Default::default();
            let mut runs = 0u64;
            let mut broke = vec![];
            'all: for i in 0..num("--runs", 10) {
                for focus in 0..25u8 {
                    if t.elapsed().as_secs() > secs {
                        break 'all;
                    }
                    let r = run::one(run::run_seed(seed, i, focus), focus, &|_| false, None, 10_000);
                    runs += 1;
                    broke.extend(r.broke);
                    for (_, v) in r.viols {
                        let e = classes.entry(v.class.clone()).or_insert((0, vec![], v.detail.clone(), runs));
                        e.0 += 1;
                        for p in v.props {
                            if !e.1.contains(&p) {
                                e.1.push(p);
                            }
                        }
                    }
                }
                let total: u64 = classes.values().map(|c| c.0).sum();
                if total > 3000 {
                    break;
                }
            }
            let c: serde_json::Map<String, serde_json::Value> =
                classes.into_iter().map(|(k, v)| (k, serde_json::json!({"n": v.0, "props": v.1, "detail": v.2, "at": v.3}))).collect();
            std::fs::write(arg("--out").expect("--out"), serde_json::json!({"runs": runs, "classes": c, "broke": broke.len(), "broke0": broke.first()}).to_string()).unwrap();
        }
        "worker" => {
            let skip: Vec<String> = arg("--skip").unwrap_or_default().split('|').filter(|s| !s.is_empty()).map(String::from).collect();
            check::worker(
                num("--prop", 0) as u8,
                num("--seed", 1),
                num("--start", 0),
                num("--stride", 1),
                num("--runs", 1),
                num("--secs", 60),
                &arg("--out").expect("--out"),
                &skip,
                std::env::args().any(|a| a == "--trace"),
            );
        }
        "layout" => {
            for (a, f, o) in abi::layout() {
                println!("    ({:?}, {:?}, {}),", a, f, o);
            }
        }
        "digest" => check::digests(num("--prop", 0) as u8, num("--seed", 1), num("--runs", 10), arg("--order").as_deref() == Some("down"), &arg("--out").expect("--out")),
        "replay" => {
            let f = std::env::args().nth(2).expect("file");
            std::process::exit(check::replay(&f, arg("--class"), false));
        }
        "export" => {
            let r: run::Replay = serde_json::from_slice(&std::fs::read(std::env::args().nth(2).expect("file")).unwrap()).unwrap();
            let mut sim = sim::Sim::new(r.setup.clone());
            sim.rec = Some(vec![]);
            for s in &r.steps {
                sim.step(s);
            }
            std::fs::write(arg("--out").expect("--out"), serde_json::json!({"setup": r.setup, "txs": sim.rec.take()}).to_string()).unwrap();
        }
        "play" => check::play_file(&std::env::args().nth(2).expect("file")),
        "shrink" => check::shrink(&std::env::args().nth(2).expect("file"), &arg("--out").expect("--out"), num("--secs", 60)),
        _ => {
            eprintln!("cysim check --prop Pnn [--tier quick|thorough] [--seed N] | replay FILE | show | try");
            std::process::exit(2);
        }
    }
}
