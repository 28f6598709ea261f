//! The commands behind a property's check: worker processes that run seeds, the parent that watches
//! them, minimises and confirms what they find, and writes the evidence.
use crate::judge::{self, viol, Viol};
use crate::run::{self, Replay};
use crate::sim::Step;
use crate::world::Setup;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
/// a step that takes this long does not end: the slowest takes well under a second
const STALL: Duration = Duration::from_secs(25);

/// situations that must have come up in a run for it to say something about the property: one of
/// each group
fn groups(prop: u8) -> &'static [&'static [&'static str]] {
    const TRADE: &[&str] = &["op:swap:ok", "op:exact_input_single:ok", "op:exact_input:ok"];
    match prop {
        1 => &[TRADE, &["op:burn:ok", "op:collect:ok", "op:decrease_liquidity:ok", "probe:exited"]],
        2 => &[&["probe:swap-crossing", "probe:swap-many-crossings", "probe:swap-several-words"]],
        3 => &[TRADE],
        4 => &[&["op:exact_input_single:", "op:exact_input:", "op:mint_tokenized_position:", "op:increase_liquidity:", "op:decrease_liquidity:"]],
        5 => &[TRADE, &["op:burn:ok", "op:collect:ok", "op:mint:ok"]],
        6 => &[TRADE, &["op:collect_protocol:ok"]],
        7 => &[&["op:mint:ok"], &["op:burn:ok", "op:decrease_liquidity:ok"]],
        8 => &[TRADE],
        9 => &[&["fault:forged", ":refused:missing-signature", ":refused:not-"]],
        10 => &[&["op:mint_tokenized_position:ok"], &["op:increase_liquidity:ok", "op:decrease_liquidity:ok", "op:collect_from_tokenized:ok"]],
        11 => &[&["fault:callback", "op:mint_callback", "op:swap_callback"]],
        12 => &[&["fault:callback-reenters", "fault:aborted", "fault:token-call", "fault:callback-fails"]],
        13 => &[&["probe:oracle-advance", "probe:oracle-overwrite", "probe:oracle-wrap"]],
        14 => &[&["probe:oracle-advance", "probe:oracle-wrap", "probe:oracle-grown"]],
        15 => &[&["probe:swap-crossing"], &["clock:", "fault:clock-jump"]],
        16 => &[&["commuted", "fault:forged"]],
        17 => &[&["probe:exited"]],
        18 => &[&["probe:had-to-go-through"]],
        19 => &[&["op:init_tick_account:ok", "op:close_tick_account:ok"], &[":refused:already-initialized", ":refused:bad-", ":refused:tick-", "op:close_tick_account:"]],
        20 => &[TRADE, &["op:burn:ok", "op:collect:ok"]],
        21 => &[&["fault:replayed", "replayed-at-once"]],
        22 => &[&["op:mint_tokenized_position:ok"]],
        23 => &[&["op:mint:ok", "op:increase_liquidity:ok", "op:mint_tokenized_position:ok"], &["op:burn:ok", "op:decrease_liquidity:ok", "probe:there-and-back"]],
        24 => &[&["op:collect:ok", "op:collect_from_tokenized:ok"], TRADE],
        _ => &[],
    }
}
fn nontrivial(prop: u8, n: &BTreeMap<String, u64>) -> bool {
    groups(prop).iter().all(|g| g.iter().any(|p| n.iter().any(|(k, c)| *c > 0 && (if p.starts_with(':') { k.contains(p) } else { k.starts_with(p) }))))
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    first: u64,
    done: Vec<u64>,
    n: BTreeMap<String, u64>,
    txs: u64,
    sim_time: u64,
    states: Vec<u64>,
    traces: Vec<u64>,
    nontrivial: Vec<u64>,
    steps: u64,
    broke: Vec<String>,
    other: BTreeMap<String, u64>,
    digests: Vec<(u64, u64)>,
    hit: Option<Replay>,
    sample: Option<Value>,
    busy: f64,
}

fn names(props: &[u8]) -> String {
    props.iter().map(|p| format!("P{:02}", p)).collect::<Vec<_>>().join(",")
}
pub fn pname(p: u8) -> String {
    format!("P{:02}", p)
}

pub struct Known {
    pub class: String,
    pub file: PathBuf,
    pub what: String,
    pub property: String,
}
pub fn known(root: &Path, prop: u8) -> Vec<Known> {
    let s = fs::read_to_string(root.join("known-findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
    let mut out = vec![];
    for k in v["known"].as_array().cloned().unwrap_or_default() {
        let ps: Vec<String> = k["properties"].as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_str().map(String::from)).collect();
        if ps.contains(&pname(prop)) {
            out.push(Known {
                class: k["class"].as_str().unwrap_or("").into(),
                file: root.join(k["replay"].as_str().unwrap_or("")),
                what: k["what"].as_str().unwrap_or("").into(),
                property: pname(prop),
            });
        }
    }
    out
}

/// one worker process: runs `first`, `first + stride`, ... until told to stop
pub fn worker(prop: u8, seed: u64, first: u64, stride: u64, until: u64, secs: u64, out: &str, skip_classes: &[String], trace: bool) {
    let hb = fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}.hb", out)).expect("heartbeat");
    let mut steps_log = if trace { Some(fs::File::create(format!("{}.steps", out)).expect("steps")) } else { None };
    let mut rep = Report { first, ..Default::default() };
    let (mut states, mut traces, mut nt) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let t0 = Instant::now();
    let mut i = first;
    let mut beat = 0u64;
    while i < until && t0.elapsed() < Duration::from_secs(secs) {
        let stop = |v: &Viol| v.props.contains(&prop) && !skip_classes.contains(&v.class);
        let mut watch = |su: &Setup, s: &Step| {
            beat += 1;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&i.to_le_bytes());
            b[8..].copy_from_slice(&beat.to_le_bytes());
            let _ = hb.write_all_at(&b, 0);
            if let Some(f) = steps_log.as_mut() {
                use std::io::Write;
                let _ = writeln!(f, "{}", serde_json::to_string(&json!({"setup": su, "step": s})).unwrap());
            }
        };
        let r = run::one(run::run_seed(seed, i, prop), prop, &stop, Some(&mut watch), 10_000);
        rep.done.push(i);
        for (k, n) in &r.st.n {
            *rep.n.entry(k.clone()).or_insert(0) += n;
        }
        rep.txs += r.st.txs;
        rep.sim_time += r.st.sim_time;
        rep.steps += r.steps.len() as u64;
        states.extend(r.st.states.iter().copied());
        traces.insert(r.trace);
        if nontrivial(prop, &r.st.n) {
            nt.insert(r.trace);
        }
        if rep.digests.len() < 40 {
            rep.digests.push((i, r.digest));
        }
        if rep.sample.is_none() && r.steps.len() > 20 && nontrivial(prop, &r.st.n) {
            rep.sample = Some(json!({"run": i, "seed": seed, "setup": r.setup, "steps": r.steps.len(), "first_steps": &r.steps[..r.steps.len().min(14)], "digest": format!("{:016x}", r.digest)}));
        }
        for (_, v) in &r.viols {
            if !stop(v) {
                *rep.other.entry(format!("{} [{}]", v.class, names(&v.props))).or_insert(0) += 1;
            }
        }
        if let Some(b) = &r.broke {
            if rep.broke.len() < 5 {
                rep.broke.push(format!("run {}: {}", i, b));
            }
        }
        if let Some((k, v)) = r.viols.iter().find(|(_, v)| stop(v)) {
            rep.hit = Some(Replay {
                property: pname(prop),
                class: v.class.clone(),
                detail: v.detail.clone(),
                seed,
                run: i,
                found_after_steps: *k,
                setup: r.setup.clone(),
                steps: r.steps[..=*k].to_vec(),
                hang: false,
                warm: None,
                focus: prop,
            });
            break;
        }
        i += stride;
    }
    rep.states = states.into_iter().collect();
    rep.traces = traces.into_iter().collect();
    rep.nontrivial = nt.into_iter().collect();
    rep.busy = t0.elapsed().as_secs_f64();
    let tmp = format!("{}.tmp", out);
    fs::write(&tmp, serde_json::to_vec(&rep).unwrap()).expect("report");
    fs::rename(&tmp, out).expect("report");
}

/// ourselves, with bounded memory and without output (the code under test prints)
fn spawn(args: &[String]) -> Child {
    let exe = std::env::current_exe().expect("exe");
    Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 6000000; exec \"$0\" \"$@\"")
        .arg(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn")
}
fn wait(c: &mut Child, limit: Duration) -> Option<i32> {
    let end = Instant::now() + limit;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s.code().unwrap_or(-1));
        }
        if Instant::now() > end {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

struct Slot {
    child: Child,
    out: PathBuf,
    first: u64,
    seen: Option<(u64, u64)>,
    at: Instant,
    over: bool,
}

/// which properties an execution that never ends (or kills the process) breaks
fn hang_props(s: &Step) -> Vec<u8> {
    let mut v = match s {
        Step::Exit { .. } => vec![17],
        Step::Live { .. } => vec![18],
        Step::Round { .. } => vec![3, 18],
        Step::Patience { .. } => vec![5, 17, 18],
        Step::There { .. } => vec![17, 18, 23],
        Step::Tx(t) | Step::Submit { tx: t, .. } => judge::live_props(&t.ops),
        Step::Commute { a, b } => {
            let mut v = judge::live_props(&a.ops);
            v.extend(judge::live_props(&b.ops));
            v
        }
        _ => vec![18],
    };
    v.push(18);
    v.push(2);
    v.sort();
    v.dedup();
    v
}

pub struct Cfg {
    pub prop: u8,
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub secs: u64,
    pub root: PathBuf,
}

pub fn check(c: &Cfg) -> i32 {
    let t0 = Instant::now();
    let scratch = c.root.join(format!("target/scratch/{}-{}", pname(c.prop), std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch");
    let code = check_in(c, &scratch, t0);
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn check_in(c: &Cfg, scratch: &Path, t0: Instant) -> i32 {
    let kn = known(&c.root, c.prop);
    let mut known_lines = vec![];
    for k in &kn {
        let rc = wait(&mut spawn(&strs(&["replay", k.file.to_str().unwrap(), "--class", &k.class])), Duration::from_secs(60));
        if rc == Some(1) {
            println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            known_lines.push(k.what.clone());
        }
    }
    let skip: Vec<String> = kn.iter().map(|k| k.class.clone()).collect();
    let arg = |first: u64, stride: u64, until: u64, secs: u64, out: &Path, trace: bool| {
        let mut a = strs(&["worker", "--prop", &c.prop.to_string(), "--seed", &c.seed.to_string(), "--start", &first.to_string(), "--stride", &stride.to_string()]);
        a.extend(strs(&["--runs", &until.to_string(), "--secs", &secs.to_string(), "--out", out.to_str().unwrap(), "--skip", &skip.join("|")]));
        if trace {
            a.push("--trace".into());
        }
        a
    };
    let mut slots: Vec<Slot> = vec![];
    let mut serial = 0;
    let search0 = Instant::now();
    for w in 0..WORKERS {
        let out = scratch.join(format!("w{}", serial));
        serial += 1;
        slots.push(Slot { child: spawn(&arg(w, WORKERS, c.runs, c.secs, &out, false)), out, first: w, seen: None, at: Instant::now(), over: false });
    }
    let mut reps: Vec<Report> = vec![];
    let mut stuck: Vec<(u64, u64, &'static str)> = vec![];
    let mut hit_at: Option<Instant> = None;
    let mut lost = vec![];
    while slots.iter().any(|s| !s.over) {
        std::thread::sleep(Duration::from_millis(30));
        let mut restart: Vec<u64> = vec![];
        for s in slots.iter_mut().filter(|s| !s.over) {
            let mut b = [0u8; 16];
            let now = fs::File::open(s.out.with_extension("hb")).ok().and_then(|f| f.read_exact_at(&mut b, 0).ok()).map(|_| {
                (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap()))
            });
            if now != s.seen {
                s.seen = now;
                s.at = Instant::now();
            }
            let ended = s.child.try_wait().ok().flatten();
            if ended.is_some() {
                s.over = true;
                match fs::read(&s.out).ok().and_then(|b| serde_json::from_slice::<Report>(&b).ok()) {
                    Some(r) => {
                        if r.hit.is_some() && hit_at.is_none() {
                            hit_at = Some(Instant::now());
                        }
                        reps.push(r)
                    }
                    None => match s.seen {
                        Some((run, _)) => {
                            stuck.push((run, s.first, "ends the process"));
                            restart.push(run + WORKERS);
                        }
                        None => lost.push(format!("worker {} ended without a report", s.first)),
                    },
                }
            } else if s.at.elapsed() > STALL {
                let _ = s.child.kill();
                let _ = s.child.wait();
                s.over = true;
                if let Some((run, _)) = s.seen {
                    stuck.push((run, s.first, "never ends"));
                    restart.push(run + WORKERS);
                } else {
                    lost.push(format!("worker {} never started", s.first));
                }
            }
        }
        if stuck.len() < 6 {
            for first in restart {
                let spent = search0.elapsed().as_secs();
                if first < c.runs && spent + 5 < c.secs {
                    let out = scratch.join(format!("w{}", serial));
                    serial += 1;
                    slots.push(Slot { child: spawn(&arg(first, WORKERS, c.runs, c.secs - spent, &out, false)), out, first, seen: None, at: Instant::now(), over: false });
                }
            }
        }
        if hit_at.map(|t| t.elapsed() > Duration::from_millis(1500)).unwrap_or(false) {
            for s in slots.iter_mut().filter(|s| !s.over) {
                let _ = s.child.kill();
                let _ = s.child.wait();
                s.over = true;
            }
        }
    }
    let search = search0.elapsed().as_secs_f64();

    // what was found: the earliest run first
    let mut hits: Vec<(Replay, u64)> = reps.iter().filter_map(|r| r.hit.clone().map(|h| (h, r.first))).collect();
    hits.sort_by_key(|h| h.0.run);
    let mut found: Option<Replay> = None;
    if let Some((h, first)) = hits.first() {
        found = Some(settle(c, scratch, h.clone(), *first));
    }
    if found.is_none() {
        for (run, _, how) in &stuck {
            if let Some(r) = stuck_replay(c, scratch, *run, how, &arg) {
                found = Some(r);
                break;
            }
        }
    }
    let mut processes = json!(null);
    if found.is_none() {
        let (v, r) = across_processes(c, scratch, &reps, if c.prop == 21 { c.runs.min(if c.tier == "quick" { 240 } else { 2400 }) } else { 16 });
        processes = v;
        if c.prop == 21 {
            found = r;
        }
    }
    let mut total = Report::default();
    let mut states = BTreeSet::new();
    let mut traces = BTreeSet::new();
    let mut nt = BTreeSet::new();
    let mut done = 0u64;
    let mut samples = vec![];
    for r in &reps {
        done += r.done.len() as u64;
        for (k, n) in &r.n {
            *total.n.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &r.other {
            *total.other.entry(k.clone()).or_insert(0) += n;
        }
        total.txs += r.txs;
        total.sim_time += r.sim_time;
        total.steps += r.steps;
        total.broke.extend(r.broke.iter().cloned());
        states.extend(r.states.iter().copied());
        traces.extend(r.traces.iter().copied());
        nt.extend(r.nontrivial.iter().copied());
        if samples.len() < 2 {
            samples.extend(r.sample.clone());
        }
    }
    let mut line = None;
    if let Some(f) = &found {
        let dir = c.root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-run{}.json", pname(c.prop), f.seed, f.run));
        fs::write(&path, serde_json::to_string_pretty(f).unwrap()).expect("replay file");
        println!("{}: {}", f.class, f.detail);
        println!("seed {} run {}: {} steps, minimised from {}", f.seed, f.run, f.steps.len(), f.found_after_steps + 1);
        line = Some(format!("VIOLATION property={} replay={}", pname(c.prop), path.display()));
    }
    evidence(c, &total, done, &states, &traces, &nt, samples, &processes, search, t0.elapsed().as_secs_f64(), &found, &known_lines, &stuck, &lost);
    println!(
        "{}: {} runs, {} transactions, {} distinct runs, {} of them relevant, {} abstract states, {:.0} s",
        pname(c.prop),
        done,
        total.txs,
        traces.len(),
        nt.len(),
        states.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, n) in total.other.iter().take(20) {
        println!("note: a disagreement that concerns other properties: {} x{}", k, n);
    }
    if let Some(l) = line {
        println!("{}", l);
        return 1;
    }
    for b in total.broke.iter().take(5) {
        println!("harness error: {}", b);
    }
    for b in &lost {
        println!("harness error: {}", b);
    }
    for (run, _, how) in &stuck {
        println!("note: run {} {}", run, how);
    }
    if !total.broke.is_empty() || !lost.is_empty() || done == 0 {
        return 2;
    }
    0
}

/// minimise and confirm in a fresh process
fn settle(c: &Cfg, scratch: &Path, h: Replay, first: u64) -> Replay {
    let raw = scratch.join("raw.json");
    let small = scratch.join("small.json");
    fs::write(&raw, serde_json::to_vec(&h).unwrap()).expect("raw");
    let fails = |p: &Path| wait(&mut spawn(&strs(&["replay", p.to_str().unwrap()])), Duration::from_secs(300)) == Some(1);
    if fails(&raw) {
        let _ = wait(&mut spawn(&strs(&["shrink", raw.to_str().unwrap(), "--out", small.to_str().unwrap(), "--secs", "60"])), Duration::from_secs(120));
        if small.exists() && fails(&small) {
            if let Some(r) = fs::read(&small).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                return r;
            }
        }
        return h;
    }
    // depends on what the process did before: replay all of that
    let mut w = h.clone();
    w.warm = Some((first, WORKERS));
    w.detail = format!("{} (only after the runs before it in the same process)", w.detail);
    fs::write(&raw, serde_json::to_vec(&w).unwrap()).expect("raw");
    let _ = c;
    let _ = fails(&raw);
    w
}

fn stuck_replay(c: &Cfg, scratch: &Path, run: u64, how: &str, arg: &dyn Fn(u64, u64, u64, u64, &Path, bool) -> Vec<String>) -> Option<Replay> {
    let out = scratch.join(format!("stuck{}", run));
    let mut ch = spawn(&arg(run, 1, run + 1, 600, &out, true));
    let log = out.with_extension("steps");
    let mut size = 0;
    let mut at = Instant::now();
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if ch.try_wait().ok().flatten().is_some() {
            break;
        }
        let n = fs::metadata(&log).map(|m| m.len()).unwrap_or(0);
        if n != size {
            size = n;
            at = Instant::now();
        }
        if at.elapsed() > STALL {
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
    }
    if out.exists() {
        return None; // ended this time
    }
    let text = fs::read_to_string(&log).ok()?;
    let mut steps = vec![];
    let mut setup = None;
    for l in text.lines() {
        let v: Value = serde_json::from_str(l).ok()?;
        setup = serde_json::from_value(v["setup"].clone()).ok();
        steps.push(serde_json::from_value::<Step>(v["step"].clone()).ok()?);
    }
    let last = steps.last()?;
    if !hang_props(last).contains(&c.prop) {
        return None;
    }
    Some(Replay {
        property: pname(c.prop),
        class: "hang".into(),
        detail: format!("the last step {}", how),
        seed: c.seed,
        run,
        found_after_steps: steps.len() - 1,
        setup: setup?,
        steps,
        hang: true,
        warm: None,
        focus: c.prop,
    })
}

/// the same runs in fresh processes, in both orders, give the same digests
fn across_processes(c: &Cfg, scratch: &Path, reps: &[Report], n: u64) -> (Value, Option<Replay>) {
    let mut outs = vec![];
    for (i, order) in ["up", "down"].iter().enumerate() {
        let out = scratch.join(format!("digest-{}", i));
        let a = strs(&["digest", "--prop", &c.prop.to_string(), "--seed", &c.seed.to_string(), "--runs", &n.to_string(), "--order", order, "--out", out.to_str().unwrap()]);
        outs.push((spawn(&a), out));
    }
    let mut maps: Vec<BTreeMap<u64, u64>> = vec![];
    for (mut ch, out) in outs {
        let _ = wait(&mut ch, Duration::from_secs(400));
        let m: Vec<(u64, u64)> = fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
        maps.push(m.into_iter().collect());
    }
    let mut third = BTreeMap::new();
    for r in reps {
        third.extend(r.digests.iter().copied());
    }
    maps.push(third);
    let mut compared = 0u64;
    let mut differ = vec![];
    for i in 0..n {
        let d: BTreeSet<u64> = maps.iter().filter_map(|m| m.get(&i).copied()).collect();
        compared += maps.iter().filter(|m| m.contains_key(&i)).count() as u64;
        if d.len() > 1 {
            differ.push(i);
        }
    }
    let v = json!({"runs_repeated": n, "executions_compared": compared, "digests_that_differ": differ.len()});
    let r = differ.first().map(|i| {
        let r = run::one(run::run_seed(c.seed, *i, c.prop), c.prop, &|_| false, None, 10_000);
        Replay {
            property: pname(c.prop),
            class: "replay:process".into(),
            detail: format!("run {} of seed {} has another result in another process or after other runs", i, c.seed),
            seed: c.seed,
            run: *i,
            found_after_steps: r.steps.len().max(1) - 1,
            setup: r.setup,
            steps: r.steps,
            hang: false,
            warm: Some((0, 1)),
            focus: c.prop,
        }
    });
    (v, r)
}

pub fn digests(prop: u8, seed: u64, n: u64, down: bool, out: &str) {
    let mut v: Vec<(u64, u64)> = vec![];
    let order: Vec<u64> = if down { (0..n).rev().collect() } else { (0..n).collect() };
    for i in order {
        let r = run::one(run::run_seed(seed, i, prop), prop, &|_| false, None, 10_000);
        v.push((i, r.digest));
    }
    fs::write(out, serde_json::to_vec(&v).unwrap()).expect("digests");
}

/// execute a replay file; does it still fail the same way?
pub fn replay(path: &str, class: Option<String>, quiet: bool) -> i32 {
    let r: Replay = serde_json::from_slice(&fs::read(path).expect("replay file")).expect("replay file");
    let prop: u8 = r.property[1..].parse().unwrap();
    let class = class.unwrap_or_else(|| r.class.clone());
    if r.hang {
        let mut c = spawn(&strs(&["play", path]));
        let ended = wait(&mut c, STALL * 2);
        let bad = ended != Some(0);
        if bad && !quiet {
            eprintln!("{}", r.detail);
        }
        return bad as i32;
    }
    if r.class == "replay:process" {
        let root = std::env::temp_dir().join(format!("cysim-{}", std::process::id()));
        let _ = fs::create_dir_all(&root);
        let c = Cfg { prop, seed: r.seed, tier: "quick".into(), runs: 0, secs: 0, root: root.clone() };
        let (v, x) = across_processes(&c, &root, &[], (r.run + 1).max(60));
        eprintln!("{}", v);
        let _ = fs::remove_dir_all(&root);
        return x.is_some() as i32;
    }
    if let Some((first, stride)) = r.warm {
        let mut i = first;
        while i < r.run {
            let _ = run::one(run::run_seed(r.seed, i, r.focus), r.focus, &|v| v.props.contains(&prop), None, 10_000);
            i += stride;
        }
    }
    let (v, _) = run::play(&r.setup, &r.steps, r.focus == 21);
    for (i, x) in &v {
        if x.class == class && x.props.contains(&prop) {
            if !quiet {
                eprintln!("step {}: {}: {}", i, x.class, x.detail);
            }
            return 1;
        }
    }
    0
}

pub fn shrink(path: &str, out: &str, secs: u64) {
    let r: Replay = serde_json::from_slice(&fs::read(path).expect("raw")).expect("raw");
    let prop: u8 = r.property[1..].parse().unwrap();
    let v = viol(&[prop], r.class.clone(), r.detail.clone());
    let (setup, steps, last) = run::shrink(&r.setup, &r.steps, &v, prop, r.focus == 21, Duration::from_secs(secs));
    let n = Replay { setup, steps, detail: last.detail, ..r };
    fs::write(out, serde_json::to_vec(&n).unwrap()).expect("small");
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    c: &Cfg,
    t: &Report,
    done: u64,
    states: &BTreeSet<u64>,
    traces: &BTreeSet<u64>,
    nt: &BTreeSet<u64>,
    samples: Vec<Value>,
    processes: &Value,
    search: f64,
    wall: f64,
    found: &Option<Replay>,
    known: &[String],
    stuck: &[(u64, u64, &'static str)],
    lost: &[String],
) {
    let pick = |p: &str| -> BTreeMap<String, u64> { t.n.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), *v)).collect() };
    let mut ops: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    for (k, v) in pick("op:") {
        let (a, b) = k.split_once(':').unwrap_or((&k, ""));
        let b = if b.starts_with("refused") { "refused" } else if b.starts_with("unmodelled") { "unmodelled" } else { b };
        *ops.entry(a.to_string()).or_default().entry(b.to_string()).or_insert(0) += v;
    }
    let refusals: BTreeMap<String, u64> = t.n.iter().filter_map(|(k, v)| k.split_once(":refused:").map(|x| (x.1.to_string(), *v))).fold(BTreeMap::new(), |mut m, (k, v)| {
        *m.entry(k).or_insert(0) += v;
        m
    });
    let gs: Vec<String> = groups(c.prop).iter().map(|g| g.join(" | ")).collect();
    let hours = (search / 3600.0).max(1e-9);
    let v = json!({
        "property": pname(c.prop),
        "tier": c.tier,
        "seed": c.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": found.is_some() as u64,
        "assumptions": [
            "the runtime stand-in (sim/src/bank.rs) enforces the rules of the Solana runtime the program relies on",
            "the reference model (sim/src/spec.rs, math.rs) states the intended behaviour; it was written from the documentation and the Uniswap v3 semantics the program ports",
            "arithmetic wraps as in the shipped (release) build",
            "block times stay below 2^32 seconds"
        ],
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nt.len(),
            "rule": format!("one case is one simulated run: a world, schedule, clock and fault sequence drawn from run_seed(VERIF_SEED, index, property) and executed against the real program. Runs are distinct if the sequence of (operation, outcome) differs; a run is non-trivial for this property if it contains at least one event of each of these groups: {}", gs.join(" AND ")),
            "samples": samples,
            "runs": done,
            "runs_per_hour": (done as f64 / hours) as u64,
            "seeds_per_hour": (done as f64 / hours) as u64,
            "worker_processes": WORKERS,
            "transactions_executed": t.txs,
            "scheduler_steps": t.steps,
            "simulated_seconds": t.sim_time,
            "simulated_years": t.sim_time as f64 / 31_557_600.0,
            "distinct_runs": traces.len(),
            "distinct_abstract_pool_states": states.len(),
            "abstract_state_measure": "per pool: magnitude of liquidity, price and fee growth, initialized ticks below/above, oracle ring position and size, protocol fees owed, price on a tick boundary, number of positions",
            "faults_injected": pick("fault:"),
            "clock_steps": pick("clock:"),
            "rare_conditions_hit": pick("probe:"),
            "probe_runs": pick("probe-run:"),
            "operations": ops,
            "refusals_by_reason": refusals,
            "other_counters": t.n.iter().filter(|(k, _)| !["op:", "fault:", "probe:", "probe-run:", "clock:"].iter().any(|p| k.starts_with(p))).map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>(),
            "determinism": processes,
            "disagreements_about_other_properties": t.other,
            "runs_that_did_not_end": stuck.iter().map(|s| format!("run {} {}", s.0, s.2)).collect::<Vec<_>>(),
            "harness_errors": t.broke.iter().chain(lost.iter()).cloned().collect::<Vec<_>>(),
            "known_findings_seen": known,
            "components_real": ["cyclos_core (entry point, account validation, all libraries)", "spl-token 3.2.0", "spl-associated-token-account 1.0.3", "metaplex-token-metadata 0.0.1", "anchor-lang / solana-program 1.8 client code"],
            "components_stubbed": ["Solana runtime: accounts, CPI, privileges, atomicity, compute abort (sim/src/bank.rs)", "system program (sim/src/progs.rs)", "clock and rent sysvars", "the host while a transaction executes: wall clock, system randomness, environment (sim/src/host.rs)", "callback program: scripted, adversarial", "network, clients, forks, validators (sim/src/gen.rs, sim.rs)"],
            "violation": found.as_ref().map(|f| json!({"class": f.class, "detail": f.detail, "run": f.run, "steps": f.steps.len()})),
        }
    });
    let dir = c.root.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::write(dir.join(format!("{}.json", pname(c.prop))), serde_json::to_string_pretty(&v).unwrap());
}

pub fn play_file(path: &str) {
    let r: Replay = serde_json::from_slice(&fs::read(path).expect("replay file")).expect("replay file");
    for (i, v) in run::play(&r.setup, &r.steps, r.focus == 21).0 {
        eprintln!("step {} [{}] {}: {}", i, names(&v.props), v.class, v.detail);
    }
}
