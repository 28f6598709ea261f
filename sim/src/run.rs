//! Running seeds, shrinking what they find, replaying it.
use crate::gen::{self, Gen};
use crate::judge::Viol;
use crate::ops::{Op, TxSpec};
use crate::rng::mix;
use crate::sim::{Sim, Stats, Step};
use crate::world::Setup;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub run: u64,
    pub found_after_steps: usize,
    pub setup: Setup,
    pub steps: Vec<Step>,
    /// the run does not end
    #[serde(default)]
    pub hang: bool,
    /// runs (first, stride) executed before it in the same process
    #[serde(default)]
    pub warm: Option<(u64, u64)>,
    #[serde(default)]
    pub focus: u8,
}

pub struct Ran {
    pub setup: Setup,
    pub steps: Vec<Step>,
    pub viols: Vec<(usize, Viol)>,
    pub st: Stats,
    pub digest: u64,
    pub trace: u64,
    /// the harness itself failed
    pub broke: Option<String>,
}

pub fn run_seed(seed: u64, n: u64, focus: u8) -> u64 {
    mix(mix(seed) ^ mix(n.wrapping_mul(0x1_0000_0001) ^ ((focus as u64) << 48)))
}

fn stepped(sim: &mut Sim, st: &Step) -> Result<(), String> {
    catch_unwind(AssertUnwindSafe(|| sim.step(st))).map_err(|_| crate::bank::last_panic())
}

/// one seeded run; stops at the first violation `stop` accepts
pub fn one(seed: u64, focus: u8, stop: &dyn Fn(&Viol) -> bool, mut watch: Option<&mut dyn FnMut(&Setup, &Step)>, cap: usize) -> Ran {
    let (setup, mut g): (Setup, Gen) = gen::make(seed, focus);
    let mut sim = Sim::new(setup.clone());
    sim.twice = focus == 21;
    let mut steps = vec![];
    let mut viols = vec![];
    let mut broke = None;
    let total = g.steps().min(cap);
    'run: for i in 0..total {
        let st = match catch_unwind(AssertUnwindSafe(|| g.next(&sim))) {
            Ok(s) => s,
            Err(_) => {
                broke = Some(format!("generator: {}", crate::bank::last_panic()));
                break;
            }
        };
        if let Some(w) = watch.as_mut() {
            w(&setup, &st);
        }
        steps.push(st.clone());
        if let Err(e) = stepped(&mut sim, &st) {
            broke = Some(format!("step {}: {}", i, e));
        }
        for v in sim.viols.drain(..) {
            let s = stop(&v);
            viols.push((i, v));
            if s {
                break 'run;
            }
        }
        if broke.is_some() {
            break;
        }
        if viols.len() > 400 {
            break;
        }
    }
    Ran { setup, steps, viols, st: sim.st, digest: sim.digest, trace: sim.trace, broke }
}

/// execute recorded steps; the violations in order
pub fn play(setup: &Setup, steps: &[Step], twice: bool) -> (Vec<(usize, Viol)>, Sim) {
    let mut sim = Sim::new(setup.clone());
    sim.twice = twice;
    let mut v = vec![];
    for (i, s) in steps.iter().enumerate() {
        if stepped(&mut sim, s).is_err() {
            break;
        }
        v.extend(sim.viols.drain(..).map(|x| (i, x)));
    }
    (v, sim)
}

fn hits(setup: &Setup, steps: &[Step], class: &str, prop: u8, twice: bool) -> Option<(usize, Viol)> {
    let mut sim = Sim::new(setup.clone());
    sim.twice = twice;
    for (i, s) in steps.iter().enumerate() {
        let r = stepped(&mut sim, s);
        for v in sim.viols.drain(..) {
            if v.class == class && v.props.contains(&prop) {
                return Some((i, v));
            }
        }
        if r.is_err() {
            return None;
        }
    }
    None
}

/// delta debugging over the steps, then over their arguments
pub fn shrink(setup: &Setup, steps: &[Step], v: &Viol, prop: u8, twice: bool, limit: Duration) -> (Setup, Vec<Step>, Viol) {
    let end = Instant::now() + limit;
    let mut cur = steps.to_vec();
    let mut setup = setup.clone();
    let mut last = v.clone();
    let ok = |su: &Setup, s: &[Step]| hits(su, s, &v.class, prop, twice);
    match ok(&setup, &cur) {
        Some((i, x)) => {
            cur.truncate(i + 1);
            last = x;
        }
        None => return (setup, cur, last),
    }
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() && Instant::now() < end {
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(cur.len()));
            if let Some((n, x)) = ok(&setup, &t) {
                t.truncate(n + 1);
                cur = t;
                last = x;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if Instant::now() >= end || chunk == 1 && !changed {
            break;
        }
        if !changed {
            chunk = (chunk / 2).max(1);
        }
    }
    // simpler steps
    for i in 0..cur.len() {
        loop {
            let mut better = false;
            for s in simpler(&cur[i]) {
                if Instant::now() >= end {
                    break;
                }
                let mut t = cur.clone();
                t[i] = s;
                if let Some((n, x)) = ok(&setup, &t) {
                    if n + 1 == t.len() {
                        cur = t;
                        last = x;
                        better = true;
                        break;
                    }
                }
            }
            if !better || Instant::now() >= end {
                break;
            }
        }
    }
    // fewer pools
    while setup.pools.len() > 1 && Instant::now() < end {
        let mut s = setup.clone();
        s.pools.pop();
        match ok(&s, &cur) {
            Some((n, x)) if n + 1 == cur.len() => {
                setup = s;
                last = x;
            }
            _ => break,
        }
    }
    (setup, cur, last)
}

fn simpler(s: &Step) -> Vec<Step> {
    let mut v = vec![];
    let tx = |t: &TxSpec| -> Vec<TxSpec> {
        let mut v = vec![];
        if t.ops.len() > 1 {
            for i in 0..t.ops.len() {
                let mut x = t.clone();
                x.ops.remove(i);
                v.push(x);
            }
        }
        for i in 0..t.muts.len() {
            let mut x = t.clone();
            x.muts.remove(i);
            v.push(x);
        }
        if t.abort_at.is_some() {
            v.push(TxSpec { abort_at: None, ..t.clone() });
        }
        if t.fail_token_at.is_some() {
            v.push(TxSpec { fail_token_at: None, ..t.clone() });
        }
        if let Some(sc) = &t.script {
            if sc.pays.len() > 1 {
                let mut x = t.clone();
                x.script.as_mut().unwrap().pays.pop();
                v.push(x);
            }
        }
        for i in 0..t.ops.len() {
            for o in smaller(&t.ops[i]) {
                let mut x = t.clone();
                x.ops[i] = o;
                v.push(x);
            }
        }
        v
    };
    match s {
        Step::Clock { dt } if *dt > 1 => {
            v.push(Step::Clock { dt: dt / 2 });
            v.push(Step::Clock { dt: dt - 1 });
        }
        Step::Tx(t) => v.extend(tx(t).into_iter().map(Step::Tx)),
        Step::Submit { id, tx: t } => {
            v.push(Step::Tx(t.clone()));
            v.extend(tx(t).into_iter().map(|t| Step::Submit { id: *id, tx: t }));
        }
        Step::Commute { a, b } => {
            v.push(Step::Tx(a.clone()));
            v.push(Step::Tx(b.clone()));
        }
        _ => {}
    }
    v
}

fn smaller(o: &Op) -> Vec<Op> {
    let mut v = vec![];
    let h = |x: u64| -> Vec<u64> {
        let mut v = vec![];
        if x > 1 {
            v.push(1);
            let b = 64 - x.leading_zeros();
            if x != 1 << (b - 1) {
                v.push(1 << (b - 1));
            }
            if x > 4 {
                v.push(x / 2);
                v.push(x / 16);
            }
            if x < 64 {
                v.push(x - 1);
            }
        }
        v.into_iter().filter(|y| *y < x).collect()
    };
    match o {
        Op::Mint { liq, .. } => {
            for x in h(*liq) {
                let mut n = o.clone();
                if let Op::Mint { liq, .. } = &mut n {
                    *liq = x;
                }
                v.push(n);
            }
        }
        Op::Burn { liq, .. } => {
            for x in h(*liq) {
                let mut n = o.clone();
                if let Op::Burn { liq, .. } = &mut n {
                    *liq = x;
                }
                v.push(n);
            }
        }
        Op::Swap { amount, limit, .. } => {
            for x in h(amount.unsigned_abs()) {
                let mut n = o.clone();
                let neg = *amount < 0;
                if let Op::Swap { amount, .. } = &mut n {
                    let x = x.min(i64::MAX as u64) as i64;
                    *amount = if neg { -x } else { x };
                }
                v.push(n);
            }
            if *limit != 0 {
                let mut n = o.clone();
                if let Op::Swap { limit, .. } = &mut n {
                    *limit = 0;
                }
                v.push(n);
            }
        }
        Op::ExactSingle { amount, .. } => {
            for x in h(*amount) {
                let mut n = o.clone();
                if let Op::ExactSingle { amount, .. } = &mut n {
                    *amount = x;
                }
                v.push(n);
            }
        }
        Op::ExactMulti { amount, path, .. } => {
            for x in h(*amount) {
                let mut n = o.clone();
                if let Op::ExactMulti { amount, .. } = &mut n {
                    *amount = x;
                }
                v.push(n);
            }
            if path.len() > 1 {
                let mut n = o.clone();
                if let Op::ExactMulti { path, .. } = &mut n {
                    path.pop();
                }
                v.push(n);
            }
        }
        Op::MintNft { d0, d1, m0, m1, .. } | Op::Inc { d0, d1, m0, m1, .. } => {
            let mut alts = vec![];
            if *m0 > 0 || *m1 > 0 {
                alts.push((*d0, *d1, 0, 0));
            }
            if *d0 > 8 && *d1 > 8 {
                alts.push((*d0 / 2, *d1 / 2, *m0 / 2, *m1 / 2));
            }
            for (a, b, c, d) in alts {
                let mut n = o.clone();
                if let Op::MintNft { d0, d1, m0, m1, .. } | Op::Inc { d0, d1, m0, m1, .. } = &mut n {
                    *d0 = a;
                    *d1 = b;
                    *m0 = c;
                    *m1 = d;
                }
                v.push(n);
            }
        }
        Op::GrowObs { n, .. } if *n > 1 => {
            let mut x = o.clone();
            if let Op::GrowObs { n, .. } = &mut x {
                *n -= 1;
            }
            v.push(x);
        }
        _ => {}
    }
    v
}

/// a transaction as bytes, for demonstrations that run without this simulator
pub fn raw_tx(tx: &crate::bank::Tx, env: &crate::bank::Env) -> serde_json::Value {
    fn ix(i: &crate::bank::Ix) -> serde_json::Value {
        let m: Vec<_> = i.metas.iter().map(|m| serde_json::json!([m.key.to_string(), m.signer, m.writable])).collect();
        serde_json::json!({"program": i.program.to_string(), "metas": m, "data": base64::encode(&i.data)})
    }
    serde_json::json!({
        "ixs": tx.ixs.iter().map(ix).collect::<Vec<_>>(),
        "signers": tx.signers.iter().map(|k| k.to_string()).collect::<Vec<_>>(),
        "time": env.unix_time,
        "slot": env.slot,
        "abort_at": env.abort_at,
        "fail_token_at": env.fail_token_at,
        "allow_reentry": env.allow_reentry,
        "pays": env.script.pays,
        "fail": env.script.fail,
        "reenter": env.script.reenter.as_ref().map(ix),
    })
}
