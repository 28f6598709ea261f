//! Runs recorded transactions through the real program on a small in-process runtime and prints
//! what the outside world can see after each: the outcome, balances, accounts, events.
#![recursion_limit = "512"]
#![allow(dead_code, invalid_reference_casting, unused_imports)]
mod abi;
mod bank;
#[cfg(feature = "fixed")]
mod layout;
mod host {
    /// the real host
    pub struct Inside;
    pub fn enter(_: i64) -> Inside {
        Inside
    }
}
mod progs;
mod world;
use abi::*;
use bank::*;
use serde_json::Value;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;

fn key(v: &Value) -> Pubkey {
    Pubkey::from_str(v.as_str().unwrap()).unwrap()
}
fn ix(v: &Value) -> Ix {
    Ix {
        program: key(&v["program"]),
        metas: v["metas"].as_array().unwrap().iter().map(|m| Meta { key: key(&m[0]), signer: m[1].as_bool().unwrap(), writable: m[2].as_bool().unwrap() }).collect(),
        data: base64::decode(v["data"].as_str().unwrap()).unwrap(),
    }
}
fn show(k: &Pubkey, a: Option<&Acct>) -> String {
    let a = match a {
        None => return "closed".into(),
        Some(a) => a,
    };
    let d = &a.data;
    let s = if a.owner == CORE {
        if let Some(x) = Pool::parse(d) {
            format!("{:?}", x)
        } else if let Some(x) = Position::parse(d) {
            format!("{:?}", x)
        } else if let Some(x) = Tick::parse(d) {
            format!("{:?}", x)
        } else if let Some(x) = Bitmap::parse(d) {
            format!("{:?}", x)
        } else if let Some(x) = Obs::parse(d) {
            format!("{:?}", x)
        } else if let Some(x) = NftPos::parse(d) {
            format!("{:?}", x)
        } else if let Some(x) = Factory::parse(d) {
            format!("{:?}", x)
        } else if let Some(x) = Fee::parse(d) {
            format!("{:?}", x)
        } else {
            format!("core account of {} bytes", d.len())
        }
    } else if let Some(t) = tok(d) {
        format!("{:?}", t)
    } else {
        format!("owner {} data {}", a.owner, base64::encode(d))
    };
    format!("{} | lamports {}", s, a.lamports)
}
fn raw<T: Copy>(d: &[u8]) -> T {
    assert!(d.len() >= 8 + std::mem::size_of::<T>());
    unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) }
}
#[cfg(not(feature = "nosnap"))]
fn snapshot(pool: &[u8], lo: &[u8], hi: &[u8], obs: &[u8]) -> Result<(i64, u64, u32), String> {
    use cyclos_core::states::{oracle::ObservationState, pool::PoolState, tick::TickState};
    let (p, a, b, o): (PoolState, TickState, TickState, ObservationState) = (raw(pool), raw(lo), raw(hi), raw(obs));
    bank::view(|| {
        let s = p.snapshot_cumulatives_inside(&a, &b, &o);
        (s.tick_cumulative_inside, s.seconds_per_liquidity_inside_x32, s.seconds_inside)
    })
}
/// the same from the stored accumulators, for programs whose function has another interface
#[cfg(feature = "nosnap")]
fn snapshot(pool: &[u8], lo: &[u8], hi: &[u8], obs: &[u8]) -> Result<(i64, u64, u32), String> {
    let (p, a, b, o) = (Pool::parse(pool).unwrap(), Tick::parse(lo).unwrap(), Tick::parse(hi).unwrap(), Obs::parse(obs).unwrap());
    let now = bank::view_clock() as u32;
    let dt = now.wrapping_sub(o.ts);
    let cum = o.tick_cum.wrapping_add((p.tick as i64).wrapping_mul(dt as i64));
    let spl = o.spl_cum.wrapping_add(((dt as u64) << 32) / p.liquidity.max(1));
    let (x, y) = ((a.tick_cum_out, a.spl_out, a.secs_out), (b.tick_cum_out, b.spl_out, b.secs_out));
    let less = |x: (i64, u64, u32), y: (i64, u64, u32)| (x.0.wrapping_sub(y.0), x.1.wrapping_sub(y.1), x.2.wrapping_sub(y.2));
    Ok(if p.tick < a.tick {
        less(x, y)
    } else if p.tick < b.tick {
        less(less((cum, spl, now), x), y)
    } else {
        less(y, x)
    })
}
/// what the protocol's range snapshot says for every pair of initialized ticks
fn snapshots(l: &Ledger, out: &mut String) {
    for (k, a) in l.iter() {
        let p = match Pool::parse(&a.data) {
            Some(p) if a.owner == CORE => p,
            _ => continue,
        };
        let o = match l.get(&p.id().obs(p.obs_index).0) {
            Some(o) => o,
            None => continue,
        };
        let mut ticks: Vec<(i32, &Acct)> = vec![];
        for (tk, t) in l.iter() {
            if let Some(x) = Tick::parse(&t.data) {
                if t.owner == CORE && x.gross > 0 && p.id().tick(x.tick).0 == *tk {
                    ticks.push((x.tick, &**t));
                }
            }
        }
        ticks.sort_by_key(|t| t.0);
        for i in 0..ticks.len() {
            for j in i + 1..ticks.len() {
                let r = snapshot(&a.data, &ticks[i].1.data, &ticks[j].1.data, &o.data);
                out.push_str(&format!("   snapshot {} [{}, {}): {:?}\n", k, ticks[i].0, ticks[j].0, r.map_err(|_| "panic")));
            }
        }
    }
}

fn main() {
    bank::install();
    let a: Vec<String> = std::env::args().collect();
    let d: Value = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
    let snaps = a.iter().any(|x| x == "--snapshots");
    let setup: world::Setup = serde_json::from_value(d["setup"].clone()).unwrap();
    let mut l = setup.genesis();
    let mut stack = vec![];
    let mut out = String::new();
    for (n, t) in d["txs"].as_array().unwrap().iter().enumerate() {
        if t.as_str() == Some("mark") {
            stack.push(l.clone());
            continue;
        }
        if t.as_str() == Some("back") {
            l = stack.pop().unwrap();
            continue;
        }
        if !t["put"].is_null() {
            let a = Acct { lamports: t["lamports"].as_u64().unwrap(), owner: key(&t["owner"]), data: base64::decode(t["data"].as_str().unwrap()).unwrap(), executable: false };
            l.insert(key(&t["put"]), std::rc::Rc::new(a));
            continue;
        }
        let tx = Tx {
            ixs: t["ixs"].as_array().unwrap().iter().map(ix).collect(),
            signers: t["signers"].as_array().unwrap().iter().map(key).collect(),
        };
        let env = Env {
            unix_time: t["time"].as_i64().unwrap(),
            slot: t["slot"].as_u64().unwrap(),
            abort_at: t["abort_at"].as_u64().map(|x| x as u32),
            fail_token_at: t["fail_token_at"].as_u64().map(|x| x as u32),
            allow_reentry: t["allow_reentry"].as_bool().unwrap(),
            script: Script {
                pays: serde_json::from_value(t["pays"].clone()).unwrap(),
                reenter: if t["reenter"].is_null() { None } else { Some(ix(&t["reenter"])) },
                fail: t["fail"].as_bool().unwrap(),
            },
            trace: false,
        };
        let r = bank::execute(&l, &tx, &env);
        out.push_str(&format!("tx {}: {}\n", n, if r.ok { "committed" } else { "refused" }));
        if a.iter().any(|x| x == "--why") {
            out.push_str(&format!("   {:?}\n", r.err));
        }
        for c in &r.changes {
            out.push_str(&format!("   {}: {}\n", c.key, show(&c.key, c.post.as_deref())));
        }
        for (_, p, e) in &r.events {
            if *p == CORE {
                out.push_str(&format!("   event {}: {}\n", event_name(e), base64::encode(e)));
            }
        }
        bank::apply(&mut l, &r);
        if snaps {
            bank::set_view_clock(env.unix_time);
            snapshots(&l, &mut out);
        }
    }
    std::fs::write(&a[2], out).unwrap();
}
