//! One simulated world: ledger, clock, network of pending transactions, forks, and the execution of
//! recorded steps.  Everything here is a pure function of the setup and the steps.
use crate::abi::*;
use crate::bank::{self, Env, Ledger, Tx, TxErr, TxResult};
use crate::hist::{self, Hist};
use crate::judge::{self, judge, op_name, viol, Viol};
use crate::math;
use crate::ops::{self, compile, nft_holder, nft_of, pool_of, tok_of, Compiled, Op, TxSpec};
use crate::rng::Rng;
use crate::spec::{self, Fact, Stop};
use crate::world::{KeyRef, Setup, Who};
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// block time passes (zero: the clock stalls while slots go on)
    Clock { dt: i64 },
    /// built against the current state and executed at once
    Tx(TxSpec),
    /// built against the current state, then held by the network
    Submit { id: u16, tx: TxSpec },
    /// arrives; may arrive again; a client may rebuild it if it is rejected
    Deliver { id: u16, retry: bool },
    /// a fork of the chain begins here ...
    Fork,
    /// ... and is discarded; what happened on it may be executed again on the surviving one
    Rollback { again: bool },
    /// all nodes restart: only the ledger's bytes survive
    Restart,
    /// two transactions on different pools in either order
    Commute { a: TxSpec, b: TxSpec },
    /// an attacker's program writes a copy of an account, improved to the attacker's liking, into an
    /// account of its own
    Plant { of: KeyRef, by: u8 },
    /// a pool without positions has been in use for years: its fee growth accumulators, which count
    /// modulo 2^64 and mean nothing until a tick is initialized, start here
    Age { pool: u8, g0: u64, g1: u64 },
    /// execute earlier transactions again on the states they ran on
    Replay { seed: u64 },
    /// on a copy of the world: everybody leaves
    Exit { seed: u64 },
    /// on a copy of the world: swaps, deposits and ring growth go through
    Live { seed: u64 },
    /// on a copy of the world: one party trades in circles
    Round { seed: u64 },
    /// on a copy of the world: one party puts liquidity in and takes it out again
    There { seed: u64 },
    /// on a copy of the world: splitting or poking a position earns the same
    Patience { seed: u64 },
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub txs: u64,
    pub sim_time: u64,
}
impl Stats {
    pub fn add(&mut self, k: &str) {
        if let Some(v) = self.n.get_mut(k) {
            *v += 1;
        } else {
            self.n.insert(k.to_string(), 1);
        }
    }
}

#[derive(Clone)]
struct Done {
    pre: Ledger,
    tx: Tx,
    env: Env,
    digest: u64,
}

#[derive(Clone)]
struct Mark {
    l: Ledger,
    h: Hist,
    now: i64,
    slot: u64,
    /// how much of the enclosing forks' history had happened
    outer: Vec<usize>,
    since: Vec<(Tx, Env, u64)>,
}

pub struct Out {
    pub ok: bool,
    pub pred: Result<spec::Predicted, Stop>,
    pub err: Option<TxErr>,
    pub events: Vec<Vec<u8>>,
}

#[derive(Clone)]
pub struct Sim {
    pub s: Setup,
    pub l: Ledger,
    pub h: Hist,
    pub now: i64,
    pub slot: u64,
    pub pending: BTreeMap<u16, (TxSpec, Compiled)>,
    forks: Vec<Mark>,
    done: VecDeque<Done>,
    pub st: Stats,
    pub viols: Vec<Viol>,
    pub digest: u64,
    /// hash of the sequence of (operation, outcome)
    pub trace: u64,
    /// execute everything twice
    pub twice: bool,
    probe: bool,
    /// every transaction executed, in the form a demonstration replays
    pub rec: Option<Vec<serde_json::Value>>,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    (h ^ b.len() as u64).wrapping_mul(0xff51_afd7_ed55_8ccd)
}

/// everything a replica could observe of an execution
pub fn digest(r: &TxResult) -> u64 {
    let mut h = fnv(1, &[r.ok as u8]);
    for c in &r.changes {
        h = fnv(h, c.key.as_ref());
        match &c.post {
            Some(a) => {
                h = fnv(h, &a.lamports.to_le_bytes());
                h = fnv(h, a.owner.as_ref());
                h = fnv(h, &a.data);
            }
            None => h = fnv(h, b"gone"),
        }
    }
    for (i, p, e) in &r.events {
        h = fnv(h, &i.to_le_bytes());
        h = fnv(h, p.as_ref());
        h = fnv(h, e);
    }
    if let Some(e) = &r.err {
        let t = match e {
            TxErr::Program { ix, code, .. } => format!("p{} {}", ix, code),
            TxErr::Panic { ix, .. } => format!("x{}", ix),
            TxErr::Abort { ix } => format!("a{}", ix),
            TxErr::Runtime { ix, text } => format!("r{} {}", ix, text),
        };
        h = fnv(h, t.as_bytes());
    }
    for l in &r.logs {
        h = fnv(h, l.as_bytes());
    }
    h
}

impl Sim {
    pub fn new(s: Setup) -> Sim {
        crate::host::restart();
        let l = s.genesis();
        let now = s.time;
        Sim {
            s,
            l,
            h: Hist::default(),
            now,
            slot: 1,
            pending: BTreeMap::new(),
            forks: vec![],
            done: VecDeque::new(),
            st: Stats::default(),
            viols: vec![],
            digest: 0,
            trace: 0,
            twice: false,
            probe: false,
            rec: None,
        }
    }
    pub fn env(&self) -> Env {
        Env { unix_time: self.now, slot: self.slot, ..Env::default() }
    }
    pub fn pool_exists(&self, p: u8) -> bool {
        pool_of(&self.l, &self.s.pid(p).key()).is_some()
    }
    pub fn fork_depth(&self) -> usize {
        self.forks.len()
    }
    fn record(&mut self, v: serde_json::Value) {
        if let Some(r) = self.rec.as_mut() {
            r.push(v);
        }
    }
    fn flag(&mut self, v: Viol) {
        if self.viols.len() < 300 {
            self.viols.push(v);
        }
    }

    pub fn step(&mut self, st: &Step) {
        match st {
            Step::Clock { dt } => {
                self.st.add(match *dt {
                    0 => "fault:clock-stall",
                    1..=60 => "clock:tick",
                    61..=86_400 => "fault:clock-jump",
                    86_401..=315_360_000 => "fault:clock-jump-days",
                    _ => "fault:clock-jump-decades",
                });
                self.now += *dt;
                self.slot += 1;
                self.st.sim_time += *dt as u64;
            }
            Step::Tx(t) => {
                self.tx(t);
            }
            Step::Submit { id, tx } => {
                let env = self.env();
                if let Some(c) = compile(&self.s, &self.l, &env, tx) {
                    self.pending.insert(*id, (tx.clone(), c));
                }
            }
            Step::Deliver { id, retry } => {
                if let Some((t, c)) = self.pending.get(id).cloned() {
                    self.st.add("fault:delivered-late");
                    let o = self.run(&t, &c);
                    if !o.ok && *retry && t.clean() {
                        self.st.add("fault:rebuilt-after-rejection");
                        self.tx(&t);
                    }
                }
            }
            Step::Fork => {
                if self.forks.len() < 3 {
                    self.st.add("fault:fork");
                    self.record("mark".into());
                    let outer = self.forks.iter().map(|m| m.since.len()).collect();
                    self.forks.push(Mark { l: self.l.clone(), h: self.h.clone(), now: self.now, slot: self.slot, since: vec![], outer });
                }
            }
            Step::Rollback { again } => {
                if let Some(m) = self.forks.pop() {
                    self.st.add("fault:rollback");
                    self.record("back".into());
                    if *again {
                        // the same transactions land on the other fork
                        let mut l = m.l.clone();
                        for (tx, env, d) in &m.since {
                            let r = bank::execute(&l, tx, env);
                            self.st.add("fault:replayed-on-other-fork");
                            if digest(&r) != *d {
                                self.flag(viol(&[21], "replay:fork", "a transaction had another result when executed again after a rollback"));
                                break;
                            }
                            bank::apply(&mut l, &r);
                        }
                    }
                    self.l = m.l;
                    self.h = m.h;
                    self.now = m.now;
                    self.slot = m.slot;
                    for (o, n) in self.forks.iter_mut().zip(&m.outer) {
                        o.since.truncate(*n);
                    }
                }
            }
            Step::Restart => {
                self.st.add("fault:restart");
                // the ledger as a byte snapshot is all that survives
                let bytes: Vec<(Pubkey, u64, Pubkey, Vec<u8>, bool)> =
                    self.l.iter().map(|(k, a)| (*k, a.lamports, a.owner, a.data.clone(), a.executable)).collect();
                self.l = bytes
                    .into_iter()
                    .map(|(k, lamports, owner, data, executable)| (k, std::rc::Rc::new(bank::Acct { lamports, owner, data, executable })))
                    .collect();
                self.pending.clear();
                self.done.clear();
            }
            Step::Plant { of, by } => self.plant(of, *by),
            Step::Age { pool, g0, g1 } => self.age(*pool, *g0, *g1),
            Step::Commute { a, b } => self.commute(a, b),
            Step::Replay { seed } => self.replay(*seed),
            Step::Exit { seed } => self.on_copy(|w| w.exit(*seed)),
            Step::Live { seed } => self.on_copy(|w| w.live(*seed)),
            Step::Round { seed } => self.on_copy(|w| w.round(*seed)),
            Step::Patience { seed } => self.patience(*seed),
            Step::There { seed } => self.on_copy(|w| w.there(*seed)),
        }
    }

    fn plant(&mut self, of: &KeyRef, by: u8) {
        if !self.forks.is_empty() {
            // it would not be part of the surviving fork
            return;
        }
        let a = match self.l.get(&self.s.key(of)) {
            Some(a) => a.clone(),
            None => return,
        };
        let d = &a.data;
        let big = u64::MAX >> 4;
        let me = self.s.user(by);
        let data = if let Some(mut x) = Factory::parse(d) {
            x.owner = me;
            x.bytes()
        } else if let Some(mut x) = NftPos::parse(d) {
            x.liquidity = big;
            x.owed_0 = big;
            x.owed_1 = big;
            x.bytes()
        } else if let Some(mut x) = Position::parse(d) {
            x.liquidity = big;
            x.owed_0 = big;
            x.owed_1 = big;
            x.bytes()
        } else if let Some(mut x) = Fee::parse(d) {
            x.fee = 0;
            x.bytes()
        } else if let Some(mut x) = Pool::parse(d) {
            x.proto_0 = big;
            x.proto_1 = big;
            x.sqrt_price = MIN_SQRT_RATIO + 1;
            x.liquidity = x.liquidity.max(1);
            x.bytes()
        } else if let Some(t) = tok(d) {
            tok_bytes(&t.mint, &me, big)
        } else {
            d.clone()
        };
        self.st.add("fault:planted-look-alike");
        let k = self.s.key(&KeyRef::Twin(Box::new(of.clone())));
        self.put(k, bank::Acct { lamports: a.lamports.max(1), owner: HANDLER, data, executable: false });
    }
    /// the ledger holds this from here on, by no transaction
    fn put(&mut self, k: Pubkey, a: bank::Acct) {
        self.record(serde_json::json!({"put": k.to_string(), "owner": a.owner.to_string(), "lamports": a.lamports, "data": base64::encode(&a.data)}));
        self.l.insert(k, std::rc::Rc::new(a));
    }
    fn age(&mut self, pool: u8, g0: u64, g1: u64) {
        let k = self.s.pid(pool).key();
        let a = match self.l.get(&k) {
            Some(a) => a.clone(),
            None => return,
        };
        let mut p = match Pool::parse(&a.data) {
            Some(p) if a.owner == CORE => p,
            _ => return,
        };
        let fresh = p.growth_0 == 0 && p.growth_1 == 0 && p.liquidity == 0;
        let used = self.l.iter().any(|(k, a)| a.owner == CORE && Tick::parse(&a.data).map(|t| t.gross > 0 && p.id().tick(t.tick).0 == *k).unwrap_or(false));
        if !fresh || used || !self.forks.is_empty() {
            return;
        }
        self.st.add("setup:aged-pool");
        p.growth_0 = g0;
        p.growth_1 = g1;
        let a = bank::Acct { data: p.bytes(), ..(*a).clone() };
        self.put(k, a);
    }

    fn on_copy(&mut self, f: impl FnOnce(&mut Sim)) {
        let mut w = self.clone();
        w.forks.clear();
        w.done.clear();
        w.pending.clear();
        w.probe = true;
        w.viols.clear();
        w.st = Stats::default();
        w.record("mark".into());
        f(&mut w);
        w.record("back".into());
        self.rec = w.rec.take();
        self.digest = fnv(w.digest, &self.digest.to_le_bytes());
        for (k, n) in w.st.n {
            *self.st.n.entry(k).or_insert(0) += n;
        }
        self.st.txs += w.st.txs;
        self.st.states.extend(w.st.states);
        for v in w.viols {
            self.flag(v);
        }
    }

    /// build against the current state and execute
    pub fn tx(&mut self, t: &TxSpec) -> Option<Out> {
        let env = self.env();
        let c = compile(&self.s, &self.l, &env, t)?;
        Some(self.run(t, &c))
    }

    fn run(&mut self, t: &TxSpec, c: &Compiled) -> Out {
        let mut env = c.env.clone();
        env.unix_time = self.now;
        env.slot = self.slot;
        bank::set_view_clock(self.now);
        if self.rec.is_some() {
            let v = crate::run::raw_tx(&c.tx, &env);
            self.record(v);
        }
        let pred = spec::predict(&self.l, &c.tx, &env);
        let r = bank::execute(&self.l, &c.tx, &env);
        let d = digest(&r);
        self.st.txs += 1;
        self.digest = fnv(self.digest, &d.to_le_bytes());
        if self.twice {
            let r2 = bank::execute(&self.l, &c.tx, &env);
            self.st.add("replayed-at-once");
            if digest(&r2) != d {
                self.flag(viol(&[21], "replay:again", format!("{} had another result when executed again at once", op_name(&t.ops[0]))));
            }
        }
        if crate::host::asked() > 0 {
            // the unchanged program never does
            self.st.add("asked-the-host");
        }
        let name = op_name(&t.ops[0]);
        let outcome = match (&pred, r.ok) {
            (Ok(_), true) => "ok".to_string(),
            (Err(Stop::Fail(x)), false) => format!("refused:{}", x),
            (Err(Stop::Unsure(x)), _) => format!("unmodelled:{}", x),
            (Ok(_), false) => "interrupted".to_string(),
            (Err(Stop::Fail(x)), true) => format!("ACCEPTED:{}", x),
        };
        self.trace = fnv(self.trace, name.as_bytes());
        self.trace = fnv(self.trace, outcome.as_bytes());
        self.st.add(&format!("op:{}:{}", name, outcome));
        self.count_faults(t, &r);
        if let Ok(p) = &pred {
            if r.ok {
                for x in &p.probes {
                    self.st.add(&format!("probe:{}", x));
                }
            }
        }
        let verdict = {
            let id = (&self.h, &self.s, &self.l);
            judge(&self.l, t, &pred, &r, &id)
        };
        let out_events = r.events.iter().filter(|e| e.1 == CORE).map(|e| e.2.clone()).collect();
        for v in verdict.viols {
            self.flag(v);
        }
        if r.ok {
            let agreed = verdict.agreed;
            let mut pools: BTreeSet<Pubkey> = t.ops.iter().flat_map(|o| self.h.pool_named(&self.s, o, &self.l)).collect();
            for ch in &r.changes {
                if let Some(p) = self.h.owner_of.get(&ch.key) {
                    pools.insert(*p);
                }
            }
            let pools: Vec<Pubkey> = pools.into_iter().collect();
            self.h.before(&self.l, self.now);
            let mut post = self.l.clone();
            bank::apply(&mut post, &r);
            let facts: Option<&[Fact]> = match &pred {
                Ok(p) if agreed => Some(&p.facts),
                _ => None,
            };
            let vs = self.h.after(&self.s, t, &self.l, &post, &r, facts, &c.tx.signers, self.now);
            if let Some(f) = facts {
                for x in f {
                    if let Fact::Revived { key } = x {
                        self.flag(viol(
                            &[17, 18, 19],
                            "revived-closed-tick",
                            format!("tick account {} closed and funded again in one transaction stays unusable: it can never be created again", key),
                        ));
                    }
                }
            }
            for v in vs {
                self.flag(v);
            }
            let pre = std::mem::replace(&mut self.l, post);
            if !self.probe {
                self.remember(pre, c, env, d);
            }
            self.abstract_states(&pools);
        } else if !self.probe {
            let pre = self.l.clone();
            self.remember(pre, c, env, d);
        }
        Out { ok: r.ok, pred, err: r.err, events: out_events }
    }

    fn remember(&mut self, pre: Ledger, c: &Compiled, env: Env, d: u64) {
        for m in self.forks.iter_mut() {
            m.since.push((c.tx.clone(), env.clone(), d));
        }
        if self.done.len() >= 24 {
            self.done.pop_front();
        }
        self.done.push_back(Done { pre, tx: c.tx.clone(), env, digest: d });
    }

    fn count_faults(&mut self, t: &TxSpec, r: &TxResult) {
        if let (Some(_), Some(TxErr::Abort { .. })) = (t.abort_at, &r.err) {
            self.st.add("fault:aborted-mid-transaction");
        }
        if t.fail_token_at.is_some() && !r.ok {
            self.st.add("fault:token-call-failed");
        }
        if !t.muts.is_empty() {
            self.st.add(if r.ok { "fault:forged-accounts-or-data(accepted as valid)" } else { "fault:forged-accounts-or-data" });
        }
        if let Some(s) = &t.script {
            if s.fail {
                self.st.add("fault:callback-fails");
            } else if s.reenter.is_some() {
                self.st.add(if t.allow_reentry { "fault:callback-reenters" } else { "fault:callback-reenters(runtime refuses)" });
            } else {
                self.st.add("fault:callback-misbehaves");
            }
        }
        if t.ops.len() > 1 {
            self.st.add("several-operations-in-one-transaction");
        }
    }

    /// coarse fingerprint of a pool's situation
    fn abstract_states(&mut self, pools: &[Pubkey]) {
        for k in pools {
            if let (Some(p), Some(h)) = (pool_of(&self.l, k), self.h.pools.get(k)) {
                let b = |x: u64| (64 - x.leading_zeros()) as u64;
                let mut d = fnv(0, &b(p.liquidity).to_le_bytes());
                let below = h.ticks.keys().filter(|t| **t <= p.tick).count() as u64;
                for x in [
                    b(p.sqrt_price),
                    below,
                    h.ticks.len() as u64 - below,
                    (p.obs_index as u64) << 32 | (p.obs_card as u64) << 16 | p.obs_next as u64,
                    b(p.growth_0) / 4,
                    b(p.growth_1) / 4,
                    (p.proto_0 > 0) as u64 * 2 + (p.proto_1 > 0) as u64,
                    (p.tick >= 0 && math::sqrt_at(p.tick.clamp(MIN_TICK, MAX_TICK)) == p.sqrt_price) as u64,
                    h.positions.len() as u64,
                ] {
                    d = fnv(d, &x.to_le_bytes());
                }
                self.st.states.insert(d);
            }
        }
    }

    fn commute(&mut self, a: &TxSpec, b: &TxSpec) {
        let env = self.env();
        let (ca, cb) = match (compile(&self.s, &self.l, &env, a), compile(&self.s, &self.l, &env, b)) {
            (Some(x), Some(y)) => (x, y),
            _ => return,
        };
        let named = |t: &TxSpec| -> BTreeSet<Pubkey> { t.ops.iter().flat_map(|o| self.h.pool_named(&self.s, o, &self.l)).collect() };
        let (na, nb) = (named(a), named(b));
        let minted = |t: &TxSpec| -> BTreeSet<u16> {
            t.ops.iter().filter_map(|o| if let Op::MintNft { nft, .. } = o { Some(*nft) } else { None }).collect()
        };
        if minted(a).intersection(&minted(b)).next().is_some() {
            return; // the same NFT cannot be minted twice
        }
        if na.is_empty() || nb.is_empty() || na.intersection(&nb).next().is_some() || !a.clean() || !b.clean() {
            return;
        }
        let pair = |x: &Compiled, y: &Compiled| {
            let mut l = self.l.clone();
            let r1 = bank::execute(&l, &x.tx, &env);
            bank::apply(&mut l, &r1);
            let r2 = bank::execute(&l, &y.tx, &env);
            bank::apply(&mut l, &r2);
            (r1, r2, l)
        };
        let (a1, b1, l1) = pair(&ca, &cb);
        let (b2, a2, l2) = pair(&cb, &ca);
        let names = format!("{}/{}", op_name(&a.ops[0]), op_name(&b.ops[0]));
        let all_ok = a1.ok && b1.ok && a2.ok && b2.ok;
        if all_ok {
            self.st.add("commuted");
            let ev = |r: &TxResult| r.events.iter().map(|e| e.2.clone()).collect::<Vec<_>>();
            if l1 != l2 || ev(&a1) != ev(&a2) || ev(&b1) != ev(&b2) {
                let k = l1.iter().find(|(k, v)| l2.get(k) != Some(v)).map(|x| x.0.to_string()).unwrap_or_default();
                self.flag(viol(&[16], format!("order-matters:{}", names), format!("{} on different pools give different states in different order (account {})", names, k)));
            }
        } else {
            // one may be refused in one order only for want of funds
            let p1 = spec::predict(&self.l, &ca.tx, &env).is_ok() && spec::predict(&self.l, &cb.tx, &env).is_ok();
            if p1 && (a1.ok != a2.ok || b1.ok != b2.ok) {
                let mut l = self.l.clone();
                bank::apply(&mut l, &bank::execute(&self.l, &ca.tx, &env));
                let poor = |s: &Result<spec::Predicted, Stop>| matches!(s, Err(Stop::Fail("insufficient-funds")) | Err(Stop::Fail("underpaid")) | Err(Stop::Unsure(_)));
                let x = spec::predict(&l, &cb.tx, &env);
                let mut l = self.l.clone();
                bank::apply(&mut l, &bank::execute(&self.l, &cb.tx, &env));
                let y = spec::predict(&l, &ca.tx, &env);
                if !poor(&x) && !poor(&y) {
                    self.flag(viol(&[16], format!("order-decides:{}", names), format!("{} on different pools succeed or fail depending on their order", names)));
                }
            }
            self.st.add("commuted-partly");
        }
        self.run(a, &ca);
        self.run(b, &cb);
    }

    fn replay(&mut self, seed: u64) {
        let mut g = Rng::new(seed);
        let n = self.done.len();
        if n == 0 {
            return;
        }
        for _ in 0..6.min(n) {
            let d = self.done[g.below(n as u64) as usize].clone();
            let r = bank::execute(&d.pre, &d.tx, &d.env);
            self.st.add("fault:replayed-later");
            if digest(&r) != d.digest {
                self.flag(viol(&[21], "replay:later", "a transaction had another result when executed again later on the same state"));
            }
        }
    }

    pub fn balance(&self, u: u8, t: u8) -> u64 {
        tok_of(&self.l, &self.s.utok(u, t)).map(|t| t.amount).unwrap_or(0)
    }
    fn pool_index(&self, k: &Pubkey) -> Option<u8> {
        (0..self.s.pools.len() as u8).find(|p| self.s.pid(*p).key() == *k)
    }
    fn nft_index(&self, m: &Pubkey) -> Option<u16> {
        (0..64u16).find(|n| self.s.nft(*n) == *m)
    }

    fn exit(&mut self, seed: u64) {
        let mut g = Rng::new(seed);
        self.st.add("probe-run:exit");
        // what others may do first
        for _ in 0..g.below(4) {
            self.hostile(&mut g);
        }
        if g.chance(1, 2) {
            let dt = [0i64, 1, 13, 14, 15, 3600, 86_400 * 40][g.below(7) as usize];
            self.step(&Step::Clock { dt });
        }
        #[derive(Clone, Copy)]
        enum H {
            Pos(u8, u8, i32, i32),
            Nft(u16, u8),
        }
        let mut list: Vec<H> = vec![];
        for (pk, _, owner, lo, hi, _) in self.h.positions_of(&self.l) {
            if let (Some(p), Some(Who::U(u))) = (self.pool_index(&pk), hist::who_of(&self.s, &owner)) {
                list.push(H::Pos(p, u, lo, hi));
            }
        }
        for m in self.h.nfts.clone() {
            if let Some(n) = self.nft_index(&m) {
                if let Some((u, _)) = nft_holder(&self.s, &self.l, n) {
                    list.push(H::Nft(n, u));
                }
            }
        }
        g.shuffle(&mut list);
        let mut skipped = false;
        for x in list {
            let mut txs: Vec<Op> = vec![];
            let (want, poolk, by): ([u64; 2], Pubkey, u8);
            match x {
                H::Pos(p, u, lo, hi) => {
                    let id = self.s.pid(p);
                    let pos = match self.l.get(&id.position(&self.s.user(u), lo, hi).0).and_then(|a| Position::parse(&a.data)) {
                        Some(p) => p,
                        None => continue,
                    };
                    let pool = match pool_of(&self.l, &id.key()) {
                        Some(p) => p,
                        None => continue,
                    };
                    let cut = if g.chance(1, 3) && pos.liquidity > 1 { g.range(1, pos.liquidity) } else { pos.liquidity };
                    let (x, y) = floors(&pool, lo, hi, &[cut, pos.liquidity - cut]);
                    want = [x.saturating_add(pos.owed_0), y.saturating_add(pos.owed_1)];
                    poolk = id.key();
                    by = u;
                    for c in [cut, pos.liquidity - cut] {
                        if c > 0 {
                            txs.push(Op::Burn { by: u, pool: p, lo, hi, liq: c });
                        }
                    }
                    txs.push(Op::Collect { by: u, pool: p, lo, hi, a0: u64::MAX, a1: u64::MAX, to: u });
                    if pos.liquidity == 0 && pos.owed_0 == 0 && pos.owed_1 == 0 {
                        continue;
                    }
                }
                H::Nft(n, u) => {
                    let st = match nft_of(&self.l, &self.s.nft(n)) {
                        Some(s) => s,
                        None => continue,
                    };
                    let pool = match pool_of(&self.l, &st.pool_id) {
                        Some(p) => p,
                        None => continue,
                    };
                    let cut = if g.chance(1, 3) && st.liquidity > 1 { g.range(1, st.liquidity) } else { st.liquidity };
                    let (x, y) = floors(&pool, st.tick_lower, st.tick_upper, &[cut, st.liquidity - cut]);
                    want = [x.saturating_add(st.owed_0), y.saturating_add(st.owed_1)];
                    poolk = st.pool_id;
                    by = u;
                    for c in [cut, st.liquidity - cut] {
                        if c > 0 {
                            txs.push(Op::Dec { by: u, nft: n, liq: c, m0: 0, m1: 0, dl: i64::MAX });
                        }
                    }
                    txs.push(Op::CollectNft { by: u, nft: n, a0: u64::MAX, a1: u64::MAX, to: u });
                    if st.liquidity == 0 && st.owed_0 == 0 && st.owed_1 == 0 {
                        continue;
                    }
                }
            }
            let pi = match self.pool_index(&poolk) {
                Some(p) => p,
                None => continue,
            };
            let toks = [self.s.side_tok(pi, 0), self.s.side_tok(pi, 1)];
            let had = [self.balance(by, toks[0]), self.balance(by, toks[1])];
            // anyone may have closed the accounts of ticks no liquidity refers to any more; the owner can bring them back
            let (lo, hi) = match x {
                H::Pos(_, _, lo, hi) => (lo, hi),
                H::Nft(n, _) => nft_of(&self.l, &self.s.nft(n)).map(|s| (s.tick_lower, s.tick_upper)).unwrap_or((0, 0)),
            };
            for t in [lo, hi] {
                if !ops::exists(&self.l, &self.s.pid(pi).tick(t).0) && !self.h.revived.contains(&self.s.pid(pi).tick(t).0) {
                    self.st.add("probe:exit-after-tick-closed");
                    txs.insert(0, Op::InitTick { by, pool: pi, tick: t });
                }
            }
            let mut done = true;
            for op in txs {
                let o = match self.tx(&TxSpec::one(op.clone())) {
                    Some(o) => o,
                    None => {
                        done = false;
                        break;
                    }
                };
                if !o.ok {
                    done = false;
                    skipped = true;
                    match &o.pred {
                        Err(Stop::Unsure(_)) => {}
                        Err(Stop::Fail(reason)) => {
                            // nothing left to pay out, or the account of the sum would not fit its word
                            let nft = matches!(op, Op::CollectNft { .. } | Op::Dec { .. });
                            let harmless = *reason == "overflow" || *reason == "nothing-owed" || *reason == "poke-of-empty-position" && want == [0, 0];
                            if !harmless {
                                let mut p = vec![17];
                                if *reason == "insufficient-funds" {
                                    p.push(1);
                                }
                                if nft {
                                    p.push(10);
                                }
                                self.flag(viol(&p, format!("exit:{}:{}", op_name(&op), reason), format!("owner cannot leave: {} refused ({}), {:?}", op_name(&op), reason, o.err)));
                            }
                        }
                        Ok(_) => {} // already reported by the judge
                    }
                    break;
                }
            }
            if done {
                self.st.add("probe:exited");
                let got = [self.balance(by, toks[0]) as i128 - had[0] as i128, self.balance(by, toks[1]) as i128 - had[1] as i128];
                for side in 0..2 {
                    // custody rounds once more per update
                    let slack = if matches!(x, H::Nft(..)) { 2 } else { 0 };
                    if got[side] + slack < want[side] as i128 {
                        self.flag(viol(
                            &[17, 1],
                            "exit:short",
                            format!("owner leaving received {} of token {} but was owed at least {}", got[side], side, want[side]),
                        ));
                    }
                }
            }
        }
        // the protocol is the last one out
        let owner = self.protocol_owner();
        for p in 0..self.s.pools.len() as u8 {
            let k = self.s.pid(p).key();
            if let (Some(pool), Some(o)) = (pool_of(&self.l, &k), owner) {
                if pool.proto_0 > 0 || pool.proto_1 > 0 {
                    let (a, b) = (self.balance(o, self.s.side_tok(p, 0)), self.balance(o, self.s.side_tok(p, 1)));
                    if let Some(x) = self.tx(&TxSpec::one(Op::CollectProtocol { by: o, pool: p, a0: u64::MAX, a1: u64::MAX, to: o })) {
                        let got = (self.balance(o, self.s.side_tok(p, 0)) - a, self.balance(o, self.s.side_tok(p, 1)) - b);
                        if (!x.ok || got != (pool.proto_0, pool.proto_1)) && !matches!(x.pred, Err(Stop::Unsure(_))) {
                            self.flag(viol(&[1, 6], "exit:protocol", format!("protocol was owed {:?} and received {:?}: {:?}", (pool.proto_0, pool.proto_1), got, x.err)));
                        }
                    }
                }
                if !skipped {
                    let left = self.h.positions_of(&self.l).iter().filter(|x| x.0 == k && x.5.liquidity > 0).count();
                    if left == 0 {
                        self.st.add("probe:emptied-pool");
                        let pool = pool_of(&self.l, &k).unwrap_or(pool);
                        if pool.liquidity != 0 {
                            self.flag(viol(&[7], "exit:liquidity-left", format!("pool without positions still has liquidity {}", pool.liquidity)));
                        }
                    }
                }
            }
        }
    }

    pub fn protocol_owner(&self) -> Option<u8> {
        let f = self.l.get(&factory()).and_then(|a| Factory::parse(&a.data))?;
        (0..self.s.users).find(|u| self.s.user(*u) == f.owner)
    }

    /// something an unfriendly bystander may do
    fn hostile(&mut self, g: &mut Rng) {
        let u = g.below(self.s.users as u64) as u8;
        let p = g.below(self.s.pools.len() as u64) as u8;
        let k = self.s.pid(p).key();
        if pool_of(&self.l, &k).is_none() {
            return;
        }
        let ticks: Vec<i32> = self.h.pools.get(&k).map(|h| h.ticks.keys().copied().collect()).unwrap_or_default();
        let op = match g.below(6) {
            0 if !ticks.is_empty() => Op::CloseTick { pool: p, tick: *g.pick(&ticks), to: u },
            1 => Op::GrowObs { by: u, pool: p, n: 1 + g.below(3) as u8, alt: false },
            2 => {
                let zfo = g.chance(1, 2);
                let b = self.balance(u, self.s.side_tok(p, if zfo { 0 } else { 1 }));
                Op::Swap { by: u, pool: p, zfo, amount: (b.min(i64::MAX as u64 / 2) / (1 + g.below(4))) as i64, limit: 0, to: u, byz: false }
            }
            3 => match self.protocol_owner() {
                Some(o) => Op::SetFeeProtocol { by: o, n: 2 + g.below(9) as u8 },
                None => return,
            },
            4 => {
                // ten times the same partition
                Op::GrowObs { by: u, pool: p, n: 0, alt: false }
            }
            _ => {
                if let Some(t) = g.maybe(&ticks) {
                    let pr = math::sqrt_at(*t);
                    let cur = pool_of(&self.l, &k).map(|p| p.sqrt_price).unwrap_or(0);
                    Op::Swap { by: u, pool: p, zfo: pr < cur, amount: i64::MAX / 4, limit: pr, to: u, byz: false }
                } else {
                    return;
                }
            }
        };
        self.tx(&TxSpec::one(op));
    }

    fn live(&mut self, seed: u64) {
        let mut g = Rng::new(seed);
        self.st.add("probe-run:live");
        let dt = [0i64, 1, 13, 14, 29, 3600, 86_400 * 3, 86_400 * 400][g.below(8) as usize];
        self.step(&Step::Clock { dt });
        for p in 0..self.s.pools.len() as u8 {
            if !self.pool_exists(p) {
                continue;
            }
            let toks = [self.s.side_tok(p, 0), self.s.side_tok(p, 1)];
            let rich = (0..self.s.users).max_by_key(|u| self.balance(*u, toks[0]).min(self.balance(*u, toks[1]))).unwrap_or(0);
            let order = if g.chance(1, 2) { [true, false] } else { [false, true] };
            for zfo in order {
                let pool = match pool_of(&self.l, &self.s.pid(p).key()) {
                    Some(p) => p,
                    None => continue,
                };
                if zfo && pool.sqrt_price <= MIN_SQRT_RATIO + 1 || !zfo && pool.sqrt_price >= MAX_SQRT_RATIO - 1 {
                    continue;
                }
                let (bi, bo) = (self.balance(rich, toks[if zfo { 0 } else { 1 }]), self.balance(rich, toks[if zfo { 1 } else { 0 }]));
                let bits = g.below(40);
                let amt = (1 + g.below(1 << bits)).min(bi / 4 + 1).max(1) as i64;
                let exact_out = g.chance(1, 2);
                // stay near the current price
                let lim = {
                    let d = 1 + g.below(400) as i32;
                    let t = if zfo { pool.tick - d } else { pool.tick + 1 + d };
                    let t = t.clamp(MIN_TICK, MAX_TICK);
                    let l = math::sqrt_at(t);
                    if zfo {
                        l.clamp(MIN_SQRT_RATIO + 1, pool.sqrt_price - 1)
                    } else {
                        l.clamp(pool.sqrt_price + 1, MAX_SQRT_RATIO - 1)
                    }
                };
                let op = if g.chance(1, 3) && !exact_out {
                    Op::ExactSingle { by: rich, pool: p, zfo, amount: amt as u64, min: 0, limit: lim, dl: i64::MAX, to: rich }
                } else {
                    Op::Swap { by: rich, pool: p, zfo, amount: if exact_out { -amt } else { amt }, limit: lim, to: rich, byz: false }
                };
                let _ = bo;
                self.must(op, &["insufficient-funds", "underpaid", "bad-price-limit", "overflow"], &[18]);
            }
            // a deposit around the price, creating whatever accounts it needs
            let pool = match pool_of(&self.l, &self.s.pid(p).key()) {
                Some(p) => p,
                None => continue,
            };
            let sp = pool.tick_spacing.max(1) as i32;
            let c = pool.tick.div_euclid(sp);
            let (lo, hi) = ((c - g.below(3) as i32) * sp, (c + 1 + g.below(3) as i32) * sp);
            let bad = |t: i32| t < MIN_TICK || t > MAX_TICK;
            if !bad(lo) && !bad(hi) {
                for t in [lo, hi] {
                    if !ops::exists(&self.l, &self.s.pid(p).tick(t).0) {
                        let key = self.s.pid(p).tick(t).0;
                        if self.h.revived.contains(&key) {
                            return;
                        }
                        self.must(Op::InitTick { by: rich, pool: p, tick: t }, &[], &[18, 19]);
                    }
                    let w = slot_of(t / sp).0;
                    if !ops::exists(&self.l, &self.s.pid(p).bitmap(w).0) {
                        self.must(Op::InitBitmap { by: rich, pool: p, word: w }, &[], &[18, 19]);
                    }
                }
                let id = self.s.pid(p);
                if !ops::exists(&self.l, &id.position(&self.s.user(rich), lo, hi).0) {
                    self.must(Op::InitPos { by: rich, owner: Who::U(rich), pool: p, lo, hi }, &[], &[18, 19]);
                }
                self.must(
                    Op::Mint { by: rich, owner: Who::U(rich), pool: p, lo, hi, liq: 1 + g.below(5000), byz: false },
                    &["insufficient-funds", "underpaid", "liquidity-overflow", "overflow"],
                    &[18],
                );
            }
            self.must(Op::GrowObs { by: rich, pool: p, n: 1, alt: false }, &["overflow"], &[14, 18]);
        }
    }

    /// an honest operation that has to go through unless one of the given reasons applies
    fn must(&mut self, op: Op, excuse: &[&str], props: &[u8]) -> bool {
        let name = op_name(&op);
        let o = match self.tx(&TxSpec::one(op)) {
            Some(o) => o,
            None => return false,
        };
        self.st.add("probe:had-to-go-through");
        if !o.ok {
            if let Err(Stop::Fail(r)) = &o.pred {
                if !excuse.contains(r) {
                    self.flag(viol(props, format!("live:{}:{}", name, r), format!("{} by an honest client refused ({}): {:?}", name, r, o.err)));
                }
            }
        }
        o.ok
    }

    fn round(&mut self, seed: u64) {
        let mut g = Rng::new(seed);
        self.st.add("probe-run:round-trip");
        let live: Vec<u8> = (0..self.s.pools.len() as u8).filter(|p| self.pool_exists(*p)).collect();
        if live.is_empty() {
            return;
        }
        let p = *g.pick(&live);
        let u = g.below(self.s.users as u64) as u8;
        let toks = [self.s.side_tok(p, 0), self.s.side_tok(p, 1)];
        let start = [self.balance(u, toks[0]), self.balance(u, toks[1])];
        let n = 1 + g.below(8);
        let small = g.chance(1, 2);
        let max = g.range(1, 50);
        for _ in 0..n {
            let zfo = g.chance(1, 2);
            let b = self.balance(u, toks[if zfo { 0 } else { 1 }]);
            let bits = g.below(8);
            let small_amt = 1 + g.below(1 << bits);
            let amt = if small { small_amt } else { (1 + g.below(1 << max)).min(b.max(1)) }.min(i64::MAX as u64 / 4) as i64;
            let out = g.chance(1, 2);
            let pool = match pool_of(&self.l, &self.s.pid(p).key()) {
                Some(p) => p,
                None => return,
            };
            let ticks: Vec<i32> = self.h.pools.get(&self.s.pid(p).key()).map(|h| h.ticks.keys().copied().collect()).unwrap_or_default();
            let limit = match g.maybe(&ticks) {
                Some(t) if g.chance(1, 2) => {
                    let pr = math::sqrt_at(*t);
                    if (pr < pool.sqrt_price) == zfo && pr != pool.sqrt_price {
                        pr
                    } else {
                        0
                    }
                }
                _ => 0,
            };
            self.tx(&TxSpec::one(Op::Swap { by: u, pool: p, zfo, amount: if out { -amt } else { amt }, limit, to: u, byz: false }));
        }
        // buy back exactly what is missing
        for side in 0..2 {
            let b = self.balance(u, toks[side]);
            if b < start[side] {
                let d = (start[side] - b).min(i64::MAX as u64 / 2) as i64;
                self.tx(&TxSpec::one(Op::Swap { by: u, pool: p, zfo: side == 1, amount: -d, limit: 0, to: u, byz: false }));
                break;
            }
        }
        let end = [self.balance(u, toks[0]), self.balance(u, toks[1])];
        self.st.add(if end[0] >= start[0] || end[1] >= start[1] { "probe:round-trip-closed" } else { "probe:round-trip-open" });
        for side in 0..2 {
            if end[side] >= start[side] && end[1 - side] > start[1 - side] {
                self.flag(viol(
                    &[3, 1],
                    "round-trip",
                    format!("{} swaps took a trader from {:?} to {:?}", n, start, end),
                ));
                return;
            }
        }
    }

    /// liquidity put in and taken out again while the price rests: no gain, and no more lost than one unit of
    /// each token per deposit and per withdrawal
    fn there(&mut self, seed: u64) {
        let mut g = Rng::new(seed);
        self.st.add("probe-run:there-and-back");
        enum H {
            Pos(u8, u8, i32, i32, u64),
            Nft(u16, u8, u8),
        }
        let mut list: Vec<H> = vec![];
        for (pk, _, owner, lo, hi, pos) in self.h.positions_of(&self.l) {
            if let (Some(p), Some(Who::U(u))) = (self.pool_index(&pk), hist::who_of(&self.s, &owner)) {
                list.push(H::Pos(p, u, lo, hi, pos.liquidity));
            }
        }
        for m in self.h.nfts.clone() {
            if let (Some(n), Some(x)) = (self.nft_index(&m), nft_of(&self.l, &m)) {
                if let (Some((u, _)), Some(p)) = (nft_holder(&self.s, &self.l, n), self.pool_index(&x.pool_id)) {
                    list.push(H::Nft(n, u, p));
                }
            }
        }
        let Some(x) = g.maybe(&list) else { return };
        let (u, p) = match *x {
            H::Pos(p, u, ..) => (u, p),
            H::Nft(_, u, p) => (u, p),
        };
        let toks = [self.s.side_tok(p, 0), self.s.side_tok(p, 1)];
        let mut go = |w: &mut Sim, o: Op| w.tx(&TxSpec::one(o)).map(|r| r.ok).unwrap_or(false);
        let bits = g.range(1, 45);
        let (n, m) = (1 + g.below(3), 1 + g.below(3));
        let mut ins = vec![];
        for _ in 0..n {
            let v = [g.range(1, 1 << bits), g.range(1, 1 << bits)];
            ins.push(if g.chance(1, 4) { [u64::MAX / 5, v[1]] } else { v });
        }
        let all = u64::MAX;
        let dl = self.now + 1000;
        let mut total = 0u64;
        let start;
        match *x {
            H::Pos(p, u, lo, hi, liq) => {
                if liq > 0 && !go(self, Op::Burn { by: u, pool: p, lo, hi, liq: 0 }) || !go(self, Op::Collect { by: u, pool: p, lo, hi, a0: all, a1: all, to: u }) {
                    return;
                }
                start = [self.balance(u, toks[0]), self.balance(u, toks[1])];
                for v in ins {
                    if !go(self, Op::Mint { by: u, owner: Who::U(u), pool: p, lo, hi, liq: v[1], byz: false }) {
                        return;
                    }
                    total += v[1];
                }
            }
            H::Nft(nft, u, _) => {
                let liq = |w: &Sim| nft_of(&w.l, &w.s.nft(nft)).map(|x| x.liquidity).unwrap_or(0);
                let had = liq(self);
                let _ = go(self, Op::CollectNft { by: u, nft, a0: all, a1: all, to: u });
                start = [self.balance(u, toks[0]), self.balance(u, toks[1])];
                for v in ins {
                    if !go(self, Op::Inc { by: u, nft, d0: v[0].min(start[0]), d1: v[1].min(start[1]), m0: 0, m1: 0, dl }) {
                        return;
                    }
                }
                total = liq(self).saturating_sub(had);
            }
        }
        let mut parts = vec![];
        let mut left = total;
        for i in 0..m {
            let c = if i + 1 == m { left } else { g.below(left + 1) };
            left -= c;
            if c > 0 {
                parts.push(c);
            }
        }
        for c in &parts {
            let o = match *x {
                H::Pos(p, u, lo, hi, _) => Op::Burn { by: u, pool: p, lo, hi, liq: *c },
                H::Nft(nft, u, _) => Op::Dec { by: u, nft, liq: *c, m0: 0, m1: 0, dl },
            };
            if !go(self, o) {
                return;
            }
        }
        let o = match *x {
            H::Pos(p, u, lo, hi, _) => Op::Collect { by: u, pool: p, lo, hi, a0: all, a1: all, to: u },
            H::Nft(nft, u, _) => Op::CollectNft { by: u, nft, a0: all, a1: all, to: u },
        };
        if !go(self, o) {
            return;
        }
        let end = [self.balance(u, toks[0]), self.balance(u, toks[1])];
        self.st.add("probe:there-and-back");
        let may = n + parts.len() as u64;
        for side in 0..2 {
            if end[side] > start[side] {
                self.flag(viol(&[1, 23], "there-and-back:gain", format!("{} deposits and {} withdrawals took a party from {:?} to {:?}", n, parts.len(), start, end)));
                return;
            }
            if start[side] - end[side] > may {
                self.flag(viol(&[23], "there-and-back:loss", format!("{} deposits and {} withdrawals took a party from {:?} to {:?}", n, parts.len(), start, end)));
                return;
            }
        }
    }

    /// two copies of the world: in one, an owner touches the position along the way.  What the
    /// position has earned in the end is the same up to dust.
    fn patience(&mut self, seed: u64) {
        let mut g = Rng::new(seed);
        self.st.add("probe-run:patience");
        let list: Vec<(u8, u8, i32, i32, Position)> = self
            .h
            .positions_of(&self.l)
            .into_iter()
            .filter(|x| x.5.liquidity > 0)
            .filter_map(|(pk, _, o, lo, hi, p)| match (self.pool_index(&pk), hist::who_of(&self.s, &o)) {
                (Some(i), Some(Who::U(u))) => Some((i, u, lo, hi, p)),
                _ => None,
            })
            .collect();
        if list.is_empty() {
            return;
        }
        let (p, u, lo, hi, pos) = *g.pick(&list);
        let mut moves = vec![];
        for _ in 0..1 + g.below(4) {
            let zfo = g.chance(1, 2);
            let bits = g.range(1, 34);
            let amt = 1 + g.below(1 << bits);
            let by = g.below(self.s.users as u64) as u8;
            moves.push((zfo, amt, by, g.chance(1, 2)));
        }
        let pos_key = self.s.pid(p).position(&self.s.user(u), lo, hi).0;
        let mut ends: Vec<(u128, u128, u64)> = vec![];
        for poke in [false, true] {
            let mut pokes = 0u64;
            let mut res = None;
            self.on_copy(|w| {
                for (zfo, amt, by, touch) in &moves {
                    w.tx(&TxSpec::one(Op::Swap { by: *by, pool: p, zfo: *zfo, amount: *amt as i64, limit: 0, to: *by, byz: false }));
                    if poke && *touch {
                        if let Some(o) = w.tx(&TxSpec::one(Op::Burn { by: u, pool: p, lo, hi, liq: 0 })) {
                            pokes += o.ok as u64;
                        }
                    }
                }
                w.tx(&TxSpec::one(Op::Burn { by: u, pool: p, lo, hi, liq: 0 }));
                res = w.l.get(&pos_key).and_then(|a| Position::parse(&a.data));
            });
            if let Some(r) = res {
                ends.push(((r.owed_0.wrapping_sub(pos.owed_0)) as u128, (r.owed_1.wrapping_sub(pos.owed_1)) as u128, pokes));
            }
        }
        if ends.len() == 2 {
            let (a, b) = (ends[0], ends[1]);
            for (x, y) in [(a.0, b.0), (a.1, b.1)] {
                if y > x || x > y + b.2 as u128 + 1 {
                    self.flag(viol(&[5], "poke-changes-earnings", format!("a position left alone earned {} but touched {} times along the way earned {}", x, b.2, y)));
                }
            }
        }
    }
}

fn floors(p: &Pool, lo: i32, hi: i32, parts: &[u64]) -> (u64, u64) {
    let mut x = (0u64, 0u64);
    for l in parts {
        if *l > 0 {
            let (a, b) = math::position_amounts(p.tick, p.sqrt_price, lo, hi, *l, false).unwrap_or((0, 0));
            x = (x.0.saturating_add(a), x.1.saturating_add(b));
        }
    }
    x
}

#[allow(dead_code)]
pub fn unused() {
    let _ = judge::hex;
}
