//! The seeded scheduler: decides who acts next, with what, when it arrives, what goes wrong.
//! Every decision is drawn from the run's generator; what it decides is recorded as a step.
use crate::abi::*;
use crate::bank::Pay;
use crate::hist;
use crate::math;
use crate::ops::{self, nft_holder, nft_of, pool_of, tick_of, Mut, Op, ScriptSpec, TxSpec};
use crate::rng::Rng;
use crate::sim::{Sim, Step};
use crate::spec::{self, Fact};
use crate::world::{KeyRef, PoolDef, Setup, Who};
use solana_program::pubkey::Pubkey;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum K {
    Mint,
    Burn,
    Collect,
    Swap,
    Route,
    Multi,
    MintNft,
    Inc,
    Dec,
    CollectNft,
    Meta,
    NftMove,
    Approve,
    Grow,
    Close,
    Admin,
    Protocol,
    NewPool,
    Init,
    Pay,
    Callback,
    Junk,
    Byz,
    N,
}
const NK: usize = K::N as usize;

/// what a run concentrates on
#[derive(Clone, Debug)]
pub struct Profile {
    w: [u32; NK],
    /// per thousand
    mutate: u64,
    abort: u64,
    token_fail: u64,
    late: u64,
    several: u64,
    clock: u64,
    clock_style: u8,
    fork: u64,
    restart: u64,
    commute: u64,
    replay: u64,
    exit: u64,
    live: u64,
    round: u64,
    patience: u64,
    there: u64,
    quote: u64,
    liq_bits: u64,
    amt_bits: u64,
    /// one liquidity in this many is a round number
    roundish: u64,
    /// one deposit in this many goes next to another, with the same liquidity
    twins: u64,
    pub steps: usize,
    palette: usize,
    wrong_party: u64,
    revive: u64,
    extreme_ticks: bool,
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    queue: VecDeque<Step>,
    /// what follows the action being decided
    later: Vec<Step>,
    /// per pool: candidate ticks, in units of its spacing
    palette: Vec<Vec<i32>>,
    next_nft: u16,
    next_id: u16,
    in_flight: Vec<u16>,
    prices: Vec<u64>,
    /// pools still waiting for their first, wide deposit
    barren: Vec<u8>,
    /// every pool can be traded through, for long routes
    web: bool,
    /// observation writes still to come on the pool with a large ring
    churn: u32,
    /// vaults that hold about as much as a token account can
    rich: bool,
    /// one user gathers a whole token and deposits it, then withdraws: amounts of over 63 bits
    hoard: bool,
    beyond: bool,
    /// the pool that starts near the lowest (true) or highest price, with enormous liquidity there
    abyss: Option<(u8, bool)>,
}

pub const FOCUS: [&str; 25] = [
    "general", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18",
    "P19", "P20", "P21", "P22", "P23", "P24",
];

fn profile(r: &mut Rng, focus: u8) -> Profile {
    let mut w = [0u32; NK];
    for (k, v) in [
        (K::Mint, 14),
        (K::Burn, 9),
        (K::Collect, 5),
        (K::Swap, 24),
        (K::Route, 6),
        (K::Multi, 4),
        (K::MintNft, 4),
        (K::Inc, 4),
        (K::Dec, 4),
        (K::CollectNft, 4),
        (K::Meta, 1),
        (K::NftMove, 1),
        (K::Approve, 1),
        (K::Grow, 3),
        (K::Close, 2),
        (K::Admin, 1),
        (K::Protocol, 2),
        (K::NewPool, 1),
        (K::Init, 2),
        (K::Pay, 2),
        (K::Callback, 1),
        (K::Junk, 0),
        (K::Byz, 2),
    ] {
        w[k as usize] = v;
    }
    let mut p = Profile {
        w,
        mutate: 15,
        abort: 12,
        token_fail: 6,
        late: 40,
        several: 40,
        clock: 220,
        clock_style: r.below(4) as u8,
        fork: 8,
        restart: 3,
        commute: 5,
        replay: 5,
        exit: 12,
        live: 12,
        round: 12,
        patience: 8,
        there: 0,
        quote: 500,
        liq_bits: if r.chance(1, 7) { 40 + r.below(22) } else { 12 + r.below(30) },
        amt_bits: if r.chance(1, 7) { 40 + r.below(22) } else { 10 + r.below(30) },
        roundish: if r.chance(1, 8) { 2 } else { 12 },
        twins: 8,
        steps: 50 + r.below(90) as usize,
        palette: 3 + r.below(8) as usize,
        wrong_party: 20,
        revive: 0,
        extreme_ticks: r.chance(1, 5),
    };
    let boost = |p: &mut Profile, ks: &[K], f: u32| {
        for k in ks {
            p.w[*k as usize] = p.w[*k as usize].max(1) * f;
        }
    };
    match focus {
        1 => {
            p.exit = 30;
            p.round = 25;
            boost(&mut p, &[K::Burn, K::Collect, K::Protocol], 2);
        }
        2 => {
            boost(&mut p, &[K::Swap], 3);
            p.palette = 3 + r.below(14) as usize;
        }
        3 => {
            boost(&mut p, &[K::Swap], 2);
            p.round = 110;
        }
        4 => {
            boost(&mut p, &[K::Route, K::Multi, K::MintNft, K::Inc, K::Dec], 4);
            p.quote = 850;
            p.late = 120;
        }
        5 => {
            boost(&mut p, &[K::Swap, K::Burn, K::Mint], 2);
            p.patience = 60;
        }
        6 => {
            boost(&mut p, &[K::Protocol, K::Admin], 8);
            boost(&mut p, &[K::Swap], 2);
        }
        7 => {
            boost(&mut p, &[K::Mint, K::Burn], 3);
            boost(&mut p, &[K::Close, K::Init], 3);
        }
        8 => {
            boost(&mut p, &[K::Swap], 3);
            p.extreme_ticks |= r.chance(1, 3);
        }
        9 => {
            p.mutate = 450;
            p.wrong_party = 200;
            boost(&mut p, &[K::Approve, K::NftMove, K::Admin, K::Protocol, K::Callback, K::Junk, K::Pay], 3);
            boost(&mut p, &[K::Collect, K::CollectNft, K::Dec], 2);
        }
        10 => {
            boost(&mut p, &[K::MintNft, K::Inc, K::Dec, K::CollectNft], 6);
            boost(&mut p, &[K::NftMove, K::Approve], 3);
            p.mutate = 120;
            p.palette = 2 + r.below(3) as usize;
            p.exit = 30;
        }
        11 => {
            boost(&mut p, &[K::Byz], 25);
            boost(&mut p, &[K::Callback], 5);
            p.mutate = 100;
            p.token_fail = 30;
        }
        12 => {
            boost(&mut p, &[K::Byz], 30);
            p.abort = 120;
            p.token_fail = 60;
        }
        13 => {
            boost(&mut p, &[K::Grow], 3);
            p.clock = 400;
        }
        14 => {
            boost(&mut p, &[K::Grow], 6);
            p.clock = 500;
            p.clock_style = 1;
        }
        15 => {
            boost(&mut p, &[K::Swap, K::Mint, K::Burn], 2);
            p.clock = 380;
            p.palette = 3 + r.below(3) as usize;
        }
        16 => {
            p.commute = 200;
            p.mutate = 180;
        }
        17 => {
            p.exit = 110;
            boost(&mut p, &[K::Close, K::Admin], 3);
        }
        18 => {
            p.live = 110;
            p.late = 220;
            boost(&mut p, &[K::Pay], 3);
            p.abort = 60;
            boost(&mut p, &[K::Grow], 2);
        }
        19 => {
            p.twins = 3;
            if r.chance(1, 3) {
                p.roundish = 2;
            }
            boost(&mut p, &[K::Init, K::NewPool, K::Close], 12);
            boost(&mut p, &[K::Admin], 5);
            p.wrong_party = 80;
            p.mutate = 150;
        }
        20 => {
            boost(&mut p, &[K::Grow, K::Admin, K::Protocol, K::NewPool, K::Collect, K::CollectNft, K::Inc, K::Dec], 2);
            p.several = 120;
        }
        21 => {
            p.fork = 60;
            p.restart = 30;
            p.replay = 90;
            p.abort = 60;
            p.commute = 40;
        }
        22 => {
            boost(&mut p, &[K::MintNft, K::Meta, K::NftMove], 8);
            boost(&mut p, &[K::Junk, K::Pay], 4);
            p.mutate = 250;
        }
        23 => {
            boost(&mut p, &[K::Mint, K::Burn, K::MintNft, K::Inc, K::Dec], 3);
            p.there = 90;
            p.extreme_ticks |= r.chance(1, 3);
        }
        24 => {
            boost(&mut p, &[K::Collect, K::CollectNft, K::Burn, K::Dec, K::Protocol], 3);
            boost(&mut p, &[K::Swap], 2);
            p.wrong_party = 60;
            p.mutate = 60;
            p.replay = 20;
        }
        _ => {}
    }
    // swarm: leave some kinds of action out of this run, favour others
    for k in 0..NK {
        match r.below(12) {
            0 if k != K::Mint as usize && k != K::Swap as usize => p.w[k] = 0,
            1 => p.w[k] *= 4,
            _ => {}
        }
    }
    for f in [&mut p.mutate, &mut p.abort, &mut p.token_fail, &mut p.late, &mut p.several, &mut p.fork] {
        match r.below(6) {
            0 if *f < 100 => *f = 0,
            1 => *f *= 2,
            _ => {}
        }
    }
    p
}

pub fn make(seed: u64, focus: u8) -> (Setup, Gen) {
    let mut r = Rng::new(seed);
    let f = if focus != 0 && r.chance(1, 4) { 0 } else { focus };
    let mut p = profile(&mut r, f);
    let mut web = r.chance(1, match f {
        4 => 3,
        2 | 16 => 10,
        _ => 40,
    });
    let tokens = 2 + r.below(3) as u8;
    let npools = 1 + r.below(if f == 16 || f == 9 || f == 10 { 4 } else { 3 }) as usize;
    let npools = if web {
        2 + r.below(4) as usize
    } else if f == 16 || f == 4 {
        npools.max(2)
    } else {
        npools
    };
    // pools that are alike but for their tokens or fee
    let alike = npools > 1 && r.chance(if f == 16 { 3 } else { 1 }, 4);
    let tiers: [(u32, u16); 12] = [
        (500, 10),
        (3000, 60),
        (10_000, 200),
        (100, 1),
        (1, 1),
        (3000, 10),
        (20, 2),
        (100_000, 100),
        (0, 5),
        (900_000, 50),
        (999_999, 16_000),
        (2500, 3),
    ];
    let mut pools: Vec<PoolDef> = vec![];
    for _ in 0..npools {
        for _ in 0..8 {
            let a = r.below(tokens as u64 - 1) as u8;
            let b = a + 1 + r.below((tokens - a - 1) as u64) as u8;
            let (fee, ts) = if web || r.chance(3, 5) { tiers[r.below(4) as usize] } else { tiers[r.below(12) as usize] };
            // one spacing per fee tier
            let ts = pools.iter().find(|p| p.fee == fee || alike).map(|p| p.ts).unwrap_or(ts);
            if !pools.iter().any(|p| p.a == a && p.b == b && p.fee == fee) {
                pools.push(PoolDef { a, b, fee, ts });
                break;
            }
        }
    }
    let users = 3 + r.below(3) as u8;
    let rich = r.chance(1, match f {
        11 => 6,
        1 | 4 | 12 => 20,
        _ => 40,
    });
    let hoard = r.chance(1, match f {
        10 | 17 | 24 => 16,
        5 | 7 | 18 => 30,
        _ => 80,
    });
    let rich = rich && !hoard;
    let abyss = if !hoard && r.chance(1, match f {
        _ if rich => 1,
        2 => 8,
        1 | 3 | 6 | 8 => 14,
        _ => 40,
    }) {
        Some((0u8, r.chance(1, 2)))
    } else {
        None
    };
    web &= abyss.is_none() && !rich && !hoard;
    if web {
        p.w[K::Multi as usize] = 20 + 3 * p.w[K::Multi as usize];
        p.extreme_ticks = false;
    }
    if abyss.is_some() && r.chance(2, 3) {
        // a price charged twice over
        pools[0].fee = [500_000, 400_000, 700_000, 100_000][r.below(4) as usize];
        pools[0].ts = [60, 200, 1000, 4000][r.below(4) as usize];
        let d = pools[0].clone();
        pools.retain(|p| *p == d || p.fee != d.fee);
    }
    let fund: Vec<u64> = (0..tokens)
        .map(|_| match r.below(10) {
            _ if rich || hoard || abyss.is_some() && r.chance(4, 5) => u64::MAX / users as u64 - 10,
            0 if !web => 1_000_000,
            1 => (1u64 << 62) / users as u64,
            2 => u64::MAX / users as u64 - 10,
            3..=5 => 1_000_000_000_000_000,
            _ => 1_000_000_000_000,
        })
        .collect();
    let base = 1_640_995_200 + r.below(100_000) as i64;
    let base = if r.chance(1, 10) { (1 << 31) - r.below(200) as i64 } else { base };
    let time = match r.below(4) {
        0 => base / 14 * 14,
        1 => base / 14 * 14 + 13,
        _ => base,
    };
    let setup = Setup { salt: r.below(24) as u32, users, tokens, fund, time, pools: pools.clone(), cache: Default::default() };
    let mut prices = vec![];
    let mut palette: Vec<Vec<i32>> = vec![];
    for (i, d) in pools.iter().enumerate() {
        if alike && i > 0 {
            let (x, y): (u64, Vec<i32>) = (prices[0], palette[0].clone());
            prices.push(x);
            palette.push(y);
            continue;
        }
        let ts = d.ts.max(1) as i32;
        let max = MAX_TICK / ts;
        let t0: i32 = match r.below(10) {
            0 if !web => r.irange(-200_000, 200_000) as i32,
            1 => r.irange(-20_000, 20_000) as i32,
            2 if p.extreme_ticks => MIN_TICK + r.below(300) as i32,
            3 if p.extreme_ticks => MAX_TICK - 1 - r.below(300) as i32,
            4..=5 => r.irange(-300, 300) as i32,
            6 => (r.irange(-400, 400) as i32) * ts,
            _ => 0,
        }
        .clamp(MIN_TICK, MAX_TICK - 1);
        let t0 = match abyss {
            Some((q, low)) if q as usize == i => {
                let d = 3 * ts + r.log(15) as i32;
                (if low { MIN_TICK + d } else { MAX_TICK - 1 - d }).clamp(MIN_TICK, MAX_TICK - 1)
            }
            _ => t0,
        };
        let t0 = if hoard && i == 0 { (r.irange(14_000, 90_000) * if r.chance(1, 2) { 1 } else { -1 }) as i32 } else { t0 };
        let price = match r.below(5) {
            0 => math::sqrt_at(t0).saturating_add(r.below(3)).saturating_sub(1),
            1 => {
                let (a, b) = (math::sqrt_at(t0), math::sqrt_at(t0 + 1));
                r.range(a, b.max(a + 1))
            }
            _ => math::sqrt_at(t0),
        }
        .clamp(MIN_SQRT_RATIO, MAX_SQRT_RATIO - 1);
        prices.push(price);
        let c = t0.div_euclid(ts);
        let mut v: Vec<i32> = vec![];
        let spread = [2i64, 6, 40, 300, 2000][r.weighted(&[3, 5, 4, 2, 1])];
        while v.len() < p.palette.max(2) {
            let x = match r.below(12) {
                0 => c.div_euclid(256) * 256 + [0, 255, 256, -1][r.below(4) as usize],
                1 if p.extreme_ticks => [-max, max, -max + 1, max - 1][r.below(4) as usize],
                _ => c + r.irange(-spread, spread + 1) as i32,
            }
            .clamp(-max, max);
            v.push(x);
            if r.chance(1, 40) {
                break;
            }
        }
        if v.len() < 2 {
            v.push(v[0] + 1);
        }
        palette.push(v);
    }
    let mut g = Gen { r, p, queue: VecDeque::new(), later: vec![], palette, next_nft: 0, next_id: 0, in_flight: vec![], prices, barren: vec![], churn: 0, rich, hoard, beyond: false, abyss, web };
    let vast = match f {
        14 => 1,
        13 | 18 => 2,
        15 | 17 | 20 => 4,
        _ => 10,
    };
    if g.r.chance(1, 40 * vast) {
        // more slots than one byte can count, and enough writes to use them
        g.churn = 270;
        g.p.steps += 600;
    }
    g.opening(&setup);
    (setup, g)
}

/// the account of the same role in another pool
fn counterpart(r: &KeyRef, to: u8) -> Option<KeyRef> {
    Some(match r {
        KeyRef::Pool(_) => KeyRef::Pool(to),
        KeyRef::Vault(_, s) => KeyRef::Vault(to, *s),
        KeyRef::Tick(_, t) => KeyRef::Tick(to, *t),
        KeyRef::Bitmap(_, b) => KeyRef::Bitmap(to, *b),
        KeyRef::Obs(_, o) => KeyRef::Obs(to, *o),
        KeyRef::Pos(_, o, lo, hi) => KeyRef::Pos(to, o.clone(), *lo, *hi),
        _ => return None,
    })
}

fn tx(op: Op) -> Step {
    Step::Tx(TxSpec::one(op))
}

impl Gen {
    fn opening(&mut self, s: &Setup) {
        if self.r.chance(1, 12) {
            // someone else is first
            self.queue.push_back(tx(Op::EnableFee { by: 1, fee: s.pools[0].fee, ts: s.pools[0].ts }));
        }
        self.queue.push_back(tx(Op::InitFactory { by: 0 }));
        let mut seen = vec![];
        for d in &s.pools {
            if !seen.contains(&d.fee) {
                seen.push(d.fee);
                self.queue.push_back(tx(Op::EnableFee { by: 0, fee: d.fee, ts: d.ts }));
            }
        }
        if self.r.chance(1, 2) {
            let n = 2 + self.r.below(9) as u8;
            self.queue.push_back(tx(Op::SetFeeProtocol { by: 0, n }));
        }
        for p in 0..s.pools.len() as u8 {
            if p == 0 || self.web || self.r.chance(3, 4) {
                let by = self.r.below(s.users as u64) as u8;
                let price = self.prices[p as usize];
                self.queue.push_back(tx(Op::CreatePool { by, pool: p, price, twist: 0 }));
                if self.r.chance(1, 2) {
                    let mut near = || (1 + self.r.below(1 << 20)).wrapping_shl(self.r.below(45) as u32).wrapping_neg();
                    let (g0, g1) = (near(), near());
                    self.queue.push_back(Step::Age { pool: p, g0, g1 });
                }
                if self.r.chance(1, 3) {
                    let n = 1 + self.r.below(5) as u8;
                    self.queue.push_back(tx(Op::GrowObs { by, pool: p, n, alt: false }));
                }
            }
            if p == 0 && self.churn > 0 {
                for _ in 0..13 + self.r.below(2) {
                    self.queue.push_back(tx(Op::GrowObs { by: 0, pool: p, n: 20, alt: false }));
                }
                self.barren.push(p);
            } else if self.r.chance(1, 2) || self.web || self.rich || self.abyss.map(|a| a.0) == Some(p) {
                self.barren.push(p);
            }
        }
    }
    /// mostly the way there is something to trade against
    fn direction(&mut self, w: &Sim, p: u8) -> bool {
        let zfo = self.r.chance(1, 2);
        if self.r.chance(1, 6) {
            return zfo;
        }
        let k = w.s.pid(p).key();
        let pool = match pool_of(&w.l, &k) {
            Some(p) => p,
            None => return zfo,
        };
        if pool.liquidity > 0 {
            return zfo;
        }
        let used: Vec<i32> = self.positions(w).iter().filter(|x| x.0 == p && x.4.liquidity > 0).flat_map(|x| [x.2, x.3]).collect();
        let (below, above) = (used.iter().any(|t| *t <= pool.tick), used.iter().any(|t| *t > pool.tick));
        match (below, above) {
            (true, false) => true,
            (false, true) => false,
            _ if pool.sqrt_price <= MIN_SQRT_RATIO + 1 => false,
            _ if pool.sqrt_price >= MAX_SQRT_RATIO - 1 => true,
            _ => zfo,
        }
    }
    fn wide_deposit(&mut self, w: &Sim, p: u8) -> Vec<Step> {
        let sp = self.spacing(w, p);
        let max = MAX_TICK / sp * sp;
        let c = pool_of(&w.l, &w.s.pid(p).key()).map(|x| x.tick.div_euclid(sp) * sp).unwrap_or(0);
        let v = &self.palette[p as usize];
        let (a, b) = (*v.iter().min().unwrap() * sp, *v.iter().max().unwrap() * sp);
        let (lo, hi) = match self.r.below(4) {
            _ if self.web => (-max, max),
            0 => (-max, max),
            1 => (c - 30 * sp, c + 30 * sp),
            2 => (c - 600 * sp, c + 300 * sp),
            _ => (a.min(c - sp), b.max(c + sp)),
        };
        let (lo, hi) = (lo.clamp(-max, max - sp), hi.clamp(-max + sp, max));
        let by = self.user(w);
        let mut v = self.provision(w, by, Who::U(by), p, lo, hi);
        let liq = if self.web {
            let l = 1 << (24 + self.r.below(20));
            self.at_most(w, by, p, lo, hi, l)
        } else {
            self.affordable(w, by, p, lo, hi)
        };
        v.push(tx(Op::Mint { by, owner: Who::U(by), pool: p, lo, hi, liq, byz: false }));
        v
    }

    /// enormous liquidity where the price is extreme and a deposit costs next to nothing
    fn abyss_deposit(&mut self, w: &Sim, p: u8, low: bool) -> Vec<Step> {
        let sp = self.spacing(w, p);
        let max = MAX_TICK / sp * sp;
        let c = pool_of(&w.l, &w.s.pid(p).key()).map(|x| x.tick.div_euclid(sp)).unwrap_or(0);
        let (lo, hi) = if low {
            let room = (c + max / sp).max(1) as u64;
            let k = if self.r.chance(1, 4) { room + 1 } else { 1 + self.r.below(room) } as i32;
            (-max, -max + k * sp)
        } else {
            let room = (max / sp - c - 1).max(1) as u64;
            let k = if self.r.chance(1, 4) { room + 1 } else { 1 + self.r.below(room) } as i32;
            (max - k * sp, max)
        };
        let (a, b) = (math::sqrt_at(lo.max(MIN_TICK)) as f64, math::sqrt_at(hi.min(MAX_TICK)) as f64);
        let q32 = 4294967296f64;
        let whole = if low { q32 / a - q32 / b } else { (b - a) / q32 };
        // what it takes to cross the range
        let fee = w.s.pools[p as usize].fee as f64 / 1e6;
        let cost = if self.r.chance(1, 2) {
            // with the fee, a little more than fits in 64 bits
            18446744073709551616.0 * (1.0 - fee) * (1.0 + 0.5f64.powi(2 + self.r.below(20) as i32))
        } else {
            (1u128 << (58 + self.r.below(7))) as f64 * (1.0 + self.r.below(1000) as f64 / 1000.0)
        };
        let most = u64::MAX / (2 * (MAX_TICK / sp) as u64 + 1);
        let liq = ((cost / whole) as u64).clamp(1, most);
        let by = self.user(w);
        let mut v = self.provision(w, by, Who::U(by), p, lo, hi);
        v.push(tx(Op::Mint { by, owner: Who::U(by), pool: p, lo, hi, liq, byz: false }));
        v
    }
    /// a trade large enough to reach that liquidity
    fn plunge(&mut self, w: &Sim, p: u8, low: bool) -> Op {
        let by = self.user(w);
        let vault = ops::tok_of(&w.l, &w.s.key(&KeyRef::Vault(p, if low { 1 } else { 0 }))).map(|t| t.amount).unwrap_or(0);
        let out = match self.r.below(4) {
            0 => vault,
            1 => vault.saturating_sub(self.r.log(20)),
            _ => vault.saturating_sub(self.r.below(vault / 4 + 1)),
        }
        .min(i64::MAX as u64) as i64;
        let amount = if self.r.chance(1, 3) { i64::MAX >> self.r.below(4) } else { -out };
        Op::Swap { by, pool: p, zfo: low, amount, limit: 0, to: by, byz: false }
    }
    /// everyone's money in the vaults
    fn enrich(&mut self, w: &Sim, p: u8) -> Vec<Step> {
        let mut v = vec![];
        for side in 0..2u8 {
            if self.r.chance(1, 4) {
                continue;
            }
            let token = w.s.side_tok(p, side as usize);
            for by in 1..w.s.users {
                let b = w.balance(by, token);
                let amount = b - self.r.log(60).min(b / 2);
                v.push(tx(Op::Pay { by, token, to: KeyRef::Vault(p, side), amount }));
            }
        }
        v
    }

    /// nearly all there is of a token goes through one position
    fn gather(&mut self, w: &Sim, p: u8) -> Vec<Step> {
        let mut v = vec![];
        let pool = match pool_of(&w.l, &w.s.pid(p).key()) {
            Some(p) => p,
            None => return v,
        };
        let sp = self.spacing(w, p);
        let max = MAX_TICK / sp * sp;
        let side = (pool.tick >= 0) as u8;
        let c = pool.tick.div_euclid(sp) * sp;
        let (lo, hi) = if side == 1 { (-max, c.max(-max + sp)) } else { ((c + sp).min(max - sp), max) };
        let token = w.s.side_tok(p, side as usize);
        let by = self.user(w);
        let mut all = w.balance(by, token);
        for u in 0..w.s.users {
            let amount = w.balance(u, token);
            if u != by && amount > 0 {
                all = all.saturating_add(amount);
                v.push(tx(Op::Pay { by: u, token, to: KeyRef::UserTok(by, token), amount }));
            }
        }
        let part = |all: u64, r: &mut Rng| (all / 2).saturating_sub(r.log(62).min(all / 4)).min(i64::MAX as u64);
        let d = |x: u64| if side == 0 { (x, 0) } else { (0, x) };
        if self.r.chance(1, 3) {
            v.extend(self.provision(w, by, Who::U(by), p, lo, hi));
            let (a, b) = (math::sqrt_at(lo.max(MIN_TICK)), math::sqrt_at(hi.min(MAX_TICK)));
            let (d0, d1) = d(part(all, &mut self.r));
            let l = math::liquidity_for(pool.sqrt_price, a, b, d0, d1).unwrap_or(1);
            for _ in 0..2 {
                v.push(tx(Op::Mint { by, owner: Who::U(by), pool: p, lo, hi, liq: l, byz: false }));
            }
            for _ in 0..2 {
                v.push(tx(Op::Burn { by, pool: p, lo, hi, liq: l }));
            }
            return v;
        }
        v.extend(self.provision(w, by, Who::Factory, p, lo, hi));
        let nft = self.next_nft;
        self.next_nft = (self.next_nft + 1).min(60);
        let (d0, d1) = d(part(all, &mut self.r));
        v.push(tx(Op::MintNft { by, to: by, pool: p, lo, hi, nft, d0, d1, m0: 0, m1: 0, dl: i64::MAX }));
        let (e0, e1) = d(part(all, &mut self.r));
        v.push(tx(Op::Inc { by, nft, d0: e0, d1: e1, m0: 0, m1: 0, dl: i64::MAX }));
        let (a, b) = (math::sqrt_at(lo.max(MIN_TICK)), math::sqrt_at(hi.min(MAX_TICK)));
        for (x, y) in [(d0, d1), (e0, e1)] {
            let l = math::liquidity_for(pool.sqrt_price, a, b, x, y).unwrap_or(1);
            let tip = self.r.below(3);
            v.push(tx(Op::Dec { by, nft, liq: l.saturating_sub(tip), m0: 0, m1: 0, dl: i64::MAX }));
        }
        v.push(tx(Op::Dec { by, nft, liq: 1, m0: 0, m1: 0, dl: i64::MAX }));
        if self.r.chance(1, 2) {
            let (a0, a1) = (self.take(), self.take());
            v.push(tx(Op::CollectNft { by, nft, a0, a1, to: by }));
        }
        v
    }

    fn user(&mut self, w: &Sim) -> u8 {
        self.r.below(w.s.users as u64) as u8
    }
    fn a_pool(&mut self, w: &Sim) -> Option<u8> {
        let v: Vec<u8> = (0..w.s.pools.len() as u8).filter(|p| w.pool_exists(*p)).collect();
        self.r.maybe(&v).copied()
    }
    fn dt(&mut self, w: &Sim) -> i64 {
        if self.r.chance(1, 40) {
            // a round number of seconds after the newest observation of some pool
            if let Some(t) = self.a_pool(w).and_then(|p| w.h.newest_obs(&w.l, &w.s.pid(p).key())) {
                let k = match self.r.below(3) {
                    0 => 8 + self.r.below(23),
                    _ => 16,
                };
                let at = t as i64 + (1 << k) * (1 + self.r.below(3) as i64) + [0, 0, 0, 1, -1][self.r.below(5) as usize];
                if at > w.now && at < 4_000_000_000 {
                    return at - w.now;
                }
            }
        }
        let r = &mut self.r;
        if r.chance(1, 60) {
            // decades: the program keeps seconds in 32 bits
            let most = (4_000_000_000 - w.now).max(1);
            return if r.chance(1, 3) { most } else { r.irange(0, most) };
        }
        match (self.p.clock_style, r.below(10)) {
            (_, 0) => 0,
            (_, 1) => r.irange(0, 100_000),
            (2, 2) => r.irange(0, 86_400 * 400),
            (1, 2..=6) => [13, 14, 15, 27, 28, 29][r.below(6) as usize],
            (0, _) => r.irange(0, 5),
            (1, _) => r.irange(1, 20),
            (2, _) => r.irange(1, 5000),
            _ => r.irange(0, 40),
        }
        .min((4_100_000_000 - w.now).max(0))
    }
    fn amount(&mut self) -> u64 {
        match self.r.below(50) {
            0..=1 => self.r.log(62),
            2..=5 => self.edge(self.p.amt_bits),
            _ => self.r.log(self.p.amt_bits),
        }
    }
    /// a power of two or its neighbour, those at word sizes most often
    fn edge(&mut self, most: u64) -> u64 {
        let k = match self.r.below(3) {
            0 => [8, 16, 31, 32, 33, 48][self.r.below(6) as usize],
            1 => 32,
            _ => self.r.below(most.max(1)) as u32,
        };
        (1u64 << k.min(62)) + self.r.below(3) - 1
    }
    fn liq(&mut self) -> u64 {
        if self.r.chance(1, self.p.roundish) {
            // round numbers
            return match self.r.below(3) {
                0 => 10u64.pow(self.r.below(16) as u32),
                _ => 1 << self.r.below(50),
            };
        }
        match self.r.below(60) {
            0 => self.r.log(63),
            1..=3 => self.edge(self.p.liq_bits),
            _ => self.r.log(self.p.liq_bits),
        }
    }
    fn deadline(&mut self, w: &Sim) -> i64 {
        match self.r.below(12) {
            0 => w.now - 1,
            1 => w.now,
            2 => w.now + 1 + self.r.below(30) as i64,
            3 => 0,
            4 => [i64::MIN, -1, -(self.r.log(62) as i64), (w.now & u32::MAX as i64) - (1 << 32)][self.r.below(4) as usize],
            5 => w.now + ((1 + self.r.below(8) as i64) << 32) - self.r.below(3) as i64,
            _ => i64::MAX,
        }
    }
    fn spacing(&self, w: &Sim, p: u8) -> i32 {
        w.s.pools[p as usize % w.s.pools.len()].ts.max(1) as i32
    }
    fn range(&mut self, w: &Sim, p: u8) -> (i32, i32) {
        let sp = self.spacing(w, p);
        let v = &self.palette[p as usize % self.palette.len()];
        let (a, b) = (*self.r.pick(v), *self.r.pick(v));
        let (mut lo, mut hi) = (a.min(b) * sp, a.max(b) * sp);
        if lo == hi {
            hi = lo + sp;
            if hi > MAX_TICK {
                hi = lo;
                lo = hi - sp;
            }
        }
        (lo, hi)
    }
    /// accounts a deposit needs, created first
    fn provision(&mut self, w: &Sim, by: u8, owner: Who, p: u8, lo: i32, hi: i32) -> Vec<Step> {
        let id = w.s.pid(p);
        let sp = self.spacing(w, p);
        let mut v = vec![];
        let mut words = vec![];
        for t in [lo, hi] {
            if !ops::exists(&w.l, &id.tick(t).0) {
                v.push(tx(Op::InitTick { by, pool: p, tick: t }));
            }
            let wd = slot_of(t / sp).0;
            if !words.contains(&wd) && !ops::exists(&w.l, &id.bitmap(wd).0) {
                v.push(tx(Op::InitBitmap { by, pool: p, word: wd }));
                words.push(wd);
            }
        }
        if !ops::exists(&w.l, &id.position(&w.s.who(owner), lo, hi).0) {
            v.push(tx(Op::InitPos { by, owner, pool: p, lo, hi }));
        }
        if v.len() > 1 && self.r.chance(1, 6) {
            // all in one transaction
            let ops = v.iter().filter_map(|s| if let Step::Tx(t) = s { Some(t.ops[0].clone()) } else { None }).collect();
            v = vec![Step::Tx(TxSpec { ops, ..Default::default() })];
        }
        v
    }
    fn affordable(&mut self, w: &Sim, by: u8, p: u8, lo: i32, hi: i32) -> u64 {
        let l = self.liq();
        self.at_most(w, by, p, lo, hi, l)
    }
    fn at_most(&mut self, w: &Sim, by: u8, p: u8, lo: i32, hi: i32, mut l: u64) -> u64 {
        if let Some(pool) = pool_of(&w.l, &w.s.pid(p).key()) {
            let (b0, b1) = (w.balance(by, w.s.side_tok(p, 0)), w.balance(by, w.s.side_tok(p, 1)));
            while l > 1 {
                match math::position_amounts(pool.tick, pool.sqrt_price, lo.clamp(MIN_TICK, MAX_TICK), hi.clamp(MIN_TICK, MAX_TICK), l, true) {
                    Some((x, y)) if x <= b0 / 4 && y <= b1 / 4 => break,
                    _ => l /= 2,
                }
            }
        }
        l.max(1)
    }
    /// a price limit
    fn limit(&mut self, w: &Sim, p: u8, zfo: bool) -> u64 {
        let pool = match pool_of(&w.l, &w.s.pid(p).key()) {
            Some(p) => p,
            None => return 0,
        };
        let ticks: Vec<i32> = w.h.pools.get(&w.s.pid(p).key()).map(|h| h.ticks.keys().copied().collect()).unwrap_or_default();
        match self.r.below(20) {
            0..=8 => 0,
            9..=14 => match self.r.maybe(&ticks) {
                Some(t) => {
                    let pr = math::sqrt_at(*t);
                    match self.r.below(6) {
                        0 => pr + 1,
                        1 => pr - 1,
                        2 => math::sqrt_at((*t - 1).max(MIN_TICK)),
                        _ => pr,
                    }
                }
                None => 0,
            },
            15..=17 => {
                let d = 1 + self.r.log(24);
                if zfo {
                    pool.sqrt_price.saturating_sub(d)
                } else {
                    pool.sqrt_price + d
                }
            }
            18 => match self.r.below(4) {
                0 => *self.r.pick(&[MIN_SQRT_RATIO, MIN_SQRT_RATIO + 1, MAX_SQRT_RATIO, MAX_SQRT_RATIO - 1, 1, u64::MAX, pool.sqrt_price]),
                _ if zfo => *self.r.pick(&[MIN_SQRT_RATIO, MIN_SQRT_RATIO, MIN_SQRT_RATIO + 1, MIN_SQRT_RATIO - 1]),
                _ => *self.r.pick(&[MAX_SQRT_RATIO, MAX_SQRT_RATIO, MAX_SQRT_RATIO - 1, MAX_SQRT_RATIO + 1]),
            },
            _ => self.r.next(),
        }
    }
    fn swap_amount(&mut self, w: &Sim, p: u8, zfo: bool, by: u8) -> u64 {
        let pool = match pool_of(&w.l, &w.s.pid(p).key()) {
            Some(p) => p,
            None => return 1,
        };
        let ticks: Vec<i32> = w.h.pools.get(&w.s.pid(p).key()).map(|h| h.ticks.keys().copied().collect()).unwrap_or_default();
        let tok = w.s.side_tok(p, if zfo { 0 } else { 1 });
        match self.r.below(10) {
            0..=3 if pool.liquidity > 0 && !ticks.is_empty() => {
                // just about what moves the price to some tick
                let t = *self.r.pick(&ticks);
                let (a, b) = (pool.sqrt_price.min(math::sqrt_at(t)), pool.sqrt_price.max(math::sqrt_at(t)));
                let x = if zfo { math::amount0(a, b, pool.liquidity, true) } else { math::amount1(a, b, pool.liquidity, true) };
                let fee = pool.fee as u128;
                let x = x.unwrap_or(1) as u128;
                let x = if self.r.chance(1, 2) && fee < 1_000_000 { x * 1_000_000 / (1_000_000 - fee) } else { x };
                (x.min(1 << 61) as u64).saturating_add(self.r.below(4)).saturating_sub(self.r.below(3)).max(1)
            }
            4 => 1 + self.r.below(5),
            5 => w.balance(by, tok).saturating_add(self.r.below(2)).min(i64::MAX as u64).max(1),
            6 => (w.balance(by, tok) >> self.r.below(20)).max(1).min(i64::MAX as u64),
            _ => self.amount(),
        }
    }

    fn positions(&self, w: &Sim) -> Vec<(u8, Who, i32, i32, Position)> {
        let mut v = vec![];
        for (pk, _, o, lo, hi, p) in w.h.positions_of(&w.l) {
            if let (Some(i), Some(u)) = ((0..w.s.pools.len() as u8).find(|i| w.s.pid(*i).key() == pk), hist::who_of(&w.s, &o)) {
                v.push((i, u, lo, hi, p));
            }
        }
        v
    }
    fn nft_list(&self, w: &Sim) -> Vec<u16> {
        (0..self.next_nft).filter(|n| nft_of(&w.l, &w.s.nft(*n)).is_some()).collect()
    }
    fn holder(&mut self, w: &Sim, n: u16) -> u8 {
        if self.r.chance(self.p.wrong_party, 1000) {
            return self.user(w);
        }
        nft_holder(&w.s, &w.l, n).map(|h| h.0).unwrap_or(0)
    }
    fn part(&mut self, l: u64) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => l.saturating_add(1),
            2 => 1.min(l),
            3..=4 => l,
            5 => l.saturating_sub([1, l / 2][self.r.below(2) as usize]),
            _ => {
                if l == 0 {
                    1
                } else {
                    1 + self.r.below(l)
                }
            }
        }
    }
    fn take(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 => self.amount(),
            _ => u64::MAX,
        }
    }

    /// what the transaction would do if executed now
    fn facts(&self, w: &Sim, op: &Op) -> Vec<Fact> {
        let env = w.env();
        match ops::compile(&w.s, &w.l, &env, &TxSpec::one(op.clone())) {
            Some(c) => spec::predict(&w.l, &c.tx, &env).map(|p| p.facts).unwrap_or_default(),
            None => vec![],
        }
    }
    fn bound(&mut self, exact: u64) -> u64 {
        match self.r.below(8) {
            0..=2 => exact,
            3..=4 => exact.saturating_add(1),
            5 => exact.saturating_sub(1),
            6 => exact / 2,
            _ => 0,
        }
    }
    fn quoted(&mut self, w: &Sim, mut op: Op) -> Op {
        if !self.r.chance(self.p.quote, 1000) {
            return op;
        }
        // quotes as if the deadline were no concern
        let mut probe = op.clone();
        match &mut probe {
            Op::ExactSingle { dl, .. } | Op::ExactMulti { dl, .. } | Op::MintNft { dl, .. } | Op::Inc { dl, .. } | Op::Dec { dl, .. } => *dl = i64::MAX,
            _ => {}
        }
        let f = self.facts(w, &probe);
        match &mut op {
            Op::ExactSingle { min, .. } | Op::ExactMulti { min, .. } => {
                if let Some(Fact::Swap(x)) = f.iter().rev().find(|x| matches!(x, Fact::Swap(_))) {
                    let out = if x.zfo { x.amount_1 } else { x.amount_0 };
                    *min = self.bound(out.unsigned_abs());
                }
            }
            Op::MintNft { m0, m1, .. } | Op::Inc { m0, m1, .. } => {
                for x in &f {
                    if let Fact::NftMinted { amount_0, amount_1, .. } | Fact::NftIncreased { amount_0, amount_1, .. } = x {
                        *m0 = self.bound(*amount_0);
                        *m1 = self.bound(*amount_1);
                    }
                }
            }
            Op::Dec { m0, m1, .. } => {
                for x in &f {
                    if let Fact::NftDecreased { amount_0, amount_1, .. } = x {
                        *m0 = self.bound(*amount_0);
                        *m1 = self.bound(*amount_1);
                    }
                }
            }
            _ => {}
        }
        op
    }

    /// one operation; further steps that have to come first go to `first`
    fn op(&mut self, w: &Sim, k: usize, first: &mut Vec<Step>) -> Option<Op> {
        let by = self.user(w);
        let k: K = unsafe { std::mem::transmute(k) };
        let p = match k {
            K::NewPool | K::Admin => 0,
            _ => self.a_pool(w)?,
        };
        Some(match k {
            K::Mint => {
                let known = self.positions(w);
                let (mut lo, mut hi) = self.range(w, p);
                let mut twin = None;
                if self.r.chance(1, self.p.twins) {
                    // next to a range already in use, with the same liquidity
                    if let Some((_, _, a, b, q)) = self.r.maybe(&known.into_iter().filter(|x| x.0 == p && x.4.liquidity > 0).collect::<Vec<_>>()).copied() {
                        let sp = self.spacing(w, p);
                        let d = (b - a).max(sp);
                        (lo, hi) = if self.r.chance(1, 2) { (b, b + d) } else { (a - d, a) };
                        if lo < MIN_TICK || hi > MAX_TICK {
                            (lo, hi) = (a, b);
                        }
                        twin = Some(q.liquidity);
                    }
                }
                let owner = match self.r.below(30) {
                    0 => Who::Factory,
                    1..=3 => Who::U(self.user(w)),
                    _ => Who::U(by),
                };
                if self.r.chance(29, 30) {
                    first.extend(self.provision(w, by, owner, p, lo, hi));
                }
                let liq = match twin {
                    Some(l) => l,
                    None if self.r.chance(1, 40) => [0, u64::MAX, 1 << 63][self.r.below(3) as usize],
                    None => self.affordable(w, by, p, lo, hi),
                };
                Op::Mint { by, owner, pool: p, lo, hi, liq, byz: false }
            }
            K::Burn => {
                let v = self.positions(w);
                let (p, o, lo, hi, pos) = *self.r.maybe(&v)?;
                let by = match o {
                    Who::U(u) if !self.r.chance(self.p.wrong_party, 1000) => u,
                    _ => by,
                };
                let liq = self.part(pos.liquidity);
                Op::Burn { by, pool: p, lo, hi, liq }
            }
            K::Collect => {
                let v = self.positions(w);
                let (p, o, lo, hi, pos) = *self.r.maybe(&v)?;
                let by = match o {
                    Who::U(u) if !self.r.chance(self.p.wrong_party, 1000) => u,
                    _ => by,
                };
                let (a0, a1) = if self.r.chance(1, 4) { (self.part(pos.owed_0), self.part(pos.owed_1)) } else { (self.take(), self.take()) };
                let to = if self.r.chance(1, 5) { self.user(w) } else { by };
                Op::Collect { by, pool: p, lo, hi, a0, a1, to }
            }
            K::Swap => {
                let zfo = self.direction(w, p);
                let a = self.swap_amount(w, p, zfo, by) as i64;
                let amount = match self.r.below(40) {
                    0 => 0,
                    1 => i64::MIN,
                    2 => i64::MAX,
                    3 => i64::MIN + 1,
                    _ if self.r.chance(2, 5) => a.saturating_neg(),
                    _ => a,
                };
                let limit = self.limit(w, p, zfo);
                let to = if self.r.chance(1, 8) { self.user(w) } else { by };
                Op::Swap { by, pool: p, zfo, amount, limit, to, byz: false }
            }
            K::Route => {
                let zfo = self.direction(w, p);
                let amount = self.swap_amount(w, p, zfo, by);
                let amount = if self.r.chance(1, 60) { u64::MAX - self.r.below(3) } else { amount };
                let limit = self.limit(w, p, zfo);
                let (dl, to) = (self.deadline(w), if self.r.chance(1, 5) { self.user(w) } else { by });
                let op = Op::ExactSingle { by, pool: p, zfo, amount, min: 0, limit, dl, to };
                self.quoted(w, op)
            }
            K::Multi => {
                let live: Vec<u8> = (0..w.s.pools.len() as u8).filter(|p| w.pool_exists(*p)).collect();
                let (dl, to) = (self.deadline(w), if self.r.chance(1, 5) { self.user(w) } else { by });
                let n = 1 + self.r.below(6) as usize;
                let mut path = vec![(p, self.direction(w, p))];
                let amount = self.swap_amount(w, path[0].0, path[0].1, by);
                let route = |path: &[(u8, bool)]| Op::ExactMulti { by, path: path.to_vec(), amount, min: 0, dl, to };
                // mostly along pools that can take what comes out of the hop before
                let careful = self.r.chance(3, 4);
                while path.len() < n {
                    let (lp, lz) = *path.last().unwrap();
                    let t = w.s.side_tok(lp, if lz { 1 } else { 0 });
                    let mut next: Vec<(u8, bool)> = live
                        .iter()
                        .flat_map(|q| [(*q, true), (*q, false)])
                        .filter(|(q, z)| w.s.side_tok(*q, if *z { 0 } else { 1 }) == t && (*q, !*z) != (lp, lz))
                        .collect();
                    if next.is_empty() && self.r.chance(1, 3) {
                        next.push((lp, !lz));
                    }
                    if careful {
                        next.retain(|x| {
                            let mut longer = path.clone();
                            longer.push(*x);
                            !self.facts(w, &route(&longer)).is_empty()
                        });
                    }
                    match self.r.maybe(&next) {
                        Some(x) => path.push(*x),
                        None => break,
                    }
                }
                self.quoted(w, route(&path))
            }
            K::MintNft => {
                let (lo, hi) = self.range(w, p);
                if self.r.chance(29, 30) {
                    first.extend(self.provision(w, by, Who::Factory, p, lo, hi));
                }
                let nft = if self.r.chance(1, 25) && self.next_nft > 0 {
                    self.r.below(self.next_nft as u64) as u16
                } else {
                    self.next_nft = (self.next_nft + 1).min(60);
                    self.next_nft - 1
                };
                let to = if self.r.chance(1, 4) { self.user(w) } else { by };
                let (d0, d1) = self.desired(w, by, p, lo, hi);
                let dl = self.deadline(w);
                let op = Op::MintNft { by, to, pool: p, lo, hi, nft, d0, d1, m0: 0, m1: 0, dl };
                if first.is_empty() {
                    self.quoted(w, op)
                } else {
                    op
                }
            }
            K::Inc => {
                let v = self.nft_list(w);
                let nft = *self.r.maybe(&v)?;
                let n = nft_of(&w.l, &w.s.nft(nft))?;
                let p = (0..w.s.pools.len() as u8).find(|i| w.s.pid(*i).key() == n.pool_id)?;
                let by = if self.r.chance(1, 4) { by } else { self.holder(w, nft) };
                let (d0, d1) = self.desired(w, by, p, n.tick_lower, n.tick_upper);
                let dl = self.deadline(w);
                let op = Op::Inc { by, nft, d0, d1, m0: 0, m1: 0, dl };
                self.quoted(w, op)
            }
            K::Dec => {
                let v = self.nft_list(w);
                let nft = *self.r.maybe(&v)?;
                let n = nft_of(&w.l, &w.s.nft(nft))?;
                let by = self.holder(w, nft);
                let liq = self.part(n.liquidity);
                let dl = self.deadline(w);
                let op = Op::Dec { by, nft, liq, m0: 0, m1: 0, dl };
                self.quoted(w, op)
            }
            K::CollectNft => {
                let v = self.nft_list(w);
                let nft = *self.r.maybe(&v)?;
                let n = nft_of(&w.l, &w.s.nft(nft))?;
                let by = self.holder(w, nft);
                let (a0, a1) = if self.r.chance(1, 4) { (self.part(n.owed_0), self.part(n.owed_1)) } else { (self.take(), self.take()) };
                let to = if self.r.chance(1, 5) { self.user(w) } else { by };
                Op::CollectNft { by, nft, a0, a1, to }
            }
            K::Meta => {
                let v = self.nft_list(w);
                let nft = *self.r.maybe(&v)?;
                if self.r.chance(1, 8) {
                    // its holder destroys it; somebody attaches metadata and tries to make another one
                    let holder = self.holder(w, nft);
                    self.later.push(tx(Op::AddMeta { by, nft }));
                    self.later.push(tx(Op::MintTo { by, mint: KeyRef::NftMint(nft), to: KeyRef::NftAcc(nft, holder), amount: 1 }));
                    return Some(Op::NftBurn { by: holder, nft });
                }
                Op::AddMeta { by, nft }
            }
            K::NftMove => {
                let v = self.nft_list(w);
                let nft = *self.r.maybe(&v)?;
                let (by, to) = (self.holder(w, nft), self.user(w));
                if self.r.chance(if self.p.wrong_party > 100 { 2 } else { 1 }, 3) {
                    // the former holder carries on with the account he emptied
                    let n = nft_of(&w.l, &w.s.nft(nft))?;
                    let liq = self.part(n.liquidity);
                    self.later.push(tx(Op::Dec { by, nft, liq, m0: 0, m1: 0, dl: i64::MAX }));
                    self.later.push(tx(Op::CollectNft { by, nft, a0: u64::MAX, a1: u64::MAX, to: by }));
                }
                if self.r.chance(1, 5) {
                    return Some(Op::NftAuth { by, nft, kind: 2, to });
                }
                Op::NftTransfer { by, nft, to }
            }
            K::Approve => {
                let to = self.user(w);
                match self.r.below(4) {
                    0 => Op::ApproveTok { by, token: self.r.below(w.s.tokens as u64) as u8, to, amount: self.amount() },
                    1 => Op::RevokeTok { by, token: self.r.below(w.s.tokens as u64) as u8 },
                    x => {
                        let v = self.nft_list(w);
                        let nft = *self.r.maybe(&v)?;
                        let by = self.holder(w, nft);
                        if x == 2 {
                            // the delegate acts for the holder
                            let n = nft_of(&w.l, &w.s.nft(nft))?;
                            let liq = self.part(n.liquidity);
                            let amount = self.r.below(3);
                            let kind = self.r.below(8);
                            self.later.push(tx(Op::Dec { by: to, nft, liq, m0: 0, m1: 0, dl: i64::MAX }));
                            self.later.push(tx(Op::CollectNft { by: to, nft, a0: u64::MAX, a1: u64::MAX, to }));
                            if kind > 0 {
                                Op::ApproveNft { by, nft, to, amount }
                            } else {
                                Op::NftAuth { by, nft, kind: 3, to }
                            }
                        } else if self.r.chance(1, 6) {
                            Op::NftAuth { by, nft, kind: 4, to }
                        } else {
                            Op::RevokeNft { by, nft }
                        }
                    }
                }
            }
            K::Grow => Op::GrowObs { by, pool: p, n: if self.r.chance(1, 40) { 5 + self.r.below(26) as u8 } else { self.r.weighted(&[1, 8, 4, 3, 1]) as u8 }, alt: self.r.chance(1, 10) },
            K::Close => {
                let mut t = self.some_tick(w, p);
                if self.r.chance(1, 2) {
                    // one that could pass for unused
                    let v: Vec<i32> = w.h.pools.get(&w.s.pid(p).key()).map(|h| h.ticks.clone()).unwrap_or_default().iter()
                        .filter(|(_, k)| tick_of(&w.l, k).map_or(false, |t| t.net == 0)).map(|(t, _)| *t).collect();
                    t = self.r.maybe(&v).copied().unwrap_or(t);
                }
                if self.p.revive > 0 && self.r.chance(self.p.revive, 1000) {
                    first.push(Step::Tx(TxSpec {
                        ops: vec![
                            Op::CloseTick { pool: p, tick: t, to: by },
                            Op::Fund { by, to: KeyRef::Tick(p, t), lamports: 10_000_000 },
                        ],
                        ..Default::default()
                    }));
                }
                Op::CloseTick { pool: p, tick: t, to: by }
            }
            K::Admin => {
                let owner = w.protocol_owner().unwrap_or(0);
                let by = if self.r.chance(3, 4) { owner } else { by };
                match self.r.below(6) {
                    0 => Op::SetOwner { by, to: self.user(w) },
                    1 => Op::EnableFee {
                        by,
                        fee: [0, 1, 77, 500, 999_999, 1_000_000, 1_000_001, u32::MAX][self.r.below(8) as usize],
                        ts: [0, 1, 10, 16_383, 16_384, 16_385, u16::MAX][self.r.below(7) as usize],
                    },
                    2 => Op::InitFactory { by },
                    _ => Op::SetFeeProtocol { by, n: if self.r.chance(1, 4) { [0, 1, 11, 255][self.r.below(4) as usize] } else { 2 + self.r.below(9) as u8 } },
                }
            }
            K::Protocol => {
                let owner = w.protocol_owner().unwrap_or(0);
                let by = if self.r.chance(4, 5) { owner } else { by };
                let pool = pool_of(&w.l, &w.s.pid(p).key())?;
                let (a0, a1) = if self.r.chance(1, 2) { (self.part(pool.proto_0), self.part(pool.proto_1)) } else { (self.take(), self.take()) };
                let to = self.user(w);
                Op::CollectProtocol { by, pool: p, a0, a1, to }
            }
            K::NewPool => {
                let pool = self.r.below(w.s.pools.len() as u64) as u8;
                let price = match self.r.below(8) {
                    0 => [0, 1, MIN_SQRT_RATIO - 1, MIN_SQRT_RATIO, MAX_SQRT_RATIO - 1, MAX_SQRT_RATIO, u64::MAX][self.r.below(7) as usize],
                    1 => self.r.next(),
                    _ => self.prices[pool as usize],
                };
                if self.r.chance(1, 30) {
                    let to = if self.r.chance(1, 2) { KeyRef::Pool(pool) } else { KeyRef::Obs(pool, 0) };
                    first.push(tx(Op::Fund { by, to, lamports: 1 + self.r.below(3_000_000) }));
                }
                let twist = if self.r.chance(1, 6) { 1 + self.r.below(3) as u8 } else { 0 };
                Op::CreatePool { by, pool, price, twist }
            }
            K::Init => {
                let sp = self.spacing(w, p);
                match self.r.below(10) {
                    0..=3 => {
                        let t = match self.r.below(6) {
                            0 => [MIN_TICK, MAX_TICK, MIN_TICK - 1, MAX_TICK + 1, i32::MIN, i32::MAX, MIN_TICK / sp * sp, MAX_TICK / sp * sp, MIN_TICK / sp * sp - sp, MAX_TICK / sp * sp + sp]
                                [self.r.below(10) as usize],
                            1 => self.some_tick(w, p) + 1,
                            2 => self.some_tick(w, p),
                            _ => {
                                let v = self.palette[p as usize].clone();
                                *self.r.pick(&v) * sp
                            }
                        };
                        if self.r.chance(1, 25) {
                            first.push(tx(Op::Fund { by, to: KeyRef::Tick(p, t), lamports: 1 + self.r.below(3_000_000) }));
                        }
                        Op::InitTick { by, pool: p, tick: t }
                    }
                    4..=5 => {
                        let (lo, hi) = (slot_of(MIN_TICK / sp).0, slot_of(MAX_TICK / sp).0);
                        let word = match self.r.below(5) {
                            0 => [lo, hi, lo - 1, hi + 1, i16::MIN, i16::MAX][self.r.below(6) as usize],
                            _ => {
                                let v = self.palette[p as usize].clone();
                                slot_of(*self.r.pick(&v)).0 + self.r.irange(-1, 2) as i16
                            }
                        };
                        if self.r.chance(1, 25) {
                            first.push(tx(Op::Fund { by, to: KeyRef::Bitmap(p, word), lamports: 1 + self.r.below(3_000_000) }));
                        }
                        Op::InitBitmap { by, pool: p, word }
                    }
                    _ => {
                        let (mut lo, mut hi) = self.range(w, p);
                        if self.r.chance(1, 5) {
                            std::mem::swap(&mut lo, &mut hi);
                        }
                        if self.r.chance(1, 10) {
                            hi = lo;
                        }
                        let owner = if self.r.chance(1, 8) { Who::Factory } else { Who::U(self.user(w)) };
                        Op::InitPos { by, owner, pool: p, lo, hi }
                    }
                }
            }
            K::Pay => match self.r.below(8) {
                0 => {
                    let v = self.nft_list(w);
                    let n = self.r.maybe(&v).copied().unwrap_or(0);
                    Op::MintTo { by, mint: KeyRef::NftMint(n), to: KeyRef::NftAcc(n, by), amount: 1 }
                }
                1 => Op::Fund { by, to: KeyRef::Pool(p), lamports: self.r.below(1_000_000) },
                2..=3 => {
                    let sp = self.spacing(w, p);
                    let q = pool_of(&w.l, &w.s.pid(p).key())?;
                    let word = slot_of(q.tick.div_euclid(sp)).0;
                    let lamports = if self.r.chance(1, 2) { 1 + self.r.below(3_000_000) } else { 10_000_000 };
                    let to = match self.r.below(6) {
                        0..=1 => {
                            if self.r.chance(1, 2) {
                                let n = 1 + self.r.below(3) as u8;
                                self.later.push(tx(Op::GrowObs { by, pool: p, n, alt: false }));
                            }
                            KeyRef::Obs(p, q.obs_next + self.r.weighted(&[5, 1, 1]) as u16)
                        }
                        2..=3 => {
                            let zfo = self.r.chance(1, 2);
                            let amount = self.swap_amount(w, p, zfo, by).min(1 << 62) as i64;
                            self.later.push(tx(Op::Swap { by, pool: p, zfo, amount, limit: 0, to: by, byz: false }));
                            KeyRef::Bitmap(p, word + self.r.irange(-1, 2) as i16)
                        }
                        4 => {
                            let (lo, hi) = self.range(w, p);
                            KeyRef::Pos(p, Who::U(by), lo, hi)
                        }
                        _ => KeyRef::Tick(p, self.range(w, p).0),
                    };
                    Op::Fund { by, to, lamports }
                }
                _ => {
                    let side = self.r.below(2) as usize;
                    let token = w.s.side_tok(p, side);
                    let to = if self.r.chance(2, 3) { KeyRef::Vault(p, side as u8) } else { KeyRef::UserTok(self.user(w), token) };
                    Op::Pay { by, token, to, amount: self.amount() }
                }
            },
            K::Callback => {
                if self.r.chance(1, 2) {
                    Op::MintCb { by, pool: p, a0: self.amount(), a1: self.amount() }
                } else {
                    let d = self.amount() as i64;
                    Op::SwapCb { by, pool: p, zfo: self.r.chance(1, 2), d0: if self.r.chance(1, 2) { d } else { -d }, d1: if self.r.chance(1, 2) { d } else { -d } }
                }
            }
            K::Junk => {
                let names = [
                    "mint", "burn", "collect", "swap", "initialize", "set_pool_owner", "withdraw", "upgrade", "init_factory", "set_owner",
                    "collect_protocol", "decrease_liquidity", "collect_from_tokenized", "mint_callback", "close", "close_position",
                ];
                let mut data = Enc::ix(names[self.r.below(names.len() as u64) as usize]).0;
                for _ in 0..self.r.below(40) {
                    data.push(self.r.next() as u8);
                }
                if self.r.chance(1, 8) {
                    data = (0..self.r.below(12)).map(|_| 0).collect();
                }
                let all = self.refs(w);
                let keys = (0..self.r.below(16)).map(|_| self.r.pick(&all).0.clone()).collect();
                Op::Junk { by, data, keys }
            }
            K::Byz | K::N => return None,
        })
    }

    fn desired(&mut self, w: &Sim, by: u8, p: u8, lo: i32, hi: i32) -> (u64, u64) {
        let l = self.affordable(w, by, p, lo, hi);
        let (mut a, mut b) = pool_of(&w.l, &w.s.pid(p).key())
            .and_then(|q| math::position_amounts(q.tick, q.sqrt_price, lo.clamp(MIN_TICK, MAX_TICK), hi.clamp(MIN_TICK, MAX_TICK), l, true))
            .unwrap_or((l, l));
        match self.r.below(6) {
            0 => a = a.saturating_mul(2).saturating_add(1),
            1 => b = b.saturating_mul(2).saturating_add(1),
            2 => {
                a = self.amount();
                b = self.amount();
            }
            3 => {
                a = a.saturating_add(self.r.below(3));
                b = b.saturating_add(self.r.below(3));
            }
            _ => {}
        }
        if self.r.chance(1, 50) {
            a = [0, u64::MAX, 1][self.r.below(3) as usize];
        }
        (a, b)
    }
    fn some_tick(&mut self, w: &Sim, p: u8) -> i32 {
        let v: Vec<i32> = w.h.pools.get(&w.s.pid(p).key()).map(|h| h.ticks.keys().copied().collect()).unwrap_or_default();
        let sp = self.spacing(w, p);
        let pal = self.palette[p as usize].clone();
        match self.r.maybe(&v) {
            Some(t) => *t,
            None => *self.r.pick(&pal) * sp,
        }
    }

    /// every account the world knows, with its kind and the pool it belongs to
    fn refs(&self, w: &Sim) -> Vec<(KeyRef, u8, Option<u8>)> {
        let mut v: Vec<(KeyRef, u8, Option<u8>)> = vec![];
        for u in 0..w.s.users {
            v.push((KeyRef::User(u), 0, None));
            for t in 0..w.s.tokens {
                v.push((KeyRef::UserTok(u, t), 1, None));
            }
        }
        for t in 0..w.s.tokens {
            v.push((KeyRef::Mint(t), 2, None));
        }
        for p in 0..w.s.pools.len() as u8 {
            v.push((KeyRef::Pool(p), 3, Some(p)));
            for s in 0..2 {
                v.push((KeyRef::Vault(p, s), 1, Some(p)));
                v.push((KeyRef::FakeVault(p, s), 1, Some(p)));
            }
            if let Some(h) = w.h.pools.get(&w.s.pid(p).key()) {
                for t in h.ticks.keys() {
                    v.push((KeyRef::Tick(p, *t), 4, Some(p)));
                }
                for b in h.bitmaps.keys() {
                    v.push((KeyRef::Bitmap(p, *b), 5, Some(p)));
                }
                for o in h.obs.keys() {
                    v.push((KeyRef::Obs(p, *o), 6, Some(p)));
                }
            }
            v.push((KeyRef::Fee(w.s.pools[p as usize].fee), 8, None));
        }
        for (p, o, lo, hi, _) in self.positions(w) {
            v.push((KeyRef::Pos(p, o, lo, hi), 7, Some(p)));
        }
        for n in self.nft_list(w) {
            v.push((KeyRef::NftMint(n), 2, None));
            v.push((KeyRef::NftState(n), 9, None));
            v.push((KeyRef::NftMeta(n), 11, None));
            for u in 0..w.s.users {
                if w.l.contains_key(&w.s.key(&KeyRef::NftAcc(n, u))) {
                    v.push((KeyRef::NftAcc(n, u), 1, None));
                }
            }
        }
        for k in [KeyRef::Factory, KeyRef::Core, KeyRef::Token, KeyRef::Ata, KeyRef::System, KeyRef::Metadata, KeyRef::Handler, KeyRef::Rent, KeyRef::Nobody(0)] {
            v.push((k, 10, None));
        }
        v
    }

    /// forge accounts or data of an otherwise well-formed transaction
    fn forge(&mut self, w: &Sim, t: &mut TxSpec) -> Option<Step> {
        let env = w.env();
        let c = ops::compile(&w.s, &w.l, &env, t)?;
        if c.tx.ixs.is_empty() {
            return None;
        }
        let refs: Vec<(KeyRef, u8, Option<u8>, Pubkey)> = self.refs(w).into_iter().map(|(r, k, p)| (r.clone(), k, p, w.s.key(&r))).collect();
        let ix = self.r.below(c.tx.ixs.len() as u64) as u8;
        let metas = &c.tx.ixs[ix as usize].metas;
        let n = metas.len() as u64;
        if n == 0 {
            return None;
        }
        let find = |k: &Pubkey| refs.iter().find(|r| r.3 == *k);
        match self.r.below(28) {
            24..=27 => {
                // a single account replaced by its counterpart in another pool
                let mut v: Vec<(u8, KeyRef)> = vec![];
                for (pos, m) in metas.iter().enumerate() {
                    if let Some((r, _, Some(p), _)) = find(&m.key) {
                        for to in 0..w.s.pools.len() as u8 {
                            if to != *p {
                                let twin = counterpart(r, to);
                                if let Some(t) = twin.filter(|t| w.l.contains_key(&w.s.key(t))) {
                                    v.push((pos as u8, t));
                                }
                            }
                        }
                    }
                }
                if let Some((pos, with)) = self.r.maybe(&v).cloned() {
                    t.muts.push(Mut::Key { ix, pos, with });
                }
            }
            20..=21 => {
                // an account of the same contents that the program does not own
                let pos = self.r.below(n) as u8;
                if let Some((r, kind, _, _)) = find(&metas[pos as usize].key) {
                    if matches!(*kind, 1..=9) {
                        t.muts.push(Mut::Key { ix, pos, with: KeyRef::Twin(Box::new(r.clone())) });
                        return Some(Step::Plant { of: r.clone(), by: self.user(w) });
                    }
                }
            }
            22..=23 => {
                // the nearest relative: a token account of the same mint and owner, another range of the same pool ...
                let pos = self.r.below(n) as u8;
                if let Some((_, kind, pool, key)) = find(&metas[pos as usize].key) {
                    let t0 = ops::tok_of(&w.l, key);
                    let own = |k: &Pubkey| {
                        let a = ops::tok_of(&w.l, k);
                        match (&t0, &a) {
                            (Some(x), Some(y)) => (x.mint == y.mint) as u8 * 2 + (x.owner == y.owner) as u8,
                            _ => 0,
                        }
                    };
                    let like: Vec<(u8, KeyRef)> =
                        refs.iter().filter(|r| r.1 == *kind && r.3 != *key && r.2.is_some() == pool.is_some() && (pool.is_none() || r.2 == *pool || *kind == 3)).map(|r| (own(&r.3), r.0.clone())).collect();
                    let best = like.iter().map(|l| l.0).max().unwrap_or(0);
                    let near: Vec<KeyRef> = like.into_iter().filter(|l| l.0 == best).map(|l| l.1).collect();
                    if let Some(x) = self.r.maybe(&near) {
                        t.muts.push(Mut::Key { ix, pos, with: x.clone() });
                    }
                }
            }
            0..=8 => {
                // a look-alike of the same kind in one place
                let count = if self.r.chance(1, 4) { 2 } else { 1 };
                for _ in 0..count {
                    let pos = self.r.below(n) as u8;
                    if let Some((_, kind, _, key)) = find(&metas[pos as usize].key) {
                        let like: Vec<KeyRef> = refs.iter().filter(|r| r.1 == *kind && r.3 != *key).map(|r| r.0.clone()).collect();
                        if let Some(x) = self.r.maybe(&like) {
                            t.muts.push(Mut::Key { ix, pos, with: x.clone() });
                        }
                    }
                }
            }
            9..=12 => {
                // accounts of another pool in some or all places
                let pools: Vec<u8> = metas.iter().filter_map(|m| find(&m.key).and_then(|r| r.2)).collect();
                let (from, to) = match self.r.maybe(&pools) {
                    Some(f) => (*f, self.r.below(w.s.pools.len() as u64) as u8),
                    None => return None,
                };
                let all = self.r.chance(1, 3);
                for (pos, m) in metas.iter().enumerate() {
                    if let Some((r, kind, Some(p), _)) = find(&m.key) {
                        if *p == from && (all || self.r.chance(1, 3)) {
                            let twin = match r {
                                KeyRef::Pool(_) => KeyRef::Pool(to),
                                KeyRef::Vault(_, s) => {
                                    if self.r.chance(1, 3) {
                                        KeyRef::FakeVault(if self.r.chance(1, 2) { from } else { to }, *s)
                                    } else {
                                        KeyRef::Vault(to, *s)
                                    }
                                }
                                KeyRef::Tick(_, t) => KeyRef::Tick(to, *t),
                                KeyRef::Bitmap(_, b) => KeyRef::Bitmap(to, *b),
                                KeyRef::Obs(_, o) => KeyRef::Obs(to, *o),
                                KeyRef::Pos(_, o, lo, hi) => KeyRef::Pos(to, *o, *lo, *hi),
                                _ => continue,
                            };
                            let k = w.s.key(&twin);
                            if w.l.contains_key(&k) || self.r.chance(1, 4) {
                                t.muts.push(Mut::Key { ix, pos: pos as u8, with: twin });
                            } else {
                                let like: Vec<KeyRef> = refs.iter().filter(|r| r.1 == *kind && r.2 == Some(to)).map(|r| r.0.clone()).collect();
                                if let Some(x) = self.r.maybe(&like) {
                                    t.muts.push(Mut::Key { ix, pos: pos as u8, with: x.clone() });
                                }
                            }
                        }
                    }
                }
            }
            13 => {
                let (a, b) = (self.r.below(n) as u8, self.r.below(n) as u8);
                t.muts.push(Mut::Exchange { ix, a, b });
            }
            14 => {
                let (from, to) = (self.r.below(n) as u8, self.r.below(n) as u8);
                t.muts.push(Mut::Copy { ix, from, to });
            }
            15 => {
                // the authority does not sign
                let pos = metas.iter().position(|m| m.signer).unwrap_or(0) as u8;
                t.muts.push(Mut::DropSigner { ix, pos });
                if self.r.chance(1, 2) {
                    let u = self.user(w);
                    t.muts.push(Mut::Append { ix, with: KeyRef::User(u) });
                }
            }
            16 => {
                let len = c.tx.ixs[ix as usize].data.len() as u64;
                let off = if len > 8 { 8 + self.r.below(len - 8) } else { self.r.below(len.max(1)) } as u16;
                let bytes = match self.r.below(4) {
                    0 => vec![0xff; 8],
                    1 => vec![0; 8],
                    2 => vec![0, 0, 0, 0, 0, 0, 0, 0x80],
                    _ => vec![self.r.next() as u8],
                };
                t.muts.push(Mut::Data { ix, off, bytes });
            }
            17 => {
                if self.r.chance(1, 2) {
                    t.muts.push(Mut::RemoveMeta { ix, pos: self.r.below(n) as u8 });
                } else {
                    t.muts.push(Mut::Truncate { ix, n: 1 + self.r.below(3) as u8 });
                }
            }
            18 => {
                let pos = self.r.below(n) as u8;
                t.muts.push(Mut::Key { ix, pos, with: self.r.pick(&refs).0.clone() });
            }
            _ => {
                if self.r.chance(1, 2) {
                    t.muts.push(Mut::DropWritable { ix, pos: self.r.below(n) as u8 });
                } else {
                    let len = c.tx.ixs[ix as usize].data.len() as u64;
                    t.muts.push(Mut::CutData { ix, n: 1 + self.r.below(len.saturating_sub(8).max(1)) as u16 });
                }
            }
        }
        None
    }

    /// a mint or swap paid for by a program under the attacker's control
    fn byzantine(&mut self, w: &Sim, first: &mut Vec<Step>) -> Option<TxSpec> {
        let mut op = if self.r.chance(1, 2) { self.op(w, K::Mint as usize, first)? } else { self.op(w, K::Swap as usize, first)? };
        match &mut op {
            Op::Mint { byz, .. } | Op::Swap { byz, .. } => *byz = true,
            _ => {}
        }
        let beyond = self.r.chance(1, if self.beyond { 2 } else { 30 });
        if beyond {
            // more than anyone has
            match &mut op {
                Op::Mint { by, owner, pool, lo, hi, liq, .. } => {
                    let q = pool_of(&w.l, &w.s.pid(*pool).key())?;
                    let sp = self.spacing(w, *pool);
                    if let Some((_, low)) = self.abyss.filter(|a| a.0 == *pool) {
                        // where a unit of liquidity costs most
                        let max = MAX_TICK / sp * sp;
                        let c = q.tick.div_euclid(sp) * sp;
                        let d = (1 + self.r.below(40_000 / sp as u64 + 2) as i32) * sp;
                        (*lo, *hi) = if low { (c + sp, (c + sp + d).min(max)) } else { ((c - d).max(-max), c) };
                        if *lo >= *hi || *lo < -max {
                            return None;
                        }
                        let v = self.provision(w, *by, *owner, *pool, *lo, *hi);
                        *first = v;
                    }
                    let mut l = u64::MAX / (2 * (MAX_TICK / sp) as u64 + 1) - self.r.below(1000);
                    if self.r.chance(1, 3) {
                        l -= self.r.below(l / 2);
                    }
                    while l > 1 && math::position_amounts(q.tick, q.sqrt_price, (*lo).clamp(MIN_TICK, MAX_TICK), (*hi).clamp(MIN_TICK, MAX_TICK), l, true).map_or(true, |(x, y)| x.max(y) > i64::MAX as u64) {
                        l -= l / 4 + 1;
                    }
                    *liq = l.max(1);
                }
                Op::Swap { amount, .. } => *amount = i64::MAX - self.r.below(3) as i64,
                _ => {}
            }
        }
        let pay = |dest, num, den, plus| Pay { dest, num, den, plus, only: 0 };
        let full = vec![pay(0, 1, 1, 0)];
        let mut s = ScriptSpec::default();
        let mut allow = false;
        match if beyond { 2 + self.r.below(4) } else { self.r.below(19) } {
            0 | 1 => s.pays = full,
            16 | 17 => {
                // one of the tokens in full, the other not (quite)
                let a = 1 + self.r.below(2) as u8;
                s.pays = vec![Pay { only: a, ..pay(0, 1, 1, 0) }];
                match self.r.below(4) {
                    0 => s.pays.push(Pay { only: 3 - a, ..pay(0, 1, 1, -1) }),
                    1 => s.pays.push(Pay { only: 3 - a, ..pay(1, 1, 1, 0) }),
                    2 => s.pays.push(Pay { only: 3 - a, ..pay(0, 1, 2, 0) }),
                    _ => {}
                }
            }
            2 => {}
            3 => s.pays = vec![pay(0, 1, 1, -1)],
            4 => s.pays = vec![pay(0, 1, 2, 0)],
            5 => s.pays = vec![pay(0, 1, 2, 0), pay(0, 1, 2, 1)],
            6 => s.pays = vec![pay(0, 1, 1, self.r.below(1000) as i64)],
            7 => s.pays = vec![pay(1, 1, 1, 0)],
            8 => s.pays = vec![pay(2, 1, 1, 0)],
            9 => s.pays = vec![pay(0, 1, 2, 0), pay(1, 1, 2, 1)],
            10 => s.fail = true,
            _ => {
                let mut skip = vec![];
                let k = [
                    K::Mint, K::Burn, K::Collect, K::Swap, K::Route, K::Multi, K::Inc, K::Dec, K::CollectNft, K::Protocol, K::Grow, K::Close, K::Admin,
                    K::Swap, K::Burn, K::Collect,
                ][self.r.below(16) as usize];
                let inner = self.op(w, k as usize, &mut skip)?;
                if !skip.is_empty() {
                    first.extend(skip);
                }
                s.reenter = Some(Box::new(inner));
                s.pays = full;
                allow = self.r.chance(5, 6);
            }
        }
        Some(TxSpec { ops: vec![op], script: Some(s), allow_reentry: allow, ..Default::default() })
    }

    fn tx_spec(&mut self, w: &Sim, first: &mut Vec<Step>) -> Option<TxSpec> {
        let k = self.r.weighted(&self.p.w.clone());
        let mut t = if k == K::Byz as usize {
            self.byzantine(w, first)?
        } else {
            TxSpec::one(self.op(w, k, first)?)
        };
        if t.script.is_none() && self.r.chance(self.p.several, 1000) && first.is_empty() {
            for _ in 0..1 + self.r.below(2) {
                let k = self.r.weighted(&self.p.w.clone());
                let mut skip = vec![];
                if let Some(o) = self.op(w, k, &mut skip) {
                    t.ops.push(o);
                }
            }
        }
        if t.script.is_none() && self.r.chance(self.p.mutate, 1000) {
            if first.is_empty() {
                first.extend(self.forge(w, &mut t));
            }
        } else if self.r.chance(self.p.abort, 1000) {
            t.abort_at = Some(1 + self.r.log(8) as u32);
            self.again(&t);
        } else if self.r.chance(self.p.token_fail, 1000) {
            t.fail_token_at = Some(1 + self.r.below(3) as u32);
            self.again(&t);
        }
        Some(t)
    }
    /// the client tries again after a failure
    fn again(&mut self, t: &TxSpec) {
        if self.r.chance(2, 3) {
            let mut c = t.clone();
            c.abort_at = None;
            c.fail_token_at = None;
            self.later.push(Step::Tx(c));
        }
    }

    pub fn next(&mut self, w: &Sim) -> Step {
        let mut s = self.choose(w);
        if let Step::Tx(t) = &mut s {
            // some clients name more accounts of the way than this trade needs
            let mut q = Rng::new(self.r.clone().next());
            if t.ops.iter().any(|o| matches!(o, Op::Swap { .. } | Op::ExactSingle { .. } | Op::ExactMulti { .. })) && q.chance(1, 6) {
                t.more = 1 + q.weighted(&[6, 2, 1, 1]) as u8 * 2 + q.below(2) as u8;
            }
        }
        s
    }
    fn choose(&mut self, w: &Sim) -> Step {
        if let Some(s) = self.queue.pop_front() {
            return s;
        }
        self.later.clear();
        if let Some(i) = self.barren.iter().position(|p| w.pool_exists(*p)) {
            let p = self.barren.remove(i);
            let v = self.wide_deposit(w, p);
            self.queue.extend(v);
            if let Some((q, low)) = self.abyss {
                if p == q {
                    for _ in 0..1 + self.r.weighted(&[3, 1, 1]) {
                        let v = self.abyss_deposit(w, p, low);
                        self.queue.extend(v);
                    }
                }
            }
            return self.queue.pop_front().unwrap();
        }
        if self.hoard && w.pool_exists(0) && self.r.chance(1, 6) {
            self.hoard = false;
            let v = self.gather(w, 0);
            self.queue.extend(v);
            if let Some(s) = self.queue.pop_front() {
                return s;
            }
        }
        if self.rich && w.pool_exists(0) && self.r.chance(1, 6) {
            self.rich = false;
            self.beyond = true;
            let v = self.enrich(w, 0);
            self.queue.extend(v);
            if let Some(s) = self.queue.pop_front() {
                return s;
            }
        }
        if let Some((p, low)) = self.abyss {
            if w.pool_exists(p) && self.r.chance(1, 25) {
                if self.r.chance(1, 4) {
                    let v = self.abyss_deposit(w, p, low);
                    self.queue.extend(v);
                } else {
                    let o = self.plunge(w, p, low);
                    self.queue.push_back(tx(o));
                }
                return self.queue.pop_front().unwrap();
            }
        }
        if self.churn > 0 && self.r.chance(15, 16) {
            self.churn -= 1;
            if let Some(s) = self.observe(w) {
                return s;
            }
        }
        let roll = self.r.below(1000);
        let mut acc = 0;
        macro_rules! on {
            ($f:expr, $s:expr) => {
                acc += $f;
                if roll < acc {
                    return $s;
                }
            };
        }
        on!(self.p.clock, Step::Clock { dt: self.dt(w) });
        on!(self.p.exit, Step::Exit { seed: self.r.next() >> 16 });
        on!(self.p.live, Step::Live { seed: self.r.next() >> 16 });
        on!(self.p.round, Step::Round { seed: self.r.next() >> 16 });
        on!(self.p.patience, Step::Patience { seed: self.r.next() >> 16 });
        on!(self.p.there, Step::There { seed: self.r.next() >> 16 });
        on!(self.p.replay, Step::Replay { seed: self.r.next() >> 16 });
        on!(self.p.restart, Step::Restart);
        on!(self.p.fork, {
            if w.fork_depth() > 0 && self.r.chance(2, 3) {
                Step::Rollback { again: self.r.chance(2, 3) }
            } else {
                Step::Fork
            }
        });
        on!(self.p.commute, {
            let mut f1 = vec![];
            let k1 = self.pool_kind();
            let a = self.op(w, k1, &mut f1);
            let k2 = self.pool_kind();
            let b = self.op(w, k2, &mut f1);
            match (a, b) {
                (Some(a), Some(b)) => {
                    for s in f1 {
                        self.queue.push_back(s);
                    }
                    let s = Step::Commute { a: TxSpec::one(a), b: TxSpec::one(b) };
                    if self.queue.is_empty() {
                        return s;
                    }
                    self.queue.push_back(s);
                    self.queue.pop_front().unwrap()
                }
                _ => Step::Clock { dt: 1 },
            }
        });
        if !self.in_flight.is_empty() && self.r.chance(1, 5) {
            let i = self.r.below(self.in_flight.len() as u64) as usize;
            let id = self.in_flight[i];
            // may be delivered again later
            if self.r.chance(3, 4) {
                self.in_flight.remove(i);
            }
            return Step::Deliver { id, retry: self.r.chance(1, 2) };
        }
        for _ in 0..8 {
            let mut first = vec![];
            if let Some(t) = self.tx_spec(w, &mut first) {
                for s in first {
                    self.queue.push_back(s);
                }
                let s = if self.queue.is_empty() && t.script.is_none() && self.r.chance(self.p.late, 1000) {
                    let id = self.next_id % 12;
                    self.next_id += 1;
                    if !self.in_flight.contains(&id) {
                        self.in_flight.push(id);
                    }
                    Step::Submit { id, tx: t }
                } else {
                    Step::Tx(t)
                };
                self.queue.push_back(s);
                let later = std::mem::take(&mut self.later);
                self.queue.extend(later);
                return self.queue.pop_front().unwrap();
            }
            self.later.clear();
        }
        Step::Clock { dt: 1 }
    }
    /// one more observation on pool 0: time passes, then somebody adds to a range in use
    fn observe(&mut self, w: &Sim) -> Option<Step> {
        let pool = pool_of(&w.l, &w.s.pid(0).key())?;
        let v: Vec<_> = self.positions(w).into_iter().filter(|x| x.0 == 0 && x.2 <= pool.tick && pool.tick < x.3).collect();
        let (_, owner, lo, hi, _) = *self.r.maybe(&v)?;
        let by = self.user(w);
        let dt = if self.r.chance(1, 8) { self.r.irange(0, 14) } else { self.r.irange(14, 40) };
        self.queue.push_back(tx(Op::Mint { by, owner, pool: 0, lo, hi, liq: 1 + self.r.below(3), byz: false }));
        Some(Step::Clock { dt })
    }
    fn pool_kind(&mut self) -> usize {
        let ks = [K::Mint, K::Burn, K::Collect, K::Swap, K::Swap, K::Route, K::MintNft, K::Inc, K::Dec, K::CollectNft, K::Grow, K::Close, K::Protocol];
        ks[self.r.below(ks.len() as u64) as usize] as usize
    }
    pub fn steps(&self) -> usize {
        self.p.steps
    }
}
