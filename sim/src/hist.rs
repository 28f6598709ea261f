//! First-principles oracles over the recorded history: they look only at the ledger, the emitted
//! events and the clock (plus, for fee attribution, the swap segments), never at how the protocol
//! or the reference model computed its state.
use crate::abi::*;
use crate::bank::{self, Change, Ledger, TxResult};
use crate::judge::{op_name, viol, Viol};
use crate::math::{self, exact_value, U256};
use crate::ops::{nft_of, pool_of, tick_of, tok_of, Op, TxSpec};
use crate::spec::{growth_inside, Fact};
use crate::world::{Setup, Who};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Shadow {
    pub owner: Pubkey,
    pub lo: i32,
    pub hi: i32,
    /// liquidity according to the committed operations
    liq: u64,
    /// fees earned by this position's liquidity, units of 2^-64 token
    earned: [U256; 2],
    dust: [U256; 2],
    /// principal credited by burns and amounts withdrawn, whole tokens
    principal: [u128; 2],
    withdrawn: [u128; 2],
    updates: u64,
    /// range measurements since `base`
    base: Option<(i64, u64, u32)>,
    secs: u64,
    ticksecs: i128,
    spl: U256,
    moves: u64,
}

#[derive(Clone, Debug)]
pub struct PoolHist {
    pub id: PoolId,
    pub ticks: BTreeMap<i32, Pubkey>,
    pub bitmaps: BTreeMap<i16, Pubkey>,
    pub obs: BTreeMap<u16, Pubkey>,
    pub positions: BTreeMap<Pubkey, Shadow>,
    slack: Option<[(bool, U256); 2]>,
    /// fee attribution can no longer be followed (disagreement or counter wrap)
    tainted: bool,
    growth: [U256; 2],
    tick_int: i128,
    spl_int: U256,
    writes: u64,
    at: i64,
    last_card: u16,
    last_next: u16,
    // rebuilt from events alone
    ev_price: u64,
    ev_tick: i32,
    ev_liq: Option<u64>,
    ev_pos: BTreeMap<(Pubkey, i32, i32), i128>,
    prev: Option<Pool>,
}

#[derive(Clone, Debug, Default)]
pub struct Hist {
    pub pools: BTreeMap<Pubkey, PoolHist>,
    /// which pool an account belongs to
    pub owner_of: BTreeMap<Pubkey, Pubkey>,
    pub nfts: BTreeSet<Pubkey>,
    direct: BTreeMap<Pubkey, u128>,
    pub revived: BTreeSet<Pubkey>,
    ev_nft: BTreeMap<Pubkey, i128>,
    meta: BTreeSet<Pubkey>,
}

fn sub_signed(v: U256, c: U256) -> (bool, U256) {
    if v >= c {
        (false, v - c)
    } else {
        (true, c - v)
    }
}
/// a < b - tol
fn less_by(a: (bool, U256), b: (bool, U256), tol: U256) -> bool {
    // compare a + tol < b
    let a = if a.0 {
        if a.1 <= tol {
            (false, tol - a.1)
        } else {
            (true, a.1 - tol)
        }
    } else {
        (false, a.1 + tol)
    };
    match (a.0, b.0) {
        (false, false) => a.1 < b.1,
        (true, false) => true,
        (false, true) => false,
        (true, true) => a.1 > b.1,
    }
}

fn raw<T: Copy>(d: &[u8]) -> Option<T> {
    if d.len() < 8 + std::mem::size_of::<T>() {
        return None;
    }
    Some(unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const T) })
}

impl Hist {
    pub fn pool_named(&self, s: &Setup, op: &Op, l: &Ledger) -> Vec<Pubkey> {
        use Op::*;
        match op {
            CreatePool { pool, .. } | InitTick { pool, .. } | InitBitmap { pool, .. } | InitPos { pool, .. } | CloseTick { pool, .. }
            | Mint { pool, .. } | Burn { pool, .. } | Collect { pool, .. } | Swap { pool, .. } | MintNft { pool, .. } | ExactSingle { pool, .. }
            | GrowObs { pool, .. } | CollectProtocol { pool, .. } | MintCb { pool, .. } | SwapCb { pool, .. } => vec![s.pid(*pool).key()],
            ExactMulti { path, .. } => path.iter().map(|p| s.pid(p.0).key()).collect(),
            Inc { nft, .. } | Dec { nft, .. } | CollectNft { nft, .. } => nft_of(l, &s.nft(*nft)).map(|n| vec![n.pool_id]).unwrap_or_default(),
            _ => vec![],
        }
    }

    fn register(&mut self, s: &Setup, c: &Change) {
        let a = match &c.post {
            Some(a) if a.owner == CORE => a,
            _ => return,
        };
        let fresh = c.pre.as_ref().map(|p| p.owner != CORE).unwrap_or(true);
        if !fresh {
            return;
        }
        if let Some(n) = NftPos::parse(&a.data) {
            self.nfts.insert(n.mint);
        }
        let find = |f: &dyn Fn(&PoolId) -> Pubkey| (0..s.pools.len() as u8).map(|p| s.pid(p)).find(|id| f(id) == c.key);
        let mut note = |id: Option<PoolId>, f: &dyn Fn(&mut PoolHist)| {
            if let Some(id) = id {
                if let Some(h) = self.pools.get_mut(&id.key()) {
                    f(h);
                    self.owner_of.insert(c.key, id.key());
                }
            }
        };
        if let Some(t) = Tick::parse(&a.data) {
            note(find(&|id| id.tick(t.tick).0), &|h| {
                h.ticks.insert(t.tick, c.key);
            });
        } else if let Some(b) = Bitmap::parse(&a.data) {
            note(find(&|id| id.bitmap(b.word_pos).0), &|h| {
                h.bitmaps.insert(b.word_pos, c.key);
            });
        } else if let Some(o) = Obs::parse(&a.data) {
            note(find(&|id| crate::ops::obs_key_with(id, o.index, o.bump).unwrap_or_default()), &|h| {
                h.obs.insert(o.index, c.key);
            });
        }
    }

    /// whole-second integrals up to now, with the state in force before the transaction
    fn advance(&mut self, l: &Ledger, k: &Pubkey, now: i64) {
        let h = match self.pools.get_mut(k) {
            Some(h) => h,
            None => return,
        };
        let p = match pool_of(l, k) {
            Some(p) => p,
            None => return,
        };
        let dt = now - h.at;
        if dt <= 0 {
            return;
        }
        h.at = now;
        h.tick_int += p.tick as i128 * dt as i128;
        let s = (U256::from(dt as u64) << 96) / math::u(p.liquidity.max(1));
        h.spl_int += s;
        for sh in h.positions.values_mut() {
            if sh.base.is_some() && p.tick >= sh.lo && p.tick < sh.hi {
                sh.secs += dt as u64;
                sh.ticksecs += p.tick as i128 * dt as i128;
                sh.spl += s;
            }
        }
    }

    pub fn before(&mut self, l: &Ledger, now: i64) {
        let pools: Vec<Pubkey> = self.pools.keys().copied().collect();
        for k in &pools {
            self.advance(l, k, now);
        }
    }

    /// `pre`/`post`: ledgers around a committed transaction
    #[allow(clippy::too_many_arguments)]
    pub fn after(&mut self, s: &Setup, spec: &TxSpec, pre: &Ledger, post: &Ledger, r: &TxResult, facts: Option<&[Fact]>, signers: &[Pubkey], now: i64) -> Vec<Viol> {
        let mut v = vec![];
        let mut touched: BTreeSet<Pubkey> = BTreeSet::new();
        for c in &r.changes {
            if let Some(p) = c.post.as_ref().filter(|a| a.owner == CORE).and_then(|a| Pool::parse(&a.data)) {
                let id = p.id();
                if id.key() == c.key && !self.pools.contains_key(&c.key) {
                    self.pools.insert(
                        c.key,
                        PoolHist {
                            id,
                            ticks: BTreeMap::new(),
                            bitmaps: BTreeMap::new(),
                            obs: BTreeMap::new(),
                            positions: BTreeMap::new(),
                            slack: None,
                            tainted: false,
                            growth: [U256::zero(); 2],
                            tick_int: 0,
                            spl_int: U256::zero(),
                            writes: 0,
                            at: now,
                            last_card: p.obs_card,
                            last_next: p.obs_next,
                            ev_price: 0,
                            ev_tick: 0,
                            ev_liq: None,
                            ev_pos: BTreeMap::new(),
                            prev: None,
                        },
                    );
                    self.owner_of.insert(c.key, c.key);
                    for side in 0..2 {
                        self.owner_of.insert(id.vault(side), c.key);
                    }
                }
            }
        }
        for c in &r.changes {
            self.register(s, c);
            if let Some(p) = self.owner_of.get(&c.key) {
                touched.insert(*p);
            }
        }
        let named: BTreeSet<Pubkey> = spec.ops.iter().flat_map(|o| self.pool_named(s, o, pre)).collect();
        for f in facts.unwrap_or(&[]) {
            self.fact(f, pre, post);
        }
        self.events(r, pre, post, &mut v);
        if facts.is_none() {
            for p in touched.iter().chain(named.iter()) {
                if let Some(h) = self.pools.get_mut(p) {
                    h.tainted = true;
                }
            }
        }
        // P16: only the pools named, and nobody else's accounts
        for c in &r.changes {
            let donation = spec.ops.iter().any(|o| matches!(o, Op::Pay { .. } | Op::Fund { .. }));
            if let Some(p) = self.owner_of.get(&c.key) {
                if !named.contains(p) && spec.muts.is_empty() && spec.script.is_none() && !donation {
                    v.push(viol(&[16], "foreign-pool-changed", format!("{} changed account {} of pool {}", op_name(&spec.ops[0]), c.key, p)));
                }
            }
        }
        self.value_flow(s, spec, pre, post, r, signers, &mut v);
        self.bounds(s, spec, pre, post, now, &mut v);
        let swapped = spec.ops.iter().any(|o| matches!(o, Op::Swap { .. } | Op::ExactSingle { .. } | Op::ExactMulti { .. } | Op::Junk { .. }))
            || spec.script.as_ref().map(|s| s.reenter.is_some()).unwrap_or(false);
        for k in touched {
            self.check_pool(&k, spec, post, swapped, now, &mut v);
        }
        self.check_nfts(s, spec, pre, post, r, &mut v);
        v
    }

    fn fact(&mut self, f: &Fact, _pre: &Ledger, post: &Ledger) {
        match f {
            Fact::PosInit { key, pool, owner, lo, hi } => {
                self.owner_of.insert(*key, pool.key());
                if let Some(h) = self.pools.get_mut(&pool.key()) {
                    h.positions.insert(
                        *key,
                        Shadow {
                            owner: *owner,
                            lo: *lo,
                            hi: *hi,
                            liq: 0,
                            earned: [U256::zero(); 2],
                            dust: [U256::zero(); 2],
                            principal: [0; 2],
                            withdrawn: [0; 2],
                            updates: 0,
                            base: None,
                            secs: 0,
                            ticksecs: 0,
                            spl: U256::zero(),
                            moves: 0,
                        },
                    );
                }
            }
            Fact::Swap(w) => {
                let k = w.pool.key();
                if let Some(h) = self.pools.get_mut(&k) {
                    h.writes += 1;
                    let side = if w.zfo { 0 } else { 1 };
                    for seg in &w.segs {
                        if seg.liq == 0 || seg.lp_fee == 0 {
                            continue;
                        }
                        h.growth[side] += (math::u(seg.lp_fee) << 32) / math::u(seg.liq);
                        for sh in h.positions.values_mut() {
                            if !(seg.tick >= sh.lo && seg.tick < sh.hi) {
                                continue;
                            }
                            let l = sh.liq;
                            if l == 0 {
                                continue;
                            }
                            sh.earned[side] += (math::u(seg.lp_fee) << 64) * math::u(l) / math::u(seg.liq);
                            sh.dust[side] += (math::u(l) << 32) + U256::one();
                        }
                    }
                    if h.growth[side] > U256::one() << 63 {
                        h.tainted = true;
                    }
                }
            }
            Fact::Liquidity { pool, owner, lo, hi, delta, amount_0, amount_1 } => {
                if let Some(h) = self.pools.get_mut(&pool.key()) {
                    h.writes += 1;
                    let k = pool.position(owner, *lo, *hi).0;
                    if let Some(sh) = h.positions.get_mut(&k) {
                        sh.updates += 1;
                        sh.liq = (sh.liq as i128 + *delta as i128).clamp(0, u64::MAX as i128) as u64;
                        if *delta <= 0 {
                            sh.principal[0] += *amount_0 as u128;
                            sh.principal[1] += *amount_1 as u128;
                        }
                    }
                    // a tick emptied within a transaction starts its measurements afresh
                    for t in [*lo, *hi] {
                        let used = h.positions.values().any(|x| x.liq > 0 && (x.lo == t || x.hi == t));
                        if !used {
                            for x in h.positions.values_mut().filter(|x| x.lo == t || x.hi == t) {
                                x.base = None;
                            }
                        }
                    }
                    if *owner == factory() && *delta > 0 {
                        *self.direct.entry(k).or_insert(0) += *delta as u128;
                    }
                }
            }
            Fact::NftMinted { mint, liquidity, .. } | Fact::NftIncreased { mint, liquidity, .. } => {
                // was counted as a deposit to the custody position; it is an NFT's
                if let Some(n) = nft_of(post, mint) {
                    if let Some(h) = self.pools.get(&n.pool_id) {
                        let k = h.id.position(&factory(), n.tick_lower, n.tick_upper).0;
                        let d = self.direct.entry(k).or_insert(0);
                        *d = d.saturating_sub(*liquidity as u128);
                    }
                }
            }
            Fact::Collect { pool, owner, lo, hi, amount_0, amount_1, .. } => {
                if let Some(h) = self.pools.get_mut(&pool.key()) {
                    let k = pool.position(owner, *lo, *hi).0;
                    if let Some(sh) = h.positions.get_mut(&k) {
                        sh.withdrawn[0] += *amount_0 as u128;
                        sh.withdrawn[1] += *amount_1 as u128;
                    }
                }
            }
            Fact::TickClosed { pool, tick } => {
                if let Some(h) = self.pools.get_mut(&pool.key()) {
                    if !post.contains_key(&pool.tick(*tick).0) {
                        h.ticks.remove(tick);
                    }
                }
            }
            Fact::Revived { key } => {
                self.revived.insert(*key);
            }
            _ => {}
        }
    }

    /// P20: state rebuilt from the event stream alone
    fn events(&mut self, r: &TxResult, _pre: &Ledger, _post: &Ledger, v: &mut Vec<Viol>) {
        let is = |d: &[u8], n: &'static str| d.len() > 8 && d[..8] == disc("event", n);
        let mut bad = |w: &str| v.push(viol(&[20], "events:undecodable", format!("undecodable {} event", w)));
        for (_, prog, d) in &r.events {
            if *prog != CORE || d.len() < 8 {
                continue;
            }
            let mut x = Dec(&d[8..]);
            macro_rules! g {
                ($t:ty, $n:literal) => {
                    match x.f::<$t>() {
                        Some(v) => v,
                        None => {
                            bad($n);
                            continue;
                        }
                    }
                };
            }
            if is(d, "SwapEvent") {
                let p = g!(Pubkey, "SwapEvent");
                for _ in 0..3 {
                    let _ = g!(Pubkey, "SwapEvent");
                }
                let (_a, _b) = (g!(i64, "SwapEvent"), g!(i64, "SwapEvent"));
                let (pr, li, ti) = (g!(u64, "SwapEvent"), g!(u64, "SwapEvent"), g!(i32, "SwapEvent"));
                if let Some(h) = self.pools.get_mut(&p) {
                    h.ev_price = pr;
                    h.ev_tick = ti;
                    h.ev_liq = Some(li);
                }
            } else if is(d, "PoolCreatedAndInitialized") {
                for _ in 0..2 {
                    let _ = g!(Pubkey, "PoolCreatedAndInitialized");
                }
                let _ = (g!(u32, "PoolCreatedAndInitialized"), g!(u16, "PoolCreatedAndInitialized"));
                let p = g!(Pubkey, "PoolCreatedAndInitialized");
                let (pr, ti) = (g!(u64, "PoolCreatedAndInitialized"), g!(i32, "PoolCreatedAndInitialized"));
                if let Some(h) = self.pools.get_mut(&p) {
                    h.ev_price = pr;
                    h.ev_tick = ti;
                    h.ev_liq = Some(0);
                }
            } else if is(d, "MintEvent") {
                let p = g!(Pubkey, "MintEvent");
                let _ = g!(Pubkey, "MintEvent");
                let o = g!(Pubkey, "MintEvent");
                let (lo, hi, a) = (g!(i32, "MintEvent"), g!(i32, "MintEvent"), g!(u64, "MintEvent"));
                if let Some(h) = self.pools.get_mut(&p) {
                    *h.ev_pos.entry((o, lo, hi)).or_insert(0) += a as i128;
                    if h.ev_tick >= lo && h.ev_tick < hi {
                        h.ev_liq = h.ev_liq.map(|l| l.wrapping_add(a));
                    }
                }
            } else if is(d, "BurnEvent") {
                let p = g!(Pubkey, "BurnEvent");
                let o = g!(Pubkey, "BurnEvent");
                let (lo, hi, a) = (g!(i32, "BurnEvent"), g!(i32, "BurnEvent"), g!(u64, "BurnEvent"));
                if let Some(h) = self.pools.get_mut(&p) {
                    *h.ev_pos.entry((o, lo, hi)).or_insert(0) -= a as i128;
                    if h.ev_tick >= lo && h.ev_tick < hi {
                        h.ev_liq = h.ev_liq.map(|l| l.wrapping_sub(a));
                    }
                }
            } else if is(d, "IncreaseLiquidityEvent") {
                let m = g!(Pubkey, "IncreaseLiquidityEvent");
                *self.ev_nft.entry(m).or_insert(0) += g!(u64, "IncreaseLiquidityEvent") as i128;
            } else if is(d, "DecreaseLiquidityEvent") {
                let m = g!(Pubkey, "DecreaseLiquidityEvent");
                *self.ev_nft.entry(m).or_insert(0) -= g!(u64, "DecreaseLiquidityEvent") as i128;
            }
        }
    }

    /// P09: value only leaves those who signed
    #[allow(clippy::too_many_arguments)]
    fn value_flow(&self, s: &Setup, spec: &TxSpec, pre: &Ledger, _post: &Ledger, r: &TxResult, signers: &[Pubkey], v: &mut Vec<Viol>) {
        let name = op_name(&spec.ops[0]);
        let mut steal = |what: String| v.push(viol(&[9], format!("value-flow:{}", name), format!("{}: {}", name, what)));
        let holder_signed = |mint: &Pubkey| {
            // the holder or an approved delegate of the NFT
            (0..s.users).any(|u| {
                let k = ata(&s.user(u), mint);
                tok_of(pre, &k).map(|t| t.amount == 1 && (signers.contains(&t.owner) || t.delegate.map(|d| signers.contains(&d) && t.delegated > 0).unwrap_or(false))).unwrap_or(false)
            })
        };
        let mut custody_ok: Option<bool> = None;
        for c in &r.changes {
            let a = match &c.pre {
                Some(a) => a,
                None => continue,
            };
            let none = bank::Acct::default();
            let b = c.post.as_deref().unwrap_or(&none);
            if a.owner == SYSTEM && b.lamports < a.lamports && !signers.contains(&c.key) {
                steal(format!("lamports left {} without its signature", c.key));
            }
            if a.owner == TOKEN {
                if let (Some(x), y) = (tok(&a.data), tok(&b.data)) {
                    let left = y.map(|y| y.amount).unwrap_or(0);
                    if left < x.amount {
                        let vault = self.owner_of.contains_key(&c.key);
                        let by_owner = signers.contains(&x.owner);
                        let by_delegate = x.delegate.map(|d| signers.contains(&d) && x.delegated >= x.amount - left).unwrap_or(false);
                        if !vault && !by_owner && !by_delegate {
                            steal(format!("{} tokens left {} of {} without its signature", x.amount - left, c.key, x.owner));
                        }
                    }
                    if let Some(y) = y {
                        if y.owner != x.owner && !signers.contains(&x.owner) {
                            steal(format!("token account {} changed owner", c.key));
                        }
                        if y.delegate.is_some() && y.delegate != x.delegate && !signers.contains(&x.owner) {
                            steal(format!("token account {} got a delegate without its owner's signature", c.key));
                        }
                    }
                }
            }
            if a.owner == CORE {
                if let Some(x) = Position::parse(&a.data) {
                    let y = Position::parse(&b.data);
                    let down = match y {
                        Some(y) => y.liquidity < x.liquidity || y.owed_0 < x.owed_0 || y.owed_1 < x.owed_1,
                        None => true,
                    };
                    if down {
                        let owner = self.owner_of.get(&c.key).and_then(|p| self.pools.get(p)).and_then(|h| h.positions.get(&c.key)).map(|s| (s.owner, s.lo, s.hi));
                        if let Some((o, _, _)) = owner {
                            let ok = if o == factory() {
                                *custody_ok.get_or_insert_with(|| self.nfts.iter().any(|m| holder_signed(m)))
                            } else {
                                signers.contains(&o)
                            };
                            if !ok {
                                steal(format!("position {} of {} reduced without its signature", c.key, o));
                            }
                        }
                    }
                }
                if let Some(x) = NftPos::parse(&a.data) {
                    let y = NftPos::parse(&b.data);
                    let down = match y {
                        Some(y) => y.liquidity < x.liquidity || y.owed_0 < x.owed_0 || y.owed_1 < x.owed_1,
                        None => true,
                    };
                    if down && !holder_signed(&x.mint) {
                        steal(format!("NFT position {} reduced without its holder's signature", x.mint));
                    }
                }
                if let Some(x) = Factory::parse(&a.data) {
                    // lamports may be sent to it by anyone (the rent of a closed tick, say)
                    if (a.owner != b.owner || Factory::parse(&b.data) != Some(x)) && !signers.contains(&x.owner) {
                        steal("protocol settings changed without the owner's signature".into());
                    }
                }
                if let (Some(x), Some(y)) = (Pool::parse(&a.data), Pool::parse(&b.data)) {
                    if y.proto_0 < x.proto_0 || y.proto_1 < x.proto_1 {
                        let o = pre.get(&factory()).and_then(|a| Factory::parse(&a.data)).map(|f| f.owner);
                        if !o.map(|o| signers.contains(&o)).unwrap_or(false) {
                            steal("protocol fees left without the owner's signature".into());
                        }
                    }
                }
            }
        }
        for c in &r.changes {
            if c.pre.as_ref().map(|a| a.owner != CORE).unwrap_or(true) && c.post.as_ref().map(|a| a.owner == CORE && Fee::is(&a.data)).unwrap_or(false) {
                let o = pre.get(&factory()).and_then(|a| Factory::parse(&a.data)).map(|f| f.owner);
                if !o.map(|o| signers.contains(&o)).unwrap_or(false) {
                    v.push(viol(&[9], "value-flow:fee-tier", "fee tier enabled without the owner's signature"));
                }
            }
        }
    }

    /// P03 / P04: user-stated bounds, from balances alone, for single operations
    fn bounds(&self, s: &Setup, spec: &TxSpec, pre: &Ledger, post: &Ledger, now: i64, v: &mut Vec<Viol>) {
        if spec.ops.len() != 1 || !spec.muts.is_empty() || spec.script.is_some() {
            return;
        }
        let delta = |k: &Pubkey| {
            tok_of(post, k).map(|t| t.amount).unwrap_or(0) as i128 - tok_of(pre, k).map(|t| t.amount).unwrap_or(0) as i128
        };
        let mut more: Vec<Viol> = vec![];
        let mut bad = |p: &[u8], c: &str, d: String| v.push(viol(p, format!("bounds:{}", c), d));
        match spec.ops[0] {
            Op::ExactSingle { by, pool, zfo, amount, min, limit, dl, to } => {
                let (i, o) = if zfo { (0, 1) } else { (1, 0) };
                let paid = -delta(&s.utok(by, s.side_tok(pool, i)));
                let got = delta(&s.utok(to, s.side_tok(pool, o)));
                if got < min as i128 {
                    bad(&[4], "minimum-output", format!("exact_input_single delivered {} < {}", got, min));
                }
                if paid > amount as i128 {
                    bad(&[3, 4], "maximum-input", format!("exact_input_single took {} > {}", paid, amount));
                }
                if now > dl {
                    bad(&[4], "deadline", format!("exact_input_single at {} after deadline {}", now, dl));
                }
                if let Some(p) = pool_of(post, &s.pid(pool).key()) {
                    if limit != 0 && (zfo && p.sqrt_price < limit || !zfo && p.sqrt_price > limit) {
                        bad(&[3, 4], "price-limit", format!("price {} beyond limit {}", p.sqrt_price, limit));
                    }
                }
            }
            Op::ExactMulti { by, ref path, amount, min, dl, to } => {
                let (p0, z0) = path[0];
                let (p1, z1) = path[path.len() - 1];
                let ik = s.utok(by, s.side_tok(p0, if z0 { 0 } else { 1 }));
                let ok = s.utok(to, s.side_tok(p1, if z1 { 1 } else { 0 }));
                if ik != ok {
                    let (paid, got) = (-delta(&ik), delta(&ok));
                    if got < min as i128 {
                        bad(&[4], "minimum-output", format!("exact_input delivered {} < {}", got, min));
                    }
                    if paid > amount as i128 {
                        bad(&[3, 4], "maximum-input", format!("exact_input took {} > {}", paid, amount));
                    }
                }
                if now > dl {
                    bad(&[4], "deadline", format!("exact_input at {} after deadline {}", now, dl));
                }
            }
            Op::Swap { by, pool, zfo, amount, limit, to, .. } => {
                let (i, o) = if zfo { (0, 1) } else { (1, 0) };
                let paid = -delta(&s.utok(by, s.side_tok(pool, i)));
                let got = delta(&s.utok(to, s.side_tok(pool, o)));
                if amount > 0 && paid > amount as i128 || amount < 0 && got > -(amount as i128) {
                    bad(&[3], "amount", format!("swap of {} took {} and paid {}", amount, paid, got));
                }
                if got < 0 || paid < 0 {
                    bad(&[2, 3, 9], "sign", format!("swap of {} took {} and paid {}", amount, paid, got));
                }
                let k = s.pid(pool).key();
                if let (Some(a), Some(b)) = (pool_of(pre, &k), pool_of(post, &k)) {
                    let l = match (limit, zfo) {
                        (0, true) => MIN_SQRT_RATIO + 1,
                        (0, false) => MAX_SQRT_RATIO - 1,
                        (l, _) => l,
                    };
                    if zfo && (b.sqrt_price > a.sqrt_price || b.sqrt_price < l) || !zfo && (b.sqrt_price < a.sqrt_price || b.sqrt_price > l) {
                        bad(&[3], "price-direction", format!("price went {} -> {} with limit {}", a.sqrt_price, b.sqrt_price, l));
                    }
                    let full = if amount > 0 { paid == amount as i128 } else { got == -(amount as i128) };
                    if !full && b.sqrt_price != l {
                        bad(&[3], "partial", format!("swap of {} stopped at {} short of limit {} (in {}, out {})", amount, b.sqrt_price, l, paid, got));
                    }
                }
            }
            Op::Mint { by, pool, lo, hi, liq, byz: false, .. } => {
                if let Some(p) = pool_of(pre, &s.pid(pool).key()) {
                    let paid = [-delta(&s.utok(by, s.side_tok(pool, 0))), -delta(&s.utok(by, s.side_tok(pool, 1)))];
                    worth(&p, lo, hi, liq, paid, true, v);
                }
            }
            Op::Burn { by, pool, lo, hi, liq } => {
                let id = s.pid(pool);
                let k = id.position(&s.user(by), lo, hi).0;
                let pos = |l: &Ledger| l.get(&k).and_then(|a| Position::parse(&a.data));
                if let (Some(p), Some(a), Some(b)) = (pool_of(pre, &id.key()), pos(pre), pos(post)) {
                    let f = |g1: u64, g0: u64| fee_share(g1, g0, a.liquidity);
                    let got = [
                        b.owed_0.wrapping_sub(a.owed_0).wrapping_sub(f(b.growth_0, a.growth_0)) as i128,
                        b.owed_1.wrapping_sub(a.owed_1).wrapping_sub(f(b.growth_1, a.growth_1)) as i128,
                    ];
                    worth(&p, lo, hi, liq, got, false, v);
                }
            }
            Op::Collect { by, pool, lo, hi, a0, a1, to } => {
                let id = s.pid(pool);
                let k = id.position(&s.user(by), lo, hi).0;
                let pos = |l: &Ledger| l.get(&k).and_then(|a| Position::parse(&a.data));
                if let (Some(a), Some(b)) = (pos(pre), pos(post)) {
                    for (side, ask, had, left) in [(0, a0, a.owed_0, b.owed_0), (1, a1, a.owed_1, b.owed_1)] {
                        let got = delta(&s.utok(to, s.side_tok(pool, side)));
                        let due = ask.min(had);
                        if got != due as i128 || had.wrapping_sub(left) != due {
                            bad(&[24], "collected", format!("{} of token {} owed, {} asked for: {} paid and {} left", had, side, ask, got, left));
                        }
                    }
                }
            }
            Op::CollectNft { nft, a0, a1, to, .. } => {
                let m = s.nft(nft);
                if let (Some(a), Some(b)) = (nft_of(pre, &m), nft_of(post, &m)) {
                    if let Some(pi) = (0..s.pools.len() as u8).find(|p| s.pid(*p).key() == a.pool_id) {
                        for (side, ask, had, left, g1, g0) in
                            [(0, a0, a.owed_0, b.owed_0, b.growth_0, a.growth_0), (1, a1, a.owed_1, b.owed_1, b.growth_1, a.growth_1)]
                        {
                            let got = delta(&s.utok(to, s.side_tok(pi, side)));
                            let had = had.wrapping_add(fee_share(g1, g0, a.liquidity));
                            let due = ask.min(had);
                            // the custody may be short by rounding dust
                            if got > due as i128 || had.wrapping_sub(left) != due {
                                bad(&[24], "nft-collected", format!("{} of token {} owed, {} asked for: {} paid and {} left", had, side, ask, got, left));
                            }
                        }
                    }
                }
            }
            Op::CollectProtocol { pool, a0, a1, to, .. } => {
                let k = s.pid(pool).key();
                if let (Some(a), Some(b)) = (pool_of(pre, &k), pool_of(post, &k)) {
                    for (side, ask, had, left) in [(0, a0, a.proto_0, b.proto_0), (1, a1, a.proto_1, b.proto_1)] {
                        let got = delta(&s.utok(to, s.side_tok(pool, side)));
                        let due = ask.min(had);
                        if got != due as i128 || had.wrapping_sub(left) != due {
                            bad(&[6, 24], "protocol-collected", format!("{} of token {} owed, {} asked for: {} paid and {} left", had, side, ask, got, left));
                        }
                    }
                }
            }
            Op::MintNft { by, pool, lo, hi, nft, d0, d1, m0, m1, dl, .. } => {
                self.deposit(s, by, pool, [d0, d1], [m0, m1], dl, now, &delta, v);
                if let (Some(p), Some(n)) = (pool_of(pre, &s.pid(pool).key()), nft_of(post, &s.nft(nft))) {
                    let paid = [-delta(&s.utok(by, s.side_tok(pool, 0))), -delta(&s.utok(by, s.side_tok(pool, 1)))];
                    bought(&p, lo, hi, n.liquidity, d0, d1, paid, v);
                }
            }
            Op::Inc { by, nft, d0, d1, m0, m1, dl } => {
                let pi = nft_of(pre, &s.nft(nft)).and_then(|n| (0..s.pools.len() as u8).find(|p| s.pid(*p).key() == n.pool_id));
                if let Some(pi) = pi {
                    self.deposit(s, by, pi, [d0, d1], [m0, m1], dl, now, &delta, v);
                    let m = s.nft(nft);
                    if let (Some(p), Some(a), Some(b)) = (pool_of(pre, &s.pid(pi).key()), nft_of(pre, &m), nft_of(post, &m)) {
                        let paid = [-delta(&s.utok(by, s.side_tok(pi, 0))), -delta(&s.utok(by, s.side_tok(pi, 1)))];
                        bought(&p, a.tick_lower, a.tick_upper, b.liquidity.wrapping_sub(a.liquidity), d0, d1, paid, v);
                    }
                }
            }
            Op::Dec { nft, liq, m0, m1, dl, .. } => {
                let m = s.nft(nft);
                if let (Some(a), Some(b)) = (nft_of(pre, &m), nft_of(post, &m)) {
                    if now > dl {
                        bad(&[4], "deadline", format!("decrease_liquidity at {} after deadline {}", now, dl));
                    }
                    if a.liquidity.wrapping_sub(b.liquidity) != liq {
                        bad(&[4, 10], "liquidity", format!("decrease_liquidity of {} removed {}", liq, a.liquidity.wrapping_sub(b.liquidity)));
                    }
                    // principal at the current price
                    if let Some(p) = pool_of(post, &a.pool_id) {
                        if let Some((x, y)) = math::position_amounts(p.tick, p.sqrt_price, a.tick_lower, a.tick_upper, liq, false) {
                            let got = [
                                b.owed_0.wrapping_sub(a.owed_0).wrapping_sub(fee_share(b.growth_0, a.growth_0, a.liquidity)) as i128,
                                b.owed_1.wrapping_sub(a.owed_1).wrapping_sub(fee_share(b.growth_1, a.growth_1, a.liquidity)) as i128,
                            ];
                            worth(&p, a.tick_lower, a.tick_upper, liq, got, false, &mut more);
                            if x < m0 || y < m1 {
                                bad(&[4], "minimum-principal", format!("removed ({}, {}) of principal, asked for ({}, {})", x, y, m0, m1));
                            }
                            if b.owed_0.wrapping_sub(a.owed_0) < x || b.owed_1.wrapping_sub(a.owed_1) < y {
                                bad(&[4, 10, 17], "principal-credited", format!("credited {},{} for principal {},{}", b.owed_0.wrapping_sub(a.owed_0), b.owed_1.wrapping_sub(a.owed_1), x, y));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        v.extend(more);
    }
    #[allow(clippy::too_many_arguments)]
    fn deposit(&self, s: &Setup, by: u8, pool: u8, d: [u64; 2], m: [u64; 2], dl: i64, now: i64, delta: &dyn Fn(&Pubkey) -> i128, v: &mut Vec<Viol>) {
        for side in 0..2 {
            let paid = -delta(&s.utok(by, s.side_tok(pool, side)));
            if paid > d[side] as i128 || paid < m[side] as i128 {
                v.push(viol(&[4], "bounds:deposit", format!("deposited {} of token {} but bounds are {}..{}", paid, side, m[side], d[side])));
            }
        }
        if now > dl {
            v.push(viol(&[4], "bounds:deadline", format!("deposit at {} after deadline {}", now, dl)));
        }
    }

    fn check_pool(&mut self, k: &Pubkey, spec: &TxSpec, l: &Ledger, swapped: bool, now: i64, v: &mut Vec<Viol>) {
        let name = op_name(&spec.ops[0]);
        let pool = match pool_of(l, k) {
            Some(p) => p,
            None => {
                v.push(viol(&[19], "pool-gone", format!("pool {} disappeared after {}", k, name)));
                return;
            }
        };
        let revived: BTreeSet<Pubkey> = self.revived.clone();
        let h = self.pools.get_mut(k).unwrap();
        let mut bad = |p: &[u8], c: &str, d: String| v.push(viol(p, format!("invariant:{}", c), format!("after {}: pool {}: {}", name, k, d)));

        // P12
        if !pool.unlocked {
            bad(&[12], "left-locked", "left locked".into());
        }
        // P08
        if pool.sqrt_price < MIN_SQRT_RATIO || pool.sqrt_price >= MAX_SQRT_RATIO || !(MIN_TICK - 1..=MAX_TICK).contains(&pool.tick) {
            bad(&[8], "price-range", format!("price {} tick {} outside the range", pool.sqrt_price, pool.tick));
        } else {
            let ok = pool.tick >= MIN_TICK && math::sqrt_at(pool.tick) <= pool.sqrt_price && (pool.tick == MAX_TICK || pool.sqrt_price < math::sqrt_at(pool.tick + 1))
                || pool.tick < MAX_TICK && math::sqrt_at(pool.tick + 1) == pool.sqrt_price;
            if !ok {
                bad(&[8], "tick-price", format!("tick {} disagrees with price {}", pool.tick, pool.sqrt_price));
            }
        }
        if let Some(p) = h.prev {
            if !swapped && (p.sqrt_price != pool.sqrt_price || p.tick != pool.tick) {
                bad(&[8], "price-moved", format!("moved price {}/{} -> {}/{}", p.sqrt_price, p.tick, pool.sqrt_price, pool.tick));
            }
            if p.token_0 != pool.token_0 || p.token_1 != pool.token_1 || p.fee != pool.fee || p.tick_spacing != pool.tick_spacing || p.bump != pool.bump {
                bad(&[19], "pool-identity", "changed its identity".into());
            }
        }
        // P07
        let mut gross: BTreeMap<i32, u128> = BTreeMap::new();
        let mut net: BTreeMap<i32, i128> = BTreeMap::new();
        let mut active: u128 = 0;
        let mut claims = [math::u(pool.proto_0) << 64, math::u(pool.proto_1) << 64];
        let ticks: BTreeMap<i32, Tick> = h.ticks.iter().filter_map(|(t, k)| tick_of(l, k).map(|s| (*t, s))).collect();
        let mut uncertain = false;
        for (pk, sh) in &h.positions {
            let p = match l.get(pk).and_then(|a| Position::parse(&a.data)) {
                Some(p) => p,
                None => {
                    bad(&[7, 19], "position-gone", format!("position {} disappeared", pk));
                    continue;
                }
            };
            claims[0] += math::u(p.owed_0) << 64;
            claims[1] += math::u(p.owed_1) << 64;
            if p.liquidity > 0 {
                *gross.entry(sh.lo).or_insert(0) += p.liquidity as u128;
                *gross.entry(sh.hi).or_insert(0) += p.liquidity as u128;
                *net.entry(sh.lo).or_insert(0) += p.liquidity as i128;
                *net.entry(sh.hi).or_insert(0) -= p.liquidity as i128;
                if pool.tick >= sh.lo && pool.tick < sh.hi {
                    active += p.liquidity as u128;
                }
                if (MIN_TICK..=MAX_TICK).contains(&sh.lo) && (MIN_TICK..=MAX_TICK).contains(&sh.hi) {
                    let (a, b) = exact_value(pool.tick, pool.sqrt_price, sh.lo, sh.hi, p.liquidity);
                    claims[0] += a;
                    claims[1] += b;
                }
                match (ticks.get(&sh.lo), ticks.get(&sh.hi)) {
                    (Some(a), Some(b)) => {
                        let (g0, g1) = growth_inside(&pool, a, b);
                        claims[0] += (math::u(g0.wrapping_sub(p.growth_0)) * math::u(p.liquidity)) << 32;
                        claims[1] += (math::u(g1.wrapping_sub(p.growth_1)) * math::u(p.liquidity)) << 32;
                    }
                    _ => uncertain = true,
                }
            }
        }
        if active != pool.liquidity as u128 {
            bad(&[7], "in-range-liquidity", format!("liquidity {} but positions in range add up to {}", pool.liquidity, active));
        }
        for (t, s) in &ticks {
            let (g, n) = (gross.get(t).copied().unwrap_or(0), net.get(t).copied().unwrap_or(0));
            if s.gross as u128 != g || s.net as i128 != n {
                bad(&[7], "tick-table", format!("tick {} gross {} net {} but positions give {} {}", t, s.gross, s.net, g, n));
            }
            if g == 0 && !s.clear() {
                bad(&[7, 19], "tick-not-cleared", format!("unused tick {} not cleared: {:?}", t, s));
            }
        }
        for t in gross.keys() {
            if !ticks.contains_key(t) && !h.ticks.get(t).map(|k| revived.contains(k)).unwrap_or(false) {
                bad(&[7, 17, 19], "tick-missing", format!("tick {} is used but its account is gone", t));
            }
        }
        let sp = pool.tick_spacing.max(1) as i32;
        let mut bits: BTreeMap<i16, [u64; 4]> = BTreeMap::new();
        for t in gross.keys() {
            let (w, b) = slot_of(t / sp);
            bits.entry(w).or_insert([0; 4])[b as usize / 64] |= 1 << (b % 64);
        }
        for (w, bk) in &h.bitmaps {
            if let Some(b) = l.get(bk).and_then(|a| Bitmap::parse(&a.data)) {
                if b.word != bits.get(w).copied().unwrap_or([0; 4]) {
                    bad(&[2, 7], "bitmap", format!("word {} is {:x?} but must be {:x?}", w, b.word, bits.get(w)));
                }
            }
        }
        // P01
        let vault = |side: usize| tok_of(l, &h.id.vault(side)).map(|t| t.amount).unwrap_or(0);
        let tol = U256::from(h.positions.len() as u64 + 4);
        let slack = [sub_signed(math::u(vault(0)) << 64, claims[0]), sub_signed(math::u(vault(1)) << 64, claims[1])];
        if !uncertain {
            for side in 0..2 {
                if slack[side].0 && slack[side].1 > tol {
                    bad(&[1], "insolvent", format!("vault {} holds {} and is short by {}/2^64", side, vault(side), slack[side].1));
                }
                if let Some(p) = h.slack {
                    if less_by(slack[side], p[side], tol) {
                        bad(&[1], "rounding-leak", format!("surplus of vault {} shrank from {:?} to {:?} (2^-64 units)", side, p[side], slack[side]));
                    }
                }
            }
            h.slack = Some(slack);
        } else {
            h.slack = None;
        }
        // P05
        if !h.tainted {
            for (pk, sh) in &h.positions {
                let p = match l.get(pk).and_then(|a| Position::parse(&a.data)) {
                    Some(p) => p,
                    None => continue,
                };
                let inside = match (ticks.get(&sh.lo), ticks.get(&sh.hi)) {
                    (Some(a), Some(b)) if p.liquidity > 0 => growth_inside(&pool, a, b),
                    _ => (p.growth_0, p.growth_1),
                };
                for side in 0..2 {
                    let (owed, gl, gi) = if side == 0 { (p.owed_0, p.growth_0, inside.0) } else { (p.owed_1, p.growth_1, inside.1) };
                    let pending = (math::u(gi.wrapping_sub(gl)) * math::u(p.liquidity)) << 32;
                    let have = (math::u(owed) << 64) + pending + (U256::from(sh.withdrawn[side]) << 64);
                    let prin = U256::from(sh.principal[side]) << 64;
                    let e = sh.earned[side];
                    let floor = (sh.dust[side] + (U256::from(sh.updates + 1) << 64)).min(e);
                    if have > prin + e {
                        bad(&[5], "fees-too-high", format!("position {} has {} of token {} (2^-64) but earned {}", pk, have - prin, side, e));
                    } else if have < prin + e - floor {
                        bad(&[5], "fees-too-low", format!("position {} has {} of token {} (2^-64) but earned {} (dust {})", pk, have - prin.min(have), side, e, floor));
                    }
                }
            }
        }
        // P14
        if pool.obs_card > pool.obs_next || pool.obs_index >= pool.obs_card.max(1) {
            bad(&[14], "ring-bounds", format!("index {} cardinality {} next {}", pool.obs_index, pool.obs_card, pool.obs_next));
        }
        if pool.obs_card < h.last_card || pool.obs_next < h.last_next {
            bad(&[14], "ring-shrunk", format!("cardinality {}->{} next {}->{}", h.last_card, pool.obs_card, h.last_next, pool.obs_next));
        }
        h.last_card = pool.obs_card;
        h.last_next = pool.obs_next;
        let mut prev: Option<u32> = None;
        let wrapped = now > u32::MAX as i64;
        for i in 0..pool.obs_next {
            let j = ((pool.obs_index as u32 + pool.obs_next as u32 - i as u32) % pool.obs_next as u32) as u16;
            let o = h.obs.get(&j).and_then(|k| l.get(k)).and_then(|a| Obs::parse(&a.data));
            match o {
                Some(o) => {
                    if o.index != j {
                        bad(&[14, 19], "ring-slot-identity", format!("slot {} says it is {}", j, o.index));
                    }
                    if i == 0 && !o.initialized {
                        bad(&[14], "ring-head", "newest slot not initialized".into());
                    }
                    if o.initialized {
                        if j >= pool.obs_card {
                            bad(&[14], "ring-populated", format!("slot {} is in use but the cardinality is {}", j, pool.obs_card));
                        }
                        if let Some(p) = prev {
                            if o.ts / PARTITION >= p / PARTITION && !wrapped {
                                bad(&[14], "ring-order", format!("slot {} at {} is not older than {}", j, o.ts, p));
                            }
                        }
                        prev = Some(o.ts);
                    }
                }
                None => bad(&[14], "ring-slot-missing", format!("slot {} of {} does not exist", j, pool.obs_next)),
            }
        }
        // P13
        if let Some(o) = h.obs.get(&pool.obs_index).and_then(|k| l.get(k)).and_then(|a| Obs::parse(&a.data)) {
            // the newest observation, carried forward by the state in force since then, is the integral to date
            let dt = (now as u32).wrapping_sub(o.ts);
            let changed = h.prev.map(|p| p.tick != pool.tick || p.liquidity != pool.liquidity).unwrap_or(false);
            if changed && dt != 0 {
                bad(&[13], "oracle-not-written", format!("tick or liquidity changed at {} but the newest observation is from {}", now, o.ts));
            }
            let t = o.tick_cum as i128 + pool.tick as i128 * dt as i128;
            if t != h.tick_int {
                bad(&[13], "tick-integral", format!("tick integral {} at {} but must be {}", t, now, h.tick_int));
            }
            let s = o.spl_cum.wrapping_add((((dt as u64) << 32) / pool.liquidity.max(1)) as u64);
            let exact = (h.spl_int >> 64).low_u64();
            let lag = exact.wrapping_sub(s);
            // (the oracle's own sum is kept to 2^-64 and may fall just short of a whole unit)
            if lag.wrapping_add(1) > h.writes + 3 {
                bad(&[13], "liquidity-integral", format!("seconds per liquidity {} but must be {}", s, exact));
            }
        }
        // P20
        if h.ev_price != pool.sqrt_price || h.ev_tick != pool.tick || h.ev_liq.map(|x| x != pool.liquidity).unwrap_or(false) {
            bad(
                &[20],
                "event-replay-pool",
                format!("events give price {} tick {} liquidity {:?}, pool has {} {} {}", h.ev_price, h.ev_tick, h.ev_liq, pool.sqrt_price, pool.tick, pool.liquidity),
            );
        }
        for (pk, sh) in &h.positions {
            let have = l.get(pk).and_then(|a| Position::parse(&a.data)).map(|p| p.liquidity).unwrap_or(0);
            let ev = h.ev_pos.get(&(sh.owner, sh.lo, sh.hi)).copied().unwrap_or(0);
            if ev != have as i128 {
                bad(&[20], "event-replay-position", format!("events give liquidity {} for {} [{}, {}), it has {}", ev, sh.owner, sh.lo, sh.hi, have));
            }
        }
        h.prev = Some(pool);
        // P15
        bank::set_view_clock(now);
        let views: Vec<Pubkey> = h.positions.keys().copied().collect();
        for pk in views {
            let sh = h.positions.get_mut(&pk).unwrap();
            let live = gross.get(&sh.lo).copied().unwrap_or(0) > 0 && l.get(&pk).and_then(|a| Position::parse(&a.data)).map(|p| p.liquidity > 0).unwrap_or(false);
            if !live || !h.ticks.contains_key(&sh.lo) || !h.ticks.contains_key(&sh.hi) {
                sh.base = None;
                continue;
            }
            let last = h.obs.get(&pool.obs_index).and_then(|k| l.get(k));
            let snap = match (l.get(k), l.get(&h.ticks[&sh.lo]), l.get(&h.ticks[&sh.hi]), last) {
                (Some(p), Some(a), Some(b), Some(o)) => real_snapshot(&p.data, &a.data, &b.data, &o.data),
                _ => continue,
            };
            let snap = match snap {
                Ok(s) => s,
                Err(e) => {
                    v.push(viol(&[15], "snapshot-panic", format!("snapshot of [{}, {}) failed: {}", sh.lo, sh.hi, e)));
                    continue;
                }
            };
            match sh.base {
                None => {
                    sh.base = Some(snap);
                    sh.secs = 0;
                    sh.ticksecs = 0;
                    sh.spl = U256::zero();
                    sh.moves = h.writes;
                }
                Some(b) => {
                    let d = (snap.0.wrapping_sub(b.0), snap.1.wrapping_sub(b.1), snap.2.wrapping_sub(b.2));
                    let exact = (sh.spl >> 64).low_u64();
                    let err = (h.writes - sh.moves) * 4 + 8;
                    let off = exact.wrapping_sub(d.1).wrapping_add(err);
                    if d.0 as i128 != sh.ticksecs || d.2 as u64 != sh.secs & 0xffff_ffff || off > 2 * err {
                        v.push(viol(
                            &[15],
                            "snapshot",
                            format!(
                                "after {}: range [{}, {}) measured (tick-seconds {}, seconds per liquidity {}, seconds {}) but must be ({}, {}, {})",
                                name, sh.lo, sh.hi, d.0, d.1, d.2, sh.ticksecs, exact, sh.secs
                            ),
                        ));
                        sh.base = None;
                    }
                }
            }
        }
    }

    /// P10, P22
    fn check_nfts(&mut self, s: &Setup, spec: &TxSpec, pre: &Ledger, post: &Ledger, r: &TxResult, v: &mut Vec<Viol>) {
        let relevant = r.changes.iter().any(|c| {
            let f = |a: &Option<std::rc::Rc<bank::Acct>>| {
                a.as_ref().map(|a| a.owner == CORE && (NftPos::is(&a.data) || Position::is(&a.data)) || a.owner == TOKEN && a.data.len() == MINT_LEN).unwrap_or(false)
            };
            f(&c.pre) || f(&c.post)
        });
        if !relevant {
            return;
        }
        let name = op_name(&spec.ops[0]);
        let mut sums: BTreeMap<(Pubkey, i32, i32), u128> = BTreeMap::new();
        let mut owed: BTreeMap<(Pubkey, i32, i32), [U256; 2]> = BTreeMap::new();
        for m in self.nfts.clone() {
            let n = match nft_of(post, &m) {
                Some(n) => n,
                None => {
                    v.push(viol(&[10, 19, 22], "nft-record-gone", format!("after {}: record of NFT {} gone", name, m)));
                    continue;
                }
            };
            if let Some(o) = nft_of(pre, &m) {
                if (n.mint, n.pool_id, n.tick_lower, n.tick_upper, n.bump) != (o.mint, o.pool_id, o.tick_lower, o.tick_upper, o.bump) {
                    v.push(viol(&[10, 19, 22], "nft-identity", format!("after {}: NFT {} changed identity", name, m)));
                }
            }
            *sums.entry((n.pool_id, n.tick_lower, n.tick_upper)).or_insert(0) += n.liquidity as u128;
            let e = owed.entry((n.pool_id, n.tick_lower, n.tick_upper)).or_insert([U256::zero(); 2]);
            e[0] += math::u(n.owed_0) << 64;
            e[1] += math::u(n.owed_1) << 64;
            if let Some(h) = self.pools.get(&n.pool_id) {
                if let (Some(p), Some(a), Some(b)) = (
                    pool_of(post, &n.pool_id),
                    h.ticks.get(&n.tick_lower).and_then(|k| tick_of(post, k)),
                    h.ticks.get(&n.tick_upper).and_then(|k| tick_of(post, k)),
                ) {
                    if n.liquidity > 0 {
                        let g = growth_inside(&p, &a, &b);
                        e[0] += (math::u(g.0.wrapping_sub(n.growth_0)) * math::u(n.liquidity)) << 32;
                        e[1] += (math::u(g.1.wrapping_sub(n.growth_1)) * math::u(n.liquidity)) << 32;
                    }
                }
            }
            if self.ev_nft.get(&m).copied().unwrap_or(0) != n.liquidity as i128 {
                v.push(viol(&[20], "event-replay-nft", format!("after {}: events give NFT {} liquidity {:?}, it has {}", name, m, self.ev_nft.get(&m), n.liquidity)));
            }
            // uniqueness
            let mint = post.get(&m).and_then(|a| mint_acc(&a.data));
            let auth_ok = mint.map(|x| x.authority.is_none() || x.authority == Some(factory())).unwrap_or(false);
            if !mint.map(|x| x.supply <= 1 && x.decimals == 0 && x.init).unwrap_or(false) || !auth_ok {
                v.push(viol(&[22], "nft-supply", format!("after {}: NFT mint {} is {:?}", name, m, mint)));
            }
            if mint.map(|x| x.freeze.is_some() && x.freeze != Some(factory())).unwrap_or(false) {
                v.push(viol(&[22, 17], "nft-freeze", format!("after {}: NFT mint {} can be frozen by a third party", name, m)));
            }
            if let (Some(a), Some(b)) = (pre.get(&m).and_then(|a| mint_acc(&a.data)), mint) {
                if a.init && a.authority.is_none() && b.authority.is_some() {
                    v.push(viol(&[22], "nft-mint-reopened", format!("after {}: NFT {} can be minted again", name, m)));
                }
            }
            let total: u64 = (0..s.users).filter_map(|u| tok_of(post, &ata(&s.user(u), &m))).map(|t| t.amount).sum();
            if total != 1 && mint.map(|x| x.supply) == Some(1) && false {
                v.push(viol(&[22], "nft-holders", format!("NFT {} held {} times", m, total)));
            }
            let _ = self.meta.len();
        }
        for (pk, h) in &self.pools {
            for (k, sh) in &h.positions {
                if sh.owner != factory() {
                    continue;
                }
                let key = (*pk, sh.lo, sh.hi);
                let have = post.get(k).and_then(|a| Position::parse(&a.data));
                let p = match have {
                    Some(p) => p,
                    None => continue,
                };
                let direct = self.direct.get(k).copied().unwrap_or(0);
                let nft = sums.remove(&key).unwrap_or(0);
                if nft > p.liquidity as u128 || !h.tainted && nft + direct != p.liquidity as u128 {
                    v.push(viol(
                        &[10],
                        "nft-backing",
                        format!("after {}: NFTs of [{}, {}) add up to {} but custody holds {} ({} deposited directly)", name, sh.lo, sh.hi, nft, p.liquidity, direct),
                    ));
                }
                if !h.tainted {
                    if let (Some(pool), Some(a), Some(b)) = (
                        pool_of(post, pk),
                        h.ticks.get(&sh.lo).and_then(|k| tick_of(post, k)),
                        h.ticks.get(&sh.hi).and_then(|k| tick_of(post, k)),
                    ) {
                        let g = growth_inside(&pool, &a, &b);
                        let mut cust = [math::u(p.owed_0) << 64, math::u(p.owed_1) << 64];
                        if p.liquidity > 0 {
                            cust[0] += (math::u(g.0.wrapping_sub(p.growth_0)) * math::u(p.liquidity)) << 32;
                            cust[1] += (math::u(g.1.wrapping_sub(p.growth_1)) * math::u(p.liquidity)) << 32;
                        }
                        let claim = owed.get(&key).copied().unwrap_or([U256::zero(); 2]);
                        for side in 0..2 {
                            let dust = U256::from(sh.updates + 2) << 64;
                            if claim[side] > cust[side] + dust {
                                v.push(viol(
                                    &[10],
                                    "nft-claims",
                                    format!("after {}: NFTs of [{}, {}) can claim {} of token {} but custody has {} (2^-64)", name, sh.lo, sh.hi, claim[side], side, cust[side]),
                                ));
                            }
                        }
                    }
                }
            }
        }
        for (k, l) in sums {
            if l > 0 {
                v.push(viol(&[10], "nft-unbacked", format!("after {}: NFTs of {:?} have liquidity {} and no custody position", name, k, l)));
            }
        }
    }

    pub fn positions_of(&self, l: &Ledger) -> Vec<(Pubkey, Pubkey, Pubkey, i32, i32, Position)> {
        let mut v = vec![];
        for (pk, h) in &self.pools {
            for (k, sh) in &h.positions {
                if let Some(p) = l.get(k).and_then(|a| Position::parse(&a.data)) {
                    v.push((*pk, *k, sh.owner, sh.lo, sh.hi, p));
                }
            }
        }
        v
    }
}

impl Hist {
    /// when the newest observation of a pool was made
    pub fn newest_obs(&self, l: &Ledger, pool: &Pubkey) -> Option<u32> {
        let p = pool_of(l, pool)?;
        let k = self.pools.get(pool)?.obs.get(&p.obs_index)?;
        l.get(k).and_then(|a| Obs::parse(&a.data)).map(|o| o.ts)
    }
}

impl crate::judge::Ident for (&Hist, &Setup, &Ledger) {
    fn foreign(&self, k: &Pubkey, ops: &[Op]) -> bool {
        match self.0.owner_of.get(k) {
            Some(p) => !ops.iter().any(|o| self.0.pool_named(self.1, o, self.2).contains(p)),
            None => false,
        }
    }
}

/// `nosnap` builds do not call the program's function (for trees that changed its interface) but
/// judge the stored accumulators by the formula
#[cfg(feature = "nosnap")]
fn real_snapshot(pool: &[u8], lo: &[u8], hi: &[u8], obs: &[u8]) -> Result<(i64, u64, u32), String> {
    let p = Pool::parse(pool).ok_or("size")?;
    let a = Tick::parse(lo).ok_or("size")?;
    let b = Tick::parse(hi).ok_or("size")?;
    let o = Obs::parse(obs).ok_or("size")?;
    let now = bank::view_clock() as u32;
    let dt = now.wrapping_sub(o.ts);
    let cum = o.tick_cum.wrapping_add((p.tick as i64).wrapping_mul(dt as i64));
    let spl = o.spl_cum.wrapping_add(((dt as u64) << 32) / p.liquidity.max(1));
    let (x, y) = ((a.tick_cum_out, a.spl_out, a.secs_out), (b.tick_cum_out, b.spl_out, b.secs_out));
    let less = |x: (i64, u64, u32), y: (i64, u64, u32)| (x.0.wrapping_sub(y.0), x.1.wrapping_sub(y.1), x.2.wrapping_sub(y.2));
    Ok(if p.tick < a.tick {
        less(x, y)
    } else if p.tick < b.tick {
        less(less((cum, spl, now), x), y)
    } else {
        less(y, x)
    })
}
#[cfg(not(feature = "nosnap"))]
fn real_snapshot(pool: &[u8], lo: &[u8], hi: &[u8], obs: &[u8]) -> Result<(i64, u64, u32), String> {
    use cyclos_core::states::{oracle::ObservationState, pool::PoolState, tick::TickState};
    let p: PoolState = raw(pool).ok_or("size")?;
    let a: TickState = raw(lo).ok_or("size")?;
    let b: TickState = raw(hi).ok_or("size")?;
    let o: ObservationState = raw(obs).ok_or("size")?;
    bank::view(|| {
        let s = p.snapshot_cumulatives_inside(&a, &b, &o);
        (s.tick_cumulative_inside, s.seconds_per_liquidity_inside_x32, s.seconds_inside)
    })
}

/// fees a growth of the accumulator from g0 to g1 (modulo 2^64) is worth
fn fee_share(g1: u64, g0: u64, l: u64) -> u64 {
    ((g1.wrapping_sub(g0) as u128 * l as u128) >> 32) as u64
}

/// P23: amounts against the exact worth of the liquidity, less than two units apart, to the pool's advantage
fn worth(p: &Pool, lo: i32, hi: i32, liq: u64, amounts: [i128; 2], up: bool, v: &mut Vec<Viol>) {
    let (x, y) = math::exact_value(p.tick, p.sqrt_price, lo, hi, liq);
    let unit = U256::one() << 64;
    for (side, exact) in [(0, x), (1, y)] {
        let a = amounts[side];
        // the exact worth is itself rounded down to 2^-64
        let fair = a >= 0 && {
            let a = U256::from(a as u128) << 64;
            if up {
                a >= exact && a < exact + unit * U256::from(2u64) + U256::one()
            } else {
                a <= exact && a + unit * U256::from(2u64) > exact
            }
        };
        if !fair {
            let what = if up { "deposited" } else { "withdrawn" };
            let props: &[u8] = if up { &[1, 23] } else { &[1, 17, 23] };
            v.push(viol(
                props,
                format!("worth:{}", what),
                format!("liquidity {} in {}..{} at tick {} price {}: {} of token {} {}, worth {}", liq, lo, hi, p.tick, p.sqrt_price, a, side, what, exact >> 64),
            ));
        }
    }
}

/// P23: the liquidity credited for a deposit through the router
#[allow(clippy::too_many_arguments)]
fn bought(p: &Pool, lo: i32, hi: i32, liq: u64, d0: u64, d1: u64, paid: [i128; 2], v: &mut Vec<Viol>) {
    worth(p, lo, hi, liq, paid, true, v);
    let want = math::liquidity_for(p.sqrt_price, math::sqrt_at(lo), math::sqrt_at(hi), d0, d1);
    if want != Some(liq) {
        v.push(viol(&[4, 10, 23], "bounds:liquidity-bought", format!("{} and {} desired: liquidity {} credited, must be {:?}", d0, d1, liq, want)));
    }
}

pub fn who_of(s: &Setup, k: &Pubkey) -> Option<Who> {
    if *k == factory() {
        return Some(Who::Factory);
    }
    (0..s.users).find(|u| s.user(*u) == *k).map(Who::U)
}
