//! Reference arithmetic of the concentrated-liquidity curve over 256-bit integers, written from the
//! protocol's published formulae (Uniswap v3 whitepaper sections 6.1-6.3, Q32.32 square-root prices).
//! `None` means "the true value does not fit the machine word the protocol promises".
use crate::abi::*;

#[allow(clippy::all)]
mod big {
    uint::construct_uint! { pub struct U256(4); }
    uint::construct_uint! { pub struct U512(8); }
}
pub use big::{U256, U512};

pub fn u(x: u64) -> U256 {
    U256::from(x)
}
fn fit(x: U256) -> Option<u64> {
    if x > u(u64::MAX) {
        None
    } else {
        Some(x.as_u64())
    }
}
fn ceil_div(a: U256, b: U256) -> U256 {
    let q = a / b;
    if (a % b).is_zero() {
        q
    } else {
        q + U256::one()
    }
}

/// 2^64 / sqrt(1.0001)^(2^i), as tabulated for the protocol
const FACTORS: [u64; 18] = [
    0xfffcb933bd6fb800, 0xfff97272373d4000, 0xfff2e50f5f657000, 0xffe5caca7e10f000, 0xffcb9843d60f7000,
    0xff973b41fa98e800, 0xff2ea16466c9b000, 0xfe5dee046a9a3800, 0xfcbe86c7900bb000, 0xf987a7253ac65800,
    0xf3392b0822bb6000, 0xe7159475a2caf000, 0xd097f3bdfd2f2000, 0xa9f746462d9f8000, 0x70d869a156f31c00,
    0x31be135f97ed3200, 0x09aa508b5b85a500, 0x005d6af8dedc582c,
];

/// square-root price of a tick, Q32.32, rounded up
pub fn sqrt_at(tick: i32) -> u64 {
    let n = tick.unsigned_abs();
    debug_assert!(n <= MAX_TICK as u32);
    let mut r: u128 = 1u128 << 64;
    for (i, f) in FACTORS.iter().enumerate() {
        if n >> i & 1 == 1 {
            r = ((U256::from(r) * u(*f)) >> 64).as_u128();
        }
    }
    if tick > 0 {
        r = u128::MAX / r;
    }
    ((r >> 32) as u64) + ((r & 0xffff_ffff != 0) as u64)
}

/// greatest tick whose price does not exceed p
pub fn tick_at(p: u64) -> Option<i32> {
    if !(MIN_SQRT_RATIO..MAX_SQRT_RATIO).contains(&p) {
        return None;
    }
    let (mut lo, mut hi) = (MIN_TICK, MAX_TICK); // sqrt(lo) <= p < sqrt(hi)
    while hi - lo > 1 {
        let m = (lo + hi).div_euclid(2);
        if sqrt_at(m) <= p {
            lo = m
        } else {
            hi = m
        }
    }
    Some(lo)
}

/// token0 between two prices at the given liquidity: L * 2^32 * (b - a) / (a * b)
pub fn amount0(a: u64, b: u64, l: u64, up: bool) -> Option<u64> {
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let n = (u(l) << 32) * u(b - a);
    let d = u(a) * u(b);
    fit(if up { ceil_div(n, d) } else { n / d })
}
/// token1 between two prices at the given liquidity: L * (b - a) / 2^32
pub fn amount1(a: u64, b: u64, l: u64, up: bool) -> Option<u64> {
    let (a, b) = if a > b { (b, a) } else { (a, b) };
    let n = u(l) * u(b - a);
    let d = U256::one() << 32;
    fit(if up { ceil_div(n, d) } else { n / d })
}

/// price after `amt` of token0 enters (add) or leaves the pool, rounded up
pub fn next_from_0(p: u64, l: u64, amt: u64, add: bool) -> Option<u64> {
    if amt == 0 {
        return Some(p);
    }
    let n = u(l) << 32;
    let prod = u(amt) * u(p);
    if add {
        if prod <= u(u64::MAX) {
            fit(ceil_div(n * u(p), n + prod))
        } else {
            // documented alternative form for large products: L / (L / p + amt)
            fit(ceil_div(n, n / u(p) + u(amt)))
        }
    } else {
        if prod >= n {
            return None; // more than the reserves
        }
        fit(ceil_div(n * u(p), n - prod))
    }
}
/// price after `amt` of token1 enters (add) or leaves the pool, rounded down
pub fn next_from_1(p: u64, l: u64, amt: u64, add: bool) -> Option<u64> {
    let n = u(amt) << 32;
    if add {
        fit(u(p) + n / u(l))
    } else {
        let q = ceil_div(n, u(l));
        if q >= u(p) {
            None
        } else {
            Some(p - q.as_u64())
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct StepOut {
    pub next: u64,
    pub amount_in: u64,
    pub amount_out: u64,
    pub fee: u64,
    /// the input that would carry the price to the target does not fit 64 bits
    pub huge_target: bool,
}

/// one segment of a swap
pub fn swap_step(cur: u64, target: u64, l: u64, remaining: i64, fee_pips: u32) -> Option<StepOut> {
    let zfo = cur >= target;
    let exact_in = remaining >= 0;
    let d_in = |a: u64, b: u64| if zfo { amount0(a, b, l, true) } else { amount1(a, b, l, true) };
    let d_out = |a: u64, b: u64| if zfo { amount1(a, b, l, false) } else { amount0(a, b, l, false) };
    let mut huge_target = false;
    let next = if exact_in {
        let less = (u(remaining as u64) * u(1_000_000 - fee_pips as u64) / u(1_000_000)).as_u64();
        let full = d_in(cur, target);
        huge_target = full.is_none();
        if full.map_or(false, |f| less >= f) {
            target
        } else if zfo {
            next_from_0(cur, l, less, true)?
        } else {
            next_from_1(cur, l, less, true)?
        }
    } else {
        let want = remaining.unsigned_abs();
        let full = d_out(cur, target);
        huge_target = full.is_none();
        if full.map_or(false, |f| want >= f) {
            target
        } else if zfo {
            next_from_1(cur, l, want, false)?
        } else {
            next_from_0(cur, l, want, false)?
        }
    };
    let amount_in = d_in(cur, next)?;
    let mut amount_out = d_out(cur, next)?;
    if !exact_in {
        amount_out = amount_out.min(remaining.unsigned_abs());
    }
    let fee = if exact_in && next != target {
        (remaining as u64).checked_sub(amount_in)?
    } else {
        fit(ceil_div(u(amount_in) * u(fee_pips as u64), u(1_000_000 - fee_pips as u64)))?
    };
    Some(StepOut { next, amount_in, amount_out, fee, huge_target })
}

/// liquidity bought by at most the given amounts, rounded down
pub fn liquidity_for(p: u64, a: u64, b: u64, amt0: u64, amt1: u64) -> Option<u64> {
    let for0 = |a: u64, b: u64| fit(u(amt0) * ((u(a) * u(b)) >> 32) / u(b - a)).and_then(|v| fit((u(a) * u(b)) >> 32).map(|_| v));
    let for1 = |a: u64, b: u64| fit((u(amt1) << 32) / u(b - a));
    if p <= a {
        for0(a, b)
    } else if p < b {
        Some(for0(p, b)?.min(for1(a, p)?))
    } else {
        for1(a, b)
    }
}

/// signed token amounts for a liquidity change at the current tick/price: (token0, token1)
pub fn position_amounts(tick: i32, p: u64, lo: i32, hi: i32, l: u64, up: bool) -> Option<(u64, u64)> {
    let (a, b) = (sqrt_at(lo), sqrt_at(hi));
    if tick < lo {
        Some((amount0(a, b, l, up)?, 0))
    } else if tick < hi {
        Some((amount0(p, b, l, up)?, amount1(a, p, l, up)?))
    } else {
        Some((0, amount1(a, b, l, up)?))
    }
}

/// value of a position in units of 2^-64 token, rounded down: (token0, token1)
pub fn exact_value(tick: i32, p: u64, lo: i32, hi: i32, l: u64) -> (U256, U256) {
    let (a, b) = (sqrt_at(lo), sqrt_at(hi));
    let v0 = |a: u64, b: u64| {
        let n = (U512::from(l) * U512::from(b - a)) << 96;
        let d = U512::from(a) * U512::from(b);
        let q = n / d;
        let mut o = [0u64; 4];
        o.copy_from_slice(&q.0[..4]);
        U256(o)
    };
    let v1 = |a: u64, b: u64| (u(l) * u(b - a)) << 32;
    if tick < lo {
        (v0(a, b), U256::zero())
    } else if tick < hi {
        (v0(p.max(a), b), v1(a, p.max(a)))
    } else {
        (U256::zero(), v1(a, b))
    }
}
