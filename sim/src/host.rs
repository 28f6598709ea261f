//! The host the program runs on. While a transaction executes, the wall clock, the system's
//! randomness and the process environment are drawn from the simulator instead, and drawn anew
//! for every execution, so a program that depends on any of them gives another result when the
//! same transaction is executed again. Outside transactions the clock is the real one (the driver
//! needs it for its time limits); randomness is always the simulator's, so hash tables in any
//! part of the process iterate in a reproducible order.
use crate::rng::{mix, Rng};
use std::cell::Cell;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = if cfg!(target_arch = "aarch64") { 113 } else { 228 };

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}

thread_local! {
    /// state of the draw; 0 while no transaction executes
    static DRAW: Cell<u64> = const { Cell::new(0) };
    static NOW: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
    static RANDOM: Cell<u64> = const { Cell::new(0x5EED) };
}

/// a new simulated world
pub fn restart() {
    COUNT.with(|c| c.set(0));
    ASKED.with(|c| c.set(0));
}
/// how often the program asked the host for something
pub fn asked() -> u64 {
    ASKED.with(|c| c.get())
}

pub struct Inside;
pub fn enter(now: i64) -> Inside {
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    NOW.with(|c| c.set(now));
    DRAW.with(|d| d.set(mix(n) | 1));
    Inside
}
impl Drop for Inside {
    fn drop(&mut self) {
        DRAW.with(|d| d.set(0));
    }
}

/// a draw, if a transaction is executing
fn draw() -> Option<Rng> {
    DRAW.with(|d| {
        if d.get() == 0 {
            return None;
        }
        d.set(mix(d.get()) | 1);
        ASKED.with(|c| c.set(c.get() + 1));
        Some(Rng::new(d.get()))
    })
}

/// # Safety
/// as clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    let Some(mut r) = draw() else {
        return syscall(SYS_CLOCK_GETTIME, id as i64, t) as i32;
    };
    let now = NOW.with(|c| c.get());
    let s = match r.below(4) {
        0 | 1 => now + r.irange(-90, 91),
        2 => now + r.irange(-100_000, 100_001),
        _ => r.irange(0, 1 << 33),
    };
    *t = Timespec { s: s.max(0), ns: r.below(1_000_000_000) as i64 };
    0
}

/// # Safety
/// as getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let mut r = draw().unwrap_or_else(|| {
        RANDOM.with(|c| {
            c.set(mix(c.get()));
            Rng::new(c.get())
        })
    });
    for i in 0..n {
        *p.add(i) = r.next() as u8;
    }
    n as isize
}

/// # Safety
/// as getentropy(3)
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut u8, n: usize) -> i32 {
    getrandom(p, n, 0);
    0
}

/// the environment of a transaction has every variable or none
/// # Safety
/// as getenv(3)
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if let Some(mut r) = draw() {
        return if r.chance(1, 2) { c"1".as_ptr() as *const u8 } else { std::ptr::null() };
    }
    extern "C" {
        static environ: *const *const u8;
    }
    let len = (0..).take_while(|i| *name.add(*i) != 0).count();
    let want = std::slice::from_raw_parts(name, len);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        let same = (0..len).all(|i| *v.add(i) == want[i]) && *v.add(len) == b'=';
        if same {
            return v.add(len + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
