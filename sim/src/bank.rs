//! A deterministic single-process stand-in for the Solana runtime.
//!
//! Everything a program can observe from its environment goes through here: account contents,
//! cross-program invocation, the clock and rent sysvars, logs.  The programs that run on it
//! (cyclos-core, SPL token, the associated-token-account program, Metaplex metadata) are the real
//! ones, linked natively; the system program and the byzantine callback handler are small
//! implementations in `progs.rs`.
//!
//! Runtime rules reproduced: transaction atomicity, message-level privilege union, signer and
//! writable privilege escalation checks (with PDA seeds), owner / read-only / executable checks on
//! every account at every frame boundary, lamport conservation, invoke depth, reentrancy ban
//! (switchable), "a failed inner call aborts the transaction", resizing of a caller's view of an
//! account created by an inner call, purge of accounts left without lamports.

use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}

pub type Ledger = BTreeMap<Pubkey, Rc<Acct>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}
pub fn ro(key: Pubkey) -> Meta {
    Meta { key, signer: false, writable: false }
}
pub fn rw(key: Pubkey) -> Meta {
    Meta { key, signer: false, writable: true }
}
pub fn sro(key: Pubkey) -> Meta {
    Meta { key, signer: true, writable: false }
}
pub fn srw(key: Pubkey) -> Meta {
    Meta { key, signer: true, writable: true }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Tx {
    pub ixs: Vec<Ix>,
    /// keys whose private key signed this transaction
    pub signers: Vec<Pubkey>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    /// program returned an error
    Program { ix: usize, code: u64, text: String },
    /// program panicked (aborted)
    Panic { ix: usize, text: String },
    /// injected: compute budget exhausted at the given syscall
    Abort { ix: usize },
    /// runtime refused (privilege, missing signature, ownership, balance...)
    Runtime { ix: usize, text: String },
}

/// what the byzantine callback program does when it is called
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Script {
    /// amounts actually paid, as (token_side, numerator, denominator, plus) applied to the amount owed
    pub pays: Vec<Pay>,
    /// instruction issued from within the callback before paying
    pub reenter: Option<Ix>,
    /// swallow nothing: the callback ends with an error
    pub fail: bool,
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Pay {
    /// destination: 0 = the right vault, 1 = the other vault, 2 = back to the payer
    pub dest: u8,
    /// amount = owed * num / den + plus
    pub num: u64,
    pub den: u64,
    pub plus: i64,
    /// which of the tokens owed: 0 = each, 1 = the first only, 2 = the second only
    #[serde(default, skip_serializing_if = "is_zero")]
    pub only: u8,
}
fn is_zero(x: &u8) -> bool {
    *x == 0
}

#[derive(Clone, Debug)]
pub struct Env {
    pub unix_time: i64,
    pub slot: u64,
    pub abort_at: Option<u32>,
    /// let the n-th inner call to the token program fail
    pub fail_token_at: Option<u32>,
    pub allow_reentry: bool,
    pub script: Script,
    pub trace: bool,
}
impl Default for Env {
    fn default() -> Self {
        Env { unix_time: 0, slot: 0, abort_at: None, fail_token_at: None, allow_reentry: false, script: Script::default(), trace: false }
    }
}

#[derive(Clone, Debug)]
pub struct Change {
    pub key: Pubkey,
    pub pre: Option<Rc<Acct>>,
    pub post: Option<Rc<Acct>>,
}

/// inner call observed at its successful end
#[derive(Clone, Debug)]
pub struct Inner {
    pub ix: usize,
    pub depth: usize,
    pub caller: Pubkey,
    pub program: Pubkey,
    pub accounts: Vec<Pubkey>,
    pub data: Vec<u8>,
    pub ok: bool,
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub ok: bool,
    pub err: Option<TxErr>,
    pub changes: Vec<Change>,
    /// (instruction index, emitting program, log text) of program-emitted base64 lines
    pub events: Vec<(usize, Pubkey, Vec<u8>)>,
    pub logs: Vec<String>,
    pub syscalls: u32,
    pub inner: Vec<Inner>,
    /// lock byte observations: (pool key, value) of core-owned pool accounts at each inner call
    pub lock_obs: Vec<(usize, Pubkey, Pubkey, bool)>,
    /// outcome of the scripted re-entering instruction, if it ran
    pub reenter_ok: Option<bool>,
}

struct Buf {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    mem: Vec<u64>, // 8-byte aligned: [len, data...]
    executable: bool,
}

struct Frame {
    program: Pubkey,
    privs: BTreeMap<Pubkey, (bool, bool)>,
    pre: BTreeMap<Pubkey, Acct>,
    views: Vec<AccountInfo<'static>>,
}

struct Exec {
    accts: BTreeMap<Pubkey, Acct>,
    frames: Vec<Frame>,
    env: Env,
    ix_no: usize,
    syscalls: u32,
    token_calls: u32,
    events: Vec<(usize, Pubkey, Vec<u8>)>,
    logs: Vec<String>,
    poison: Option<TxErr>,
    inner: Vec<Inner>,
    lock_obs: Vec<(usize, Pubkey, Pubkey, bool)>,
    reenter_ok: Option<bool>,
    tx_privs: BTreeMap<Pubkey, (bool, bool)>,
}

thread_local! {
    static EXEC: RefCell<Option<Exec>> = RefCell::new(None);
    static VIEW_CLOCK: std::cell::Cell<i64> = std::cell::Cell::new(0);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn ex<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    EXEC.with(|e| f(e.borrow_mut().as_mut().expect("no transaction in progress")))
}

struct AbortTx;

/// clock seen by read-only views called outside a transaction
pub fn set_view_clock(t: i64) {
    VIEW_CLOCK.with(|c| c.set(t))
}
pub fn view_clock() -> i64 {
    VIEW_CLOCK.with(|c| c.get())
}
/// run a read-only view of the protocol; a panic is reported as text
pub fn view<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
thread_local! { static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false); }
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<AbortTx>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", msg, loc));
        if !QUIET.with(|q| q.get()) && EXEC.with(|e| e.try_borrow().map(|x| x.is_none()).unwrap_or(false)) {
            eprintln!("HARNESS PANIC: {} @ {}", msg, loc);
        }
    }));
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
}

struct Stubs;

fn syscall_point() {
    let abort = ex(|e| {
        e.syscalls += 1;
        // a transaction that never ends is cut off, as by the compute budget
        if e.env.abort_at == Some(e.syscalls) || e.syscalls > 20_000 {
            let ix = e.ix_no;
            if e.poison.is_none() {
                e.poison = Some(TxErr::Abort { ix });
            }
            true
        } else {
            false
        }
    });
    if abort {
        std::panic::panic_any(AbortTx);
    }
}

impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        let active = EXEC.with(|e| e.borrow().is_some());
        if !active {
            return;
        }
        syscall_point();
        ex(|e| {
            let program = e.frames.last().map(|f| f.program).unwrap_or_default();
            let ix = e.ix_no;
            // Anchor events are logged as bare base64; everything else is free text
            if message.len() >= 12 && !message.contains(' ') {
                if let Ok(b) = base64::decode(message) {
                    e.events.push((ix, program, b));
                }
            }
            if e.env.trace {
                e.logs.push(message.to_string());
            }
        });
    }
    fn sol_log_data(&self, fields: &[&[u8]]) {
        syscall_point();
        ex(|e| {
            let program = e.frames.last().map(|f| f.program).unwrap_or_default();
            let ix = e.ix_no;
            for f in fields {
                e.events.push((ix, program, f.to_vec()));
            }
        });
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let (t, s) = EXEC
            .with(|e| e.borrow().as_ref().map(|e| (e.env.unix_time, e.env.slot)))
            .unwrap_or_else(|| VIEW_CLOCK.with(|c| (c.get(), 0)));
        unsafe {
            *(var_addr as *mut Clock) = Clock {
                slot: s,
                epoch_start_timestamp: 0,
                epoch: 0,
                leader_schedule_epoch: 0,
                unix_timestamp: t,
            };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe {
            *(var_addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default();
        }
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        syscall_point();
        match do_cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                ex(|x| {
                    if x.poison.is_none() {
                        x.poison = Some(e);
                    }
                });
                // a failed inner instruction ends the transaction: it cannot be caught
                std::panic::panic_any(AbortTx);
            }
        }
    }
}

fn rt<T>(text: impl Into<String>) -> Result<T, TxErr> {
    let ix = ex(|e| e.ix_no);
    Err(TxErr::Runtime { ix, text: text.into() })
}

fn do_cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), TxErr> {
    let (caller, depth) = ex(|e| (e.frames.last().unwrap().program, e.frames.len()));
    let mut pdas = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => pdas.push(k),
            Err(_) => return rt("invalid signer seeds"),
        }
    }
    if !ex(|e| e.tx_privs.contains_key(&ix.program_id)) {
        return rt(format!("unknown program {}", ix.program_id));
    }
    // privilege checks against the calling frame
    let mut metas: Vec<Meta> = vec![];
    for m in &ix.accounts {
        let p = ex(|e| e.frames.last().unwrap().privs.get(&m.pubkey).copied());
        let (s, w) = match p {
            Some(p) => p,
            None => return rt(format!("account {} not available to caller", m.pubkey)),
        };
        if m.is_writable && !w {
            return rt(format!("writable privilege escalated {}", m.pubkey));
        }
        if m.is_signer && !s && !pdas.contains(&m.pubkey) {
            return rt(format!("signer privilege escalated {}", m.pubkey));
        }
        metas.push(Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable });
    }
    // publish the caller's view of the accounts passed on
    let mut uniq: Vec<Pubkey> = vec![];
    for m in &metas {
        if uniq.contains(&m.key) {
            continue;
        }
        uniq.push(m.key);
        let exe = ex(|e| e.accts.get(&m.key).map(|a| a.executable).unwrap_or(false));
        if exe {
            continue;
        }
        match infos.iter().find(|i| *i.key == m.key) {
            Some(i) => {
                let cur = read_info(i)?;
                publish(m.key, cur)?;
            }
            None => return rt(format!("instruction references an unknown account {}", m.key)),
        }
    }
    let ambient = ex(|e| e.env.allow_reentry) && (caller == crate::abi::CORE || caller == crate::abi::HANDLER);
    if ambient {
        // the hypothetical runtime that permits re-entry shows the callee everything done so far
        for i in ex(|e| e.frames.last().unwrap().views.clone()) {
            if !i.executable {
                let cur = read_info(&i)?;
                publish(*i.key, cur)?;
            }
        }
    }
    observe_locks(caller, &uniq);
    let r = exec_frame(&ix.program_id, &metas, &ix.data);
    ex(|e| {
        let ixn = e.ix_no;
        e.inner.push(Inner {
            ix: ixn,
            depth,
            caller,
            program: ix.program_id,
            accounts: metas.iter().map(|m| m.key).collect(),
            data: ix.data.clone(),
            ok: r.is_ok(),
        })
    });
    r?;
    if ambient {
        for i in ex(|e| e.frames.last().unwrap().views.clone()) {
            if i.executable || uniq.contains(i.key) {
                continue;
            }
            let a = ex(|e| {
                let a = e.accts.get(i.key).cloned().unwrap_or_default();
                e.frames.last_mut().unwrap().pre.insert(*i.key, a.clone());
                a
            });
            write_info(&i, &a)?;
        }
    }
    // refresh the caller's view
    for k in &uniq {
        let (a, exe) = ex(|e| {
            let a = e.accts.get(k).cloned().unwrap_or_default();
            let exe = a.executable;
            if let Some(f) = e.frames.last_mut() {
                f.pre.insert(*k, a.clone());
            }
            (a, exe)
        });
        if exe {
            continue;
        }
        if let Some(i) = infos.iter().find(|i| i.key == k) {
            write_info(i, &a)?;
        }
    }
    Ok(())
}

fn observe_locks(caller: Pubkey, keys: &[Pubkey]) {
    if caller != crate::abi::CORE {
        return;
    }
    ex(|e| {
        let ixn = e.ix_no;
        for k in keys.iter().copied() {
            if let Some(a) = e.accts.get(&k) {
                if a.owner == crate::abi::CORE && crate::abi::is_pool(&a.data) {
                    let u = crate::abi::pool_unlocked(&a.data);
                    e.lock_obs.push((ixn, caller, k, u));
                }
            }
        }
    })
}

fn read_info(i: &AccountInfo) -> Result<Acct, TxErr> {
    // contents are read through raw pointers, as the BPF loader does: the program may hold borrows
    let lamports = unsafe { **i.lamports.as_ptr() };
    let data = unsafe { (**i.data.as_ptr()).to_vec() };
    Ok(Acct { lamports, owner: *i.owner, data, executable: i.executable })
}

fn write_info(i: &AccountInfo, a: &Acct) -> Result<(), TxErr> {
    unsafe {
        **i.lamports.as_ptr() = a.lamports;
        let op = i.owner as *const Pubkey as *mut Pubkey;
        std::ptr::write_volatile(op, a.owner);
        let slot = i.data.as_ptr();
        let cur: &mut [u8] = &mut **slot;
        if cur.len() != a.data.len() {
            let base = cur.as_mut_ptr();
            if a.data.len() > cur.len() + SPARE {
                return rt("account grown beyond the caller's buffer");
            }
            *(base.sub(8) as *mut u64) = a.data.len() as u64;
            let ns: &mut [u8] = std::slice::from_raw_parts_mut(base, a.data.len());
            ns.copy_from_slice(&a.data);
            *slot = std::mem::transmute::<&mut [u8], &mut [u8]>(ns);
        } else if cur != &a.data[..] {
            cur.copy_from_slice(&a.data);
        }
    }
    Ok(())
}

const SPARE: usize = 1024;

/// verify a frame's change to one account and make it visible to the rest of the transaction
fn publish(key: Pubkey, cur: Acct) -> Result<(), TxErr> {
    let e: Result<(), String> = ex(|e| {
        let f = e.frames.last_mut().unwrap();
        let pre = match f.pre.get(&key) {
            Some(p) => p,
            None => return Err(format!("account {} not in frame", key)),
        };
        if *pre == cur {
            return Ok(());
        }
        let w = f.privs.get(&key).map(|p| p.1).unwrap_or(false);
        if pre.executable {
            return Err("executable account changed".into());
        }
        if pre.owner != cur.owner {
            if !w || pre.owner != f.program || cur.data.iter().any(|b| *b != 0) {
                return Err(format!("ModifiedProgramId {}", key));
            }
        }
        if pre.lamports != cur.lamports {
            if !w {
                return Err(format!("ReadonlyLamportChange {}", key));
            }
            if cur.lamports < pre.lamports && pre.owner != f.program {
                return Err(format!("ExternalAccountLamportSpend {}", key));
            }
        }
        if pre.data.len() != cur.data.len() && (!w || pre.owner != f.program || f.program != crate::abi::SYSTEM) {
            return Err(format!("AccountDataSizeChanged {}", key));
        }
        if pre.data != cur.data {
            if !w {
                return Err(format!("ReadonlyDataModified {}", key));
            }
            if pre.owner != f.program {
                return Err(format!("ExternalAccountDataModified {}", key));
            }
        }
        f.pre.insert(key, cur.clone());
        e.accts.insert(key, cur);
        Ok(())
    });
    match e {
        Ok(()) => Ok(()),
        Err(t) => rt(t),
    }
}

fn exec_frame(program: &Pubkey, metas: &[Meta], data: &[u8]) -> Result<(), TxErr> {
    // depth and reentrancy
    let (depth, reent, ixn) = ex(|e| {
        let d = e.frames.len();
        let top_same = e.frames.last().map(|f| f.program == *program).unwrap_or(false);
        let any = e.frames.iter().any(|f| f.program == *program);
        (d, any && !top_same && !e.env.allow_reentry, e.ix_no)
    });
    if depth >= 5 {
        return rt("CallDepth");
    }
    if reent {
        return rt("ReentrancyNotAllowed");
    }
    if *program == spl_token::ID && depth > 0 {
        let fail = ex(|e| {
            e.token_calls += 1;
            e.env.fail_token_at == Some(e.token_calls)
        });
        if fail {
            return rt("injected token program failure");
        }
    }
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    let mut order: Vec<Pubkey> = vec![];
    let mut place: BTreeMap<Pubkey, usize> = BTreeMap::new();
    for m in metas {
        let p = privs.entry(m.key).or_insert((false, false));
        p.0 |= m.signer;
        p.1 |= m.writable;
        place.entry(m.key).or_insert_with(|| {
            order.push(m.key);
            order.len() - 1
        });
    }
    let ambient = *program == crate::abi::HANDLER && ex(|e| e.env.allow_reentry);
    if ambient {
        // the callback program is granted every account of the transaction (it may have received
        // them by other means), so that the pool's own lock is what stops re-entering calls
        let all: Vec<(Pubkey, (bool, bool))> = ex(|e| e.tx_privs.iter().map(|(k, v)| (*k, *v)).collect());
        for (k, v) in all {
            let p = privs.entry(k).or_insert((false, false));
            p.0 |= v.0;
            p.1 |= v.1;
            if !order.contains(&k) {
                order.push(k);
            }
        }
    }
    let mut pre = BTreeMap::new();
    let mut bufs: Vec<Box<Buf>> = vec![];
    ex(|e| {
        for k in &order {
            let a = e.accts.get(k).cloned().unwrap_or_default();
            let words = 1 + (a.data.len() + if a.data.is_empty() { SPARE } else { 0 } + 7) / 8;
            let mut mem = vec![0u64; words];
            mem[0] = a.data.len() as u64;
            unsafe {
                std::ptr::copy_nonoverlapping(a.data.as_ptr(), (mem.as_mut_ptr() as *mut u8).add(8), a.data.len());
            }
            bufs.push(Box::new(Buf { key: *k, owner: a.owner, lamports: a.lamports, mem, executable: a.executable }));
            pre.insert(*k, a);
        }
    });
    let pre_sum: u128 = pre.values().map(|a: &Acct| a.lamports as u128).sum();
    ex(|e| e.frames.push(Frame { program: *program, privs: privs.clone(), pre, views: vec![] }));

    let mut uniq: Vec<AccountInfo<'static>> = vec![];
    for b in bufs.iter_mut() {
        let (s, w) = privs[&b.key];
        unsafe {
            let bp: *mut Buf = &mut **b;
            let len = (&(*bp).mem)[0] as usize;
            let dp = (&mut (*bp).mem).as_mut_ptr() as *mut u8;
            let data: &'static mut [u8] = std::slice::from_raw_parts_mut(dp.add(8), len);
            uniq.push(AccountInfo {
                key: &(*bp).key,
                is_signer: s,
                is_writable: w,
                lamports: Rc::new(RefCell::new(&mut (*bp).lamports)),
                data: Rc::new(RefCell::new(data)),
                owner: &(*bp).owner,
                executable: (*bp).executable,
                rent_epoch: 0,
            });
        }
    }
    ex(|e| e.frames.last_mut().unwrap().views = uniq.clone());
    let infos: Vec<AccountInfo<'static>> = metas
        .iter()
        .map(|m| uniq[place[&m.key]].clone())
        .collect();

    LAST_PANIC.with(|p| p.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| crate::progs::dispatch(program, &infos, &uniq, data)));
    let poisoned = ex(|e| e.poison.clone());
    let res = if let Some(p) = poisoned {
        Err(p)
    } else {
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(pe)) => {
                let code = u64::from(pe.clone());
                Err(TxErr::Program { ix: ixn, code, text: format!("{:?}", pe) })
            }
            Err(_) => Err(TxErr::Panic { ix: ixn, text: LAST_PANIC.with(|p| p.borrow().clone()) }),
        }
    };
    let res = res.and_then(|_| {
        // a frame's remaining changes become visible when it ends
        let mut mid_sum: u128 = 0;
        for (i, b) in uniq.iter().zip(&bufs) {
            // as the loader does: the length recorded in the input buffer counts, whatever slice
            // the program's own view has been advanced to
            let c = {
                let bp: *const Buf = &**b;
                let (lamports, mem) = unsafe { (std::ptr::read_volatile(&(*bp).lamports), &(*bp).mem) };
                let len = mem[0] as usize;
                let bytes = unsafe { std::slice::from_raw_parts((mem.as_ptr() as *const u8).add(8), len.min((mem.len() - 1) * 8)) };
                Acct { lamports, owner: *i.owner, data: bytes.to_vec(), executable: i.executable }
            };
            mid_sum += c.lamports as u128;
            publish(*i.key, c)?;
        }
        if pre_sum != mid_sum && !ex(|e| e.env.allow_reentry) {
            return rt("UnbalancedInstruction");
        }
        Ok(())
    });
    let fr = ex(|e| e.frames.pop());
    drop(fr);
    drop(infos);
    drop(uniq);
    drop(bufs);
    res
}

/// run a transaction against a ledger; the ledger itself is not modified
pub fn execute(ledger: &Ledger, tx: &Tx, env: &Env) -> TxResult {
    // message-level privileges
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for ix in &tx.ixs {
        privs.entry(ix.program).or_insert((false, false));
        for m in &ix.metas {
            let p = privs.entry(m.key).or_insert((false, false));
            p.0 |= m.signer;
            p.1 |= m.writable;
        }
    }
    let mut accts = BTreeMap::new();
    for k in privs.keys() {
        if let Some(a) = ledger.get(k) {
            accts.insert(*k, (**a).clone());
        }
    }
    let mut res = TxResult {
        ok: false,
        err: None,
        changes: vec![],
        events: vec![],
        logs: vec![],
        syscalls: 0,
        inner: vec![],
        lock_obs: vec![],
        reenter_ok: None,
    };
    for (k, p) in &privs {
        if p.0 && !tx.signers.contains(k) {
            res.err = Some(TxErr::Runtime { ix: 0, text: format!("signature missing for {}", k) });
            return res;
        }
    }
    let exec = Exec {
        accts,
        frames: vec![],
        env: env.clone(),
        ix_no: 0,
        syscalls: 0,
        token_calls: 0,
        events: vec![],
        logs: vec![],
        poison: None,
        inner: vec![],
        lock_obs: vec![],
        reenter_ok: None,
        tx_privs: privs.clone(),
    };
    EXEC.with(|e| *e.borrow_mut() = Some(exec));
    let inside = crate::host::enter(env.unix_time);
    let mut err = None;
    for (n, ix) in tx.ixs.iter().enumerate() {
        ex(|e| e.ix_no = n);
        let metas: Vec<Meta> = ix
            .metas
            .iter()
            .map(|m| {
                let p = privs[&m.key];
                Meta { key: m.key, signer: p.0, writable: p.1 }
            })
            .collect();
        if !ledger.get(&ix.program).map(|a| a.executable).unwrap_or(false) {
            err = Some(TxErr::Runtime { ix: n, text: "program not executable".into() });
            break;
        }
        if let Err(e) = exec_frame(&ix.program, &metas, &ix.data) {
            err = Some(e);
            break;
        }
    }
    drop(inside);
    let exec = EXEC.with(|e| e.borrow_mut().take().unwrap());
    res.syscalls = exec.syscalls;
    res.events = exec.events;
    res.logs = exec.logs;
    res.inner = exec.inner;
    res.lock_obs = exec.lock_obs;
    res.reenter_ok = exec.reenter_ok;
    res.ok = err.is_none();
    res.err = err;
    if res.ok {
        for (k, a) in exec.accts {
            let pre = ledger.get(&k);
            let gone = a.lamports == 0;
            match pre {
                Some(p) if gone => res.changes.push(Change { key: k, pre: Some(p.clone()), post: None }),
                Some(p) if **p == a => {}
                Some(p) => res.changes.push(Change { key: k, pre: Some(p.clone()), post: Some(Rc::new(a)) }),
                None if gone => {}
                None => res.changes.push(Change { key: k, pre: None, post: Some(Rc::new(a)) }),
            }
        }
    } else {
        res.events.clear();
    }
    res
}

pub fn apply(ledger: &mut Ledger, r: &TxResult) {
    for c in &r.changes {
        match &c.post {
            Some(a) => {
                ledger.insert(c.key, a.clone());
            }
            None => {
                ledger.remove(&c.key);
            }
        }
    }
}

// ---- services for the simulated programs ---------------------------------------------------

pub fn script() -> Script {
    ex(|e| e.env.script.clone())
}
pub fn set_reenter_ok(v: bool) {
    ex(|e| e.reenter_ok = Some(v))
}

/// inner call issued by the byzantine callback program (same path as any program's)
pub fn invoke(ix: &Ix, infos: &[AccountInfo]) -> ProgramResult {
    let i = Instruction {
        program_id: ix.program,
        accounts: ix
            .metas
            .iter()
            .map(|m| solana_program::instruction::AccountMeta { pubkey: m.key, is_signer: m.signer, is_writable: m.writable })
            .collect(),
        data: ix.data.clone(),
    };
    solana_program::program::invoke_signed_unchecked(&i, infos, &[])
}

pub fn err(code: u32) -> ProgramError {
    ProgramError::Custom(code)
}
