//! Executable reference model of the protocol: what a transaction must do to the ledger, written
//! over plain structs and the reference arithmetic in `math`.  It works from the raw transaction,
//! so it also says what must happen to transactions with substituted accounts or data.
use crate::abi::*;
use crate::bank::{Acct, Env, Ix, Ledger, Meta, Tx};
use crate::math;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    /// the transaction must not commit
    Fail(&'static str),
    /// outside the model
    Unsure(&'static str),
}
pub type R<T> = Result<T, Stop>;
fn fail<T>(r: &'static str) -> R<T> {
    Err(Stop::Fail(r))
}
fn need(c: bool, r: &'static str) -> R<()> {
    if c {
        Ok(())
    } else {
        fail(r)
    }
}
trait OrFail<T> {
    fn orf(self, r: &'static str) -> R<T>;
}
impl<T> OrFail<T> for Option<T> {
    fn orf(self, r: &'static str) -> R<T> {
        self.ok_or(Stop::Fail(r))
    }
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub tick: i32,
    pub liq: u64,
    pub lp_fee: u64,
    pub proto: u64,
    pub amount_in: u64,
    pub amount_out: u64,
    pub crossed: Option<i32>,
    pub end_price: u64,
}

#[derive(Clone, Debug)]
pub struct SwapFact {
    pub pool: PoolId,
    pub zfo: bool,
    pub amount: i64,
    pub limit: u64,
    pub start_price: u64,
    pub start_tick: i32,
    pub end_price: u64,
    pub end_tick: i32,
    pub amount_0: i64,
    pub amount_1: i64,
    pub segs: Vec<Seg>,
    pub proto: u64,
    pub payer: Pubkey,
    pub in_acc: Pubkey,
    pub out_acc: Pubkey,
    pub words: usize,
    pub uninit_words: usize,
    pub huge: bool,
}
#[derive(Clone, Debug)]
pub enum Fact {
    Swap(SwapFact),
    Liquidity { pool: PoolId, owner: Pubkey, lo: i32, hi: i32, delta: i64, amount_0: u64, amount_1: u64 },
    Collect { pool: PoolId, owner: Pubkey, lo: i32, hi: i32, amount_0: u64, amount_1: u64, to_0: Pubkey, to_1: Pubkey },
    CollectProtocol { pool: PoolId, amount_0: u64, amount_1: u64 },
    NftMinted { mint: Pubkey, pool: PoolId, lo: i32, hi: i32, liquidity: u64, amount_0: u64, amount_1: u64, recipient: Pubkey },
    NftIncreased { mint: Pubkey, pool: PoolId, liquidity: u64, amount_0: u64, amount_1: u64 },
    NftDecreased { mint: Pubkey, pool: PoolId, liquidity: u64, amount_0: u64, amount_1: u64 },
    NftCollected { mint: Pubkey, pool: PoolId, amount_0: u64, amount_1: u64, to_0: Pubkey, to_1: Pubkey },
    Metadata { mint: Pubkey },
    PoolCreated { pool: PoolId },
    TickClosed { pool: PoolId, tick: i32 },
    Route { hops: usize },
    Revived { key: Pubkey },
    PosInit { key: Pubkey, pool: PoolId, owner: Pubkey, lo: i32, hi: i32 },
    Donation,
}

#[derive(Clone, Debug)]
pub struct Predicted {
    pub accounts: BTreeMap<Pubkey, Acct>,
    pub events: Vec<Vec<u8>>,
    /// amounts each foreign payment program is told it owes
    pub told: Vec<Vec<u8>>,
    pub facts: Vec<Fact>,
    /// accounts whose contents are another program's business
    pub opaque: Vec<Pubkey>,
    pub probes: Vec<&'static str>,
}

pub struct Spec<'a> {
    base: &'a Ledger,
    over: BTreeMap<Pubkey, Acct>,
    privs: BTreeMap<Pubkey, (bool, bool)>,
    pub env: &'a Env,
    pub events: Vec<Vec<u8>>,
    /// amounts each foreign payment program is told it owes
    pub told: Vec<Vec<u8>>,
    pub facts: Vec<Fact>,
    opaque: Vec<Pubkey>,
    pub probes: Vec<&'static str>,
    depth: usize,
    swap_budget: usize,
    /// client mode: choose the walk accounts instead of checking them
    at_most: usize,
    auto: bool,
    walk: Vec<Pubkey>,
    marks: Vec<usize>,
}

struct Cx<'b> {
    m: &'b [Meta],
}
impl<'b> Cx<'b> {
    fn k(&self, i: usize) -> R<Pubkey> {
        self.m.get(i).map(|m| m.key).orf("missing-account")
    }
    fn signer(&self, i: usize) -> R<Pubkey> {
        let m = self.m.get(i).orf("missing-account")?;
        need(m.signer, "missing-signature")?;
        Ok(m.key)
    }
    fn wr(&self, i: usize) -> R<Pubkey> {
        let m = self.m.get(i).orf("missing-account")?;
        need(m.writable, "not-writable")?;
        Ok(m.key)
    }
    fn rest(&self, i: usize) -> &'b [Meta] {
        if self.m.len() > i {
            &self.m[i..]
        } else {
            &[]
        }
    }
    fn wk(&self, key: &Pubkey) -> bool {
        self.m.iter().any(|m| m.key == *key && m.writable)
    }
}

pub fn predict(ledger: &Ledger, tx: &Tx, env: &Env) -> Result<Predicted, Stop> {
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for ix in &tx.ixs {
        privs.entry(ix.program).or_insert((false, false));
        for m in &ix.metas {
            let p = privs.entry(m.key).or_insert((false, false));
            p.0 |= m.signer;
            p.1 |= m.writable;
        }
    }
    for (k, p) in &privs {
        if p.0 && !tx.signers.contains(k) {
            return fail("missing-signature");
        }
    }
    let mut s = Spec::new(ledger, privs, env);
    for ix in &tx.ixs {
        let metas: Vec<Meta> = ix
            .metas
            .iter()
            .map(|m| {
                let p = s.privs[&m.key];
                Meta { key: m.key, signer: p.0, writable: p.1 }
            })
            .collect();
        s.exec(&ix.program, &metas, &ix.data)?;
    }
    // accounts left without lamports disappear; one funded again after being closed lives on
    let mut accounts = BTreeMap::new();
    let mut facts = s.facts;
    for (k, a) in s.over {
        let a = if a.lamports == 0 { Acct::default() } else { a };
        if a.owner == CORE && a.data.len() >= 8 && a.data[..8] == [255; 8] {
            facts.push(Fact::Revived { key: k });
        }
        accounts.insert(k, a);
    }
    Ok(Predicted { accounts, events: s.events, told: s.told, facts, opaque: s.opaque, probes: s.probes })
}

/// accounts a swap or route walks through, in order, as a client derives them; the second part
/// marks the end of each hop
pub fn walk(ledger: &Ledger, env: &Env, ix: &Ix, at_most: usize) -> (Vec<Pubkey>, Vec<usize>) {
    let privs = ix.metas.iter().map(|m| (m.key, (true, true))).collect();
    let mut s = Spec::new(ledger, privs, env);
    s.auto = true;
    s.at_most = at_most;
    let metas: Vec<Meta> = ix.metas.iter().map(|m| Meta { key: m.key, signer: true, writable: true }).collect();
    let _ = s.exec(&ix.program, &metas, &ix.data);
    (s.walk, s.marks)
}

const WRAP: &str = "overflow";

impl<'a> Spec<'a> {
    fn new(base: &'a Ledger, privs: BTreeMap<Pubkey, (bool, bool)>, env: &'a Env) -> Self {
        Spec {
            base,
            over: BTreeMap::new(),
            privs,
            env,
            events: vec![],
            told: vec![],
            facts: vec![],
            opaque: vec![],
            probes: vec![],
            depth: 0,
            swap_budget: 0,
            auto: false,
            at_most: usize::MAX,
            walk: vec![],
            marks: vec![],
        }
    }
    /// next account of the walk
    fn take<'m>(&mut self, rest: &mut &'m [Meta], want: Pubkey, reason: &'static str) -> R<()> {
        if self.auto {
            need(self.walk.len() < self.at_most, "far-enough")?;
            self.walk.push(want);
            return Ok(());
        }
        let m = rest.first().orf("missing-walk-account")?;
        *rest = &rest[1..];
        need(m.key == want, reason)
    }
    fn acct(&self, k: &Pubkey) -> Acct {
        if let Some(a) = self.over.get(k) {
            return a.clone();
        }
        self.base.get(k).map(|a| (**a).clone()).unwrap_or_default()
    }
    fn put(&mut self, k: Pubkey, a: Acct) {
        self.over.insert(k, a);
    }
    fn set_data(&mut self, k: Pubkey, d: Vec<u8>) {
        let mut a = self.acct(&k);
        a.data = d;
        self.over.insert(k, a);
    }
    fn now(&self) -> u32 {
        self.env.unix_time as u32
    }
    fn core_data(&self, k: &Pubkey) -> R<Vec<u8>> {
        let a = self.acct(k);
        need(a.owner == CORE, "not-a-program-account")?;
        Ok(a.data)
    }
    fn pool(&self, k: &Pubkey) -> R<Pool> {
        Pool::parse(&self.core_data(k)?).orf("wrong-account-type")
    }
    fn tick(&self, k: &Pubkey) -> R<Tick> {
        Tick::parse(&self.core_data(k)?).orf("wrong-account-type")
    }
    fn bitmap(&self, k: &Pubkey) -> R<Bitmap> {
        Bitmap::parse(&self.core_data(k)?).orf("wrong-account-type")
    }
    fn obs(&self, k: &Pubkey) -> R<Obs> {
        Obs::parse(&self.core_data(k)?).orf("wrong-account-type")
    }
    fn pos(&self, k: &Pubkey) -> R<Position> {
        Position::parse(&self.core_data(k)?).orf("wrong-account-type")
    }
    fn nft(&self, k: &Pubkey) -> R<NftPos> {
        NftPos::parse(&self.core_data(k)?).orf("wrong-account-type")
    }
    fn factory(&self, k: &Pubkey) -> R<Factory> {
        Factory::parse(&self.core_data(k)?).orf("wrong-account-type")
    }
    fn token(&self, k: &Pubkey) -> R<Tok> {
        let a = self.acct(k);
        need(a.owner == TOKEN, "not-a-token-account")?;
        tok(&a.data).orf("not-a-token-account")
    }
    fn mint_at(&self, k: &Pubkey) -> R<MintAcc> {
        let a = self.acct(k);
        need(a.owner == TOKEN, "not-a-mint")?;
        let m = mint_acc(&a.data).orf("not-a-mint")?;
        need(m.init, "not-a-mint")?;
        Ok(m)
    }

    // ---- other programs ---------------------------------------------------------------------

    fn transfer(&mut self, from: Pubkey, to: Pubkey, auth: Pubkey, signed: bool, amount: u64) -> R<()> {
        let fa = self.acct(&from);
        let ta = self.acct(&to);
        if (amount == 0 || from == to) && (fa.owner != TOKEN || ta.owner != TOKEN) {
            return Err(Stop::Unsure("empty transfer of foreign accounts"));
        }
        need(fa.owner == TOKEN && ta.owner == TOKEN, "not-a-token-account")?;
        let f = tok(&fa.data).orf("not-a-token-account")?;
        let t = tok(&ta.data).orf("not-a-token-account")?;
        need(f.state == 1 && t.state == 1, "frozen")?;
        need(f.amount >= amount, "insufficient-funds")?;
        need(f.mint == t.mint, "token-mint-mismatch")?;
        if f.native || t.native {
            return Err(Stop::Unsure("native token"));
        }
        let selft = from == to;
        let mut fd = fa.data.clone();
        if f.delegate == Some(auth) {
            need(signed, "missing-signature")?;
            need(f.delegated >= amount, "insufficient-funds")?;
            if !selft {
                let left = f.delegated - amount;
                tok_set_delegate(&mut fd, if left == 0 { None } else { f.delegate }, left);
            }
        } else {
            need(f.owner == auth, "not-token-owner")?;
            need(signed, "missing-signature")?;
        }
        if selft {
            return Ok(());
        }
        tok_set_amount(&mut fd, f.amount - amount);
        let mut td = ta.data.clone();
        tok_set_amount(&mut td, t.amount.checked_add(amount).orf(WRAP)?);
        need(self.wr_ok(&from) && self.wr_ok(&to) || amount == 0, "not-writable")?;
        self.set_data(from, fd);
        self.set_data(to, td);
        Ok(())
    }
    fn wr_ok(&self, k: &Pubkey) -> bool {
        if self.auto {
            return true;
        }
        self.privs.get(k).map(|p| p.1).unwrap_or(false)
    }

    fn sys_transfer(&mut self, from: Pubkey, to: Pubkey, lamports: u64) -> R<()> {
        let mut f = self.acct(&from);
        need(self.privs.get(&from).map(|p| p.0).unwrap_or(false), "missing-signature")?;
        need(f.owner == SYSTEM && f.data.is_empty(), "bad-payer")?;
        need(f.lamports >= lamports, "insufficient-lamports")?;
        if from == to {
            return Ok(());
        }
        f.lamports -= lamports;
        self.put(from, f);
        let mut t = self.acct(&to);
        need(!t.executable || lamports == 0, "executable-account")?;
        t.lamports += lamports;
        self.put(to, t);
        Ok(())
    }

    /// create an account at an address of the program's choosing
    fn create(&mut self, key: Pubkey, owner: Pubkey, data: Vec<u8>, payer: Pubkey) -> R<()> {
        let a = self.acct(&key);
        need(a.owner == SYSTEM && a.data.is_empty(), "already-initialized")?;
        if a.lamports > 0 {
            self.probes.push("init-of-prefunded-address");
        }
        need(self.wr_ok(&key), "not-writable")?;
        let want = rent_min(data.len()).max(1);
        let top = want.saturating_sub(a.lamports);
        if top > 0 {
            need(self.wr_ok(&payer), "not-writable")?;
            self.sys_transfer(payer, key, top)?;
        }
        let mut a = self.acct(&key);
        a.owner = owner;
        a.data = data;
        self.put(key, a);
        Ok(())
    }

    fn exec(&mut self, program: &Pubkey, m: &[Meta], data: &[u8]) -> R<()> {
        let x = Cx { m };
        if *program == CORE {
            return self.core(&x, data);
        }
        if *program == TOKEN {
            return self.token_ix(&x, data);
        }
        if *program == SYSTEM {
            let tag = data.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
            if tag == Some(2) && data.len() >= 12 {
                let l = u64::from_le_bytes(data[4..12].try_into().unwrap());
                let f = x.signer(0)?;
                return self.sys_transfer(x.wr(0).map(|_| f)?, x.wr(1)?, l);
            }
            return Err(Stop::Unsure("system instruction"));
        }
        if *program == ATA {
            let payer = x.signer(0)?;
            let (key, owner, mint) = (x.wr(1)?, x.k(2)?, x.k(3)?);
            need(key == ata(&owner, &mint), "wrong-address")?;
            need(self.mint_at(&mint)?.init, "not-a-mint")?;
            return self.create(key, TOKEN, tok_bytes(&mint, &owner, 0), payer);
        }
        Err(Stop::Unsure("foreign program"))
    }

    fn token_ix(&mut self, x: &Cx, data: &[u8]) -> R<()> {
        let amount = || data.get(1..9).map(|b| u64::from_le_bytes(b.try_into().unwrap())).orf("bad-data");
        match data.first() {
            Some(3) => {
                let (f, t, a) = (x.k(0)?, x.k(1)?, x.k(2)?);
                self.transfer(f, t, a, x.m[2].signer, amount()?)
            }
            Some(4) => {
                let (acc, del, own) = (x.k(0)?, x.k(1)?, x.signer(2)?);
                // the token program leaves ownership to the runtime, which only objects to changes
                if self.acct(&acc).owner != TOKEN {
                    return Err(Stop::Unsure("token call on a foreign account"));
                }
                let t = self.token(&acc)?;
                need(t.state == 1, "frozen")?;
                need(t.owner == own, "not-token-owner")?;
                let mut d = self.acct(&acc).data;
                tok_set_delegate(&mut d, Some(del), amount()?);
                need(self.wr_ok(&acc) || d == self.acct(&acc).data, "not-writable")?;
                self.set_data(acc, d);
                Ok(())
            }
            Some(5) => {
                let (acc, own) = (x.k(0)?, x.signer(1)?);
                if self.acct(&acc).owner != TOKEN {
                    return Err(Stop::Unsure("token call on a foreign account"));
                }
                let t = self.token(&acc)?;
                need(t.state == 1, "frozen")?;
                need(t.owner == own, "not-token-owner")?;
                let mut d = self.acct(&acc).data;
                tok_set_delegate(&mut d, None, 0);
                need(self.wr_ok(&acc) || d == self.acct(&acc).data, "not-writable")?;
                self.set_data(acc, d);
                Ok(())
            }
            Some(7) => {
                // mint_to
                let (mint, to, auth) = (x.wr(0)?, x.wr(1)?, x.signer(2)?);
                if self.acct(&mint).owner != TOKEN || self.acct(&to).owner != TOKEN {
                    return Err(Stop::Unsure("token call on a foreign account"));
                }
                let m = self.mint_at(&mint)?;
                need(m.authority == Some(auth), "not-mint-authority")?;
                let t = self.token(&to)?;
                need(t.mint == mint && t.state == 1, "token-mint-mismatch")?;
                let a = amount()?;
                let mut d = self.acct(&to).data;
                tok_set_amount(&mut d, t.amount.checked_add(a).orf(WRAP)?);
                self.set_data(to, d);
                let md = self.acct(&mint).data;
                let mut md2 = md.clone();
                md2[36..44].copy_from_slice(&m.supply.checked_add(a).orf(WRAP)?.to_le_bytes());
                self.set_data(mint, md2);
                Ok(())
            }
            Some(6) if matches!(data.get(1), Some(2 | 3)) => {
                let (acc, own) = (x.k(0)?, x.signer(1)?);
                if self.acct(&acc).owner != TOKEN || self.acct(&acc).data.len() != TOK_LEN {
                    return Err(Stop::Unsure("token call on a foreign account"));
                }
                let new = match data.get(2) {
                    Some(0) => None,
                    Some(1) if data.len() >= 35 => Some(Pubkey::new(&data[3..35])),
                    _ => return Err(Stop::Fail("bad-data")),
                };
                let t = self.token(&acc)?;
                need(t.state == 1, "frozen")?;
                let mut d = self.acct(&acc).data;
                if data[1] == 2 {
                    need(t.owner == own, "not-token-owner")?;
                    d[32..64].copy_from_slice(new.orf("bad-data")?.as_ref());
                    tok_set_delegate(&mut d, None, 0);
                } else {
                    let closer = if d[129] == 1 { Pubkey::new(&d[133..165]) } else { t.owner };
                    need(closer == own, "not-token-owner")?;
                    d[129..133].copy_from_slice(&(new.is_some() as u32).to_le_bytes());
                    d[133..165].copy_from_slice(new.unwrap_or_default().as_ref());
                }
                need(self.wr_ok(&acc) || d == self.acct(&acc).data, "not-writable")?;
                self.set_data(acc, d);
                Ok(())
            }
            Some(8) => {
                let (acc, mint, own) = (x.wr(0)?, x.wr(1)?, x.signer(2)?);
                if self.acct(&acc).owner != TOKEN || self.acct(&mint).owner != TOKEN {
                    return Err(Stop::Unsure("token call on a foreign account"));
                }
                let t = self.token(&acc)?;
                need(t.state == 1, "frozen")?;
                let m = self.mint_at(&mint)?;
                need(t.mint == mint, "token-mint-mismatch")?;
                let a = amount()?;
                need(t.amount >= a, "insufficient-funds")?;
                let mut d = self.acct(&acc).data;
                if t.delegate == Some(own) {
                    need(t.delegated >= a, "insufficient-funds")?;
                    let left = t.delegated - a;
                    tok_set_delegate(&mut d, t.delegate.filter(|_| left > 0), left);
                } else {
                    need(t.owner == own, "not-token-owner")?;
                }
                tok_set_amount(&mut d, t.amount - a);
                self.set_data(acc, d);
                let mut md = self.acct(&mint).data;
                md[36..44].copy_from_slice(&m.supply.checked_sub(a).orf(WRAP)?.to_le_bytes());
                self.set_data(mint, md);
                Ok(())
            }
            _ => Err(Stop::Unsure("token instruction")),
        }
    }

    // ---- the protocol -----------------------------------------------------------------------

    fn core(&mut self, x: &Cx, data: &[u8]) -> R<()> {
        need(data.len() >= 8, "bad-data")?;
        let mut d = Dec(&data[8..]);
        let h = &data[..8];
        macro_rules! arg {
            ($t:ty) => {
                d.f::<$t>().orf("bad-data")?
            };
        }
        let is = |n: &'static str| h == disc("global", n);
        if is("swap") {
            let (a, l) = (arg!(i64), arg!(u64));
            return self.swap(x, a, l);
        }
        if is("mint") {
            let l = arg!(u64);
            return self.mint(x, l).map(|_| ());
        }
        if is("burn") {
            let l = arg!(u64);
            let owner = x.signer(0)?;
            return self.burn(x, owner, 0, l).map(|_| ());
        }
        if is("collect") {
            let (a, b) = (arg!(u64), arg!(u64));
            let owner = x.signer(0)?;
            return self.collect(x, owner, a, b);
        }
        if is("exact_input_single") {
            let (dl, a, m, l) = (arg!(i64), arg!(u64), arg!(u64), arg!(u64));
            return self.exact_single(x, dl, a, m, l);
        }
        if is("exact_input") {
            let (dl, a, m) = (arg!(i64), arg!(u64), arg!(u64));
            let extra = d.bytes().orf("bad-data")?;
            return self.exact_multi(x, dl, a, m, &extra);
        }
        if is("mint_tokenized_position") {
            let v = (arg!(u64), arg!(u64), arg!(u64), arg!(u64), arg!(i64));
            return self.mint_nft(x, v.0, v.1, v.2, v.3, v.4);
        }
        if is("increase_liquidity") {
            let v = (arg!(u64), arg!(u64), arg!(u64), arg!(u64), arg!(i64));
            return self.increase(x, v.0, v.1, v.2, v.3, v.4);
        }
        if is("decrease_liquidity") {
            let v = (arg!(u64), arg!(u64), arg!(u64), arg!(i64));
            return self.decrease(x, v.0, v.1, v.2, v.3);
        }
        if is("collect_from_tokenized") {
            let v = (arg!(u64), arg!(u64));
            return self.collect_nft(x, v.0, v.1);
        }
        if is("add_metaplex_metadata") {
            return self.metadata(x);
        }
        if is("init_tick_account") {
            let t = arg!(i32);
            return self.init_tick(x, t);
        }
        if is("close_tick_account") {
            return self.close_tick(x);
        }
        if is("init_bitmap_account") {
            let w = arg!(i16);
            return self.init_bitmap(x, w);
        }
        if is("init_position_account") {
            return self.init_position(x);
        }
        if is("create_and_init_pool") {
            let p = arg!(u64);
            return self.create_pool(x, p);
        }
        if is("increase_observation_cardinality_next") {
            let v = d.bytes().orf("bad-data")?;
            return self.grow(x, &v);
        }
        if is("init_factory") {
            let owner = x.signer(0)?;
            let k = x.wr(1)?;
            need(k == factory(), "wrong-address")?;
            let f = Factory { bump: pda(&[]).1, owner, fee_protocol: 3 };
            self.create(k, CORE, f.bytes(), owner)?;
            self.events.push(Enc::ev("OwnerChanged").f(Pubkey::default()).f(owner).0);
            return Ok(());
        }
        if is("set_owner") {
            let owner = x.signer(0)?;
            let (n, k) = (x.k(1)?, x.wr(2)?);
            let mut f = self.factory(&k)?;
            need(f.owner == owner, "not-protocol-owner")?;
            f.owner = n;
            self.set_data(k, f.bytes());
            self.events.push(Enc::ev("OwnerChanged").f(owner).f(n).0);
            return Ok(());
        }
        if is("enable_fee_amount") {
            let (fee, ts) = (arg!(u32), arg!(u16));
            let owner = x.signer(0)?;
            let f = self.factory(&x.wr(1)?)?;
            need(f.owner == owner, "not-protocol-owner")?;
            need(fee < 1_000_000, "bad-fee")?;
            need(ts > 0 && ts < 16384, "bad-spacing")?;
            let (k, bump) = fee_key(fee);
            need(x.wr(2)? == k, "wrong-address")?;
            self.create(k, CORE, Fee { bump, fee, tick_spacing: ts }.bytes(), owner)?;
            self.events.push(Enc::ev("FeeAmountEnabled").f(fee).f(ts).0);
            return Ok(());
        }
        if is("set_fee_protocol") {
            let n = arg!(u8);
            let owner = x.signer(0)?;
            let k = x.wr(1)?;
            let mut f = self.factory(&k)?;
            need(f.owner == owner, "not-protocol-owner")?;
            need((2..=10).contains(&n), "bad-protocol-fee")?;
            let old = f.fee_protocol;
            f.fee_protocol = n;
            self.set_data(k, f.bytes());
            self.events.push(Enc::ev("SetFeeProtocolEvent").f(old).f(n).0);
            return Ok(());
        }
        if is("collect_protocol") {
            let (a, b) = (arg!(u64), arg!(u64));
            return self.collect_protocol(x, a, b);
        }
        if is("mint_callback") {
            let (a, b) = (arg!(u64), arg!(u64));
            let who = x.signer(0)?;
            if a > 0 {
                self.transfer(x.k(1)?, x.k(3)?, who, true, a)?;
            }
            if b > 0 {
                self.transfer(x.k(2)?, x.k(4)?, who, true, b)?;
            }
            return Ok(());
        }
        if is("swap_callback") {
            let (a, b) = (arg!(i64), arg!(i64));
            return self.core_swap_callback(x, a, b);
        }
        fail("unknown-instruction")
    }

    fn create_pool(&mut self, x: &Cx, price: u64) -> R<()> {
        let creator = x.signer(0)?;
        let (t0, t1) = (x.k(1)?, x.k(2)?);
        need(t0 < t1, "token-order")?;
        self.mint_at(&t0)?;
        self.mint_at(&t1)?;
        let fee = Fee::parse(&self.core_data(&x.k(3)?)?).orf("wrong-account-type")?;
        let id = PoolId { t0, t1, fee: fee.fee };
        need(x.wr(4)? == id.key(), "wrong-address")?;
        let (ok, obump) = id.obs(0);
        need(x.wr(5)? == ok, "wrong-address")?;
        let tick = math::tick_at(price).orf("bad-price")?;
        let pool = Pool {
            bump: id.bump(),
            token_0: t0,
            token_1: t1,
            fee: fee.fee,
            tick_spacing: fee.tick_spacing,
            sqrt_price: price,
            tick,
            obs_card: 1,
            obs_next: 1,
            unlocked: true,
            ..Default::default()
        };
        self.create(id.key(), CORE, pool.bytes(), creator)?;
        let o = Obs { bump: obump, ts: self.now(), initialized: true, ..Default::default() };
        self.create(ok, CORE, o.bytes(), creator)?;
        self.events.push(
            Enc::ev("PoolCreatedAndInitialized").f(t0).f(t1).f(fee.fee).f(fee.tick_spacing).f(id.key()).f(price).f(tick).0,
        );
        self.facts.push(Fact::PoolCreated { pool: id });
        Ok(())
    }

    fn grow(&mut self, x: &Cx, bumps: &[u8]) -> R<()> {
        let payer = x.signer(0)?;
        let pk = x.wr(1)?;
        let mut pool = self.pool(&pk)?;
        need(pool.unlocked, "locked")?;
        let rest = x.rest(3);
        need(rest.len() >= bumps.len(), "missing-account")?;
        for (i, b) in bumps.iter().enumerate() {
            let index = pool.obs_next.wrapping_add(i as u16);
            let (key, canonical) = pool.id().obs(index);
            need(rest[i].key == key && *b == canonical, "wrong-new-observation")?;
            let o = Obs { bump: *b, index, ts: 1, ..Default::default() };
            self.create(key, CORE, o.bytes(), payer)?;
        }
        let old = pool.obs_next;
        pool.obs_next = old.checked_add(bumps.len() as u16).orf(WRAP)?;
        self.set_data(pk, pool.bytes());
        self.events.push(Enc::ev("IncreaseObservationCardinalityNext").f(old).f(pool.obs_next).0);
        Ok(())
    }

    fn collect_protocol(&mut self, x: &Cx, r0: u64, r1: u64) -> R<()> {
        let owner = x.signer(0)?;
        let f = self.factory(&x.wr(1)?)?;
        need(f.owner == owner, "not-protocol-owner")?;
        let pk = x.wr(2)?;
        let mut pool = self.pool(&pk)?;
        let id = pool.id();
        need(x.k(3)? == ata(&pk, &id.t0) && x.k(4)? == ata(&pk, &id.t1), "wrong-vault")?;
        self.token(&x.k(5)?)?;
        self.token(&x.k(6)?)?;
        need(pool.unlocked, "locked")?;
        let (a, b) = (r0.min(pool.proto_0), r1.min(pool.proto_1));
        pool.proto_0 -= a;
        pool.proto_1 -= b;
        self.set_data(pk, pool.bytes());
        if a > 0 {
            self.transfer(x.k(3)?, x.k(5)?, pk, true, a)?;
        }
        if b > 0 {
            self.transfer(x.k(4)?, x.k(6)?, pk, true, b)?;
        }
        self.events.push(Enc::ev("CollectProtocolEvent").f(pk).f(owner).f(x.k(5)?).f(x.k(6)?).f(a).f(b).0);
        self.facts.push(Fact::CollectProtocol { pool: id, amount_0: a, amount_1: b });
        Ok(())
    }

    fn init_tick(&mut self, x: &Cx, t: i32) -> R<()> {
        let payer = x.signer(0)?;
        let pool = self.pool(&x.k(1)?)?;
        need((MIN_TICK..=MAX_TICK).contains(&t), "bad-tick")?;
        need(t % pool.tick_spacing as i32 == 0, "bad-tick")?;
        let (k, bump) = pool.id().tick(t);
        need(x.wr(2)? == k, "wrong-address")?;
        self.create(k, CORE, Tick { bump, tick: t, ..Default::default() }.bytes(), payer)
    }

    fn close_tick(&mut self, x: &Cx) -> R<()> {
        let k = x.wr(0)?;
        let to = x.wr(1)?;
        let t = self.tick(&k)?;
        need(t.clear(), "tick-in-use")?;
        need(k != to, "bad-recipient")?;
        let mut a = self.acct(&k);
        let mut r = self.acct(&to);
        need(!r.executable, "executable-account")?;
        r.lamports += a.lamports;
        a.lamports = 0;
        a.data[..8].copy_from_slice(&[255; 8]);
        self.put(k, a);
        self.put(to, r);
        if let Some(id) = ident_pool(&k) {
            self.facts.push(Fact::TickClosed { pool: id, tick: t.tick });
        }
        Ok(())
    }

    fn init_bitmap(&mut self, x: &Cx, w: i16) -> R<()> {
        let payer = x.signer(0)?;
        let pool = self.pool(&x.k(1)?)?;
        let s = pool.tick_spacing as i32;
        // the words that can contain a usable tick
        let (lo, hi) = (slot_of(MIN_TICK / s).0, slot_of(MAX_TICK / s).0);
        need(w >= lo && w <= hi, "bad-word")?;
        let (k, bump) = pool.id().bitmap(w);
        need(x.wr(2)? == k, "wrong-address")?;
        self.create(k, CORE, Bitmap { bump, word_pos: w, word: [0; 4] }.bytes(), payer)
    }

    fn init_position(&mut self, x: &Cx) -> R<()> {
        let payer = x.signer(0)?;
        let owner = x.k(1)?;
        let pool = self.pool(&x.k(2)?)?;
        let lo = self.tick(&x.k(3)?)?.tick;
        let hi = self.tick(&x.k(4)?)?.tick;
        need(lo < hi, "tick-order")?;
        let (k, bump) = pool.id().position(&owner, lo, hi);
        need(x.wr(5)? == k, "wrong-address")?;
        self.create(k, CORE, Position { bump, ..Default::default() }.bytes(), payer)?;
        self.facts.push(Fact::PosInit { key: k, pool: pool.id(), owner, lo, hi });
        Ok(())
    }

    fn obs_at(&self, pool: &Pool, key: &Pubkey, index: u16) -> R<Obs> {
        let o = self.obs(key)?;
        let want = Pubkey::create_program_address(
            &[b"o", pool.token_0.as_ref(), pool.token_1.as_ref(), &pool.fee.to_be_bytes(), &index.to_be_bytes(), &[o.bump]],
            &CORE,
        );
        need(want == Ok(*key), "wrong-observation")?;
        Ok(o)
    }

    /// observation as of now, given the tick and liquidity in force since the last one
    fn transformed(o: &Obs, now: u32, tick: i32, liq: u64) -> (i64, u64) {
        if o.ts == now {
            return (o.tick_cum, o.spl_cum);
        }
        let dt = now.wrapping_sub(o.ts);
        (
            o.tick_cum.wrapping_add((tick as i64).wrapping_mul(dt as i64)),
            o.spl_cum.wrapping_add(((dt as u64) << 32) / liq.max(1)),
        )
    }

    /// record the tick and liquidity in force until now
    fn observe(&mut self, pool: &mut Pool, last_key: Pubkey, rest: &[Meta], tick: i32, liq: u64) -> R<()> {
        let now = self.now();
        let last = self.obs_at(pool, &last_key, pool.obs_index)?;
        let (key, mut slot) = if now / PARTITION > last.ts / PARTITION {
            let ring;
            let m = if self.auto {
                let k = crate::ops::obs_key(self.base, &pool.id(), pool.next_obs());
                self.walk.push(k);
                ring = crate::bank::rw(k);
                &ring
            } else {
                rest.first().orf("missing-walk-account")?
            };
            let o = self.obs_at(pool, &m.key, pool.next_obs())?;
            if pool.next_obs() != pool.obs_index {
                self.probes.push("oracle-advance");
                if pool.next_obs() > 255 {
                    self.probes.push("oracle-index-beyond-a-byte");
                }
                if o.initialized {
                    self.probes.push("oracle-wrap");
                }
            }
            (m.key, o)
        } else {
            self.probes.push("oracle-overwrite");
            (last_key, last)
        };
        let advanced = key != last_key;
        if last.ts != now {
            let (tc, sc) = Self::transformed(&last, now, tick, liq);
            slot.ts = now;
            slot.tick_cum = tc;
            slot.spl_cum = sc;
            slot.initialized = true;
            need(self.wr_ok(&key), "not-writable")?;
            self.set_data(key, slot.bytes());
            if advanced && pool.obs_next > pool.obs_card && pool.obs_index == pool.obs_card - 1 {
                pool.obs_card = pool.obs_next;
                self.probes.push("oracle-grown");
            }
            pool.obs_index = slot.index;
        }
        Ok(())
    }

    /// (token0, token1) owed to the pool (mint, rounded up) or to the position (burn, rounded down)
    #[allow(clippy::too_many_arguments)]
    fn modify(
        &mut self,
        pool: &mut Pool,
        tl: Pubkey,
        tu: Pubkey,
        bl: Pubkey,
        bu: Pubkey,
        pk: Pubkey,
        lo_key: Pubkey,
        rest: &[Meta],
        delta: i64,
    ) -> R<(u64, u64)> {
        let mut lo = self.tick(&tl)?;
        let mut hi = self.tick(&tu)?;
        need(lo.tick < hi.tick, "tick-order")?;
        let last = self.obs_at(pool, &lo_key, pool.obs_index)?;
        let now = self.now();
        let mut flips = (false, false);
        if delta != 0 {
            let (tc, sc) = Self::transformed(&last, now, pool.tick, pool.liquidity);
            for (t, upper) in [(&mut lo, false), (&mut hi, true)] {
                let before = t.gross;
                let after = add_delta(before, delta)?;
                if before == 0 && t.tick <= pool.tick {
                    t.fee_out_0 = pool.growth_0;
                    t.fee_out_1 = pool.growth_1;
                    t.spl_out = sc;
                    t.tick_cum_out = tc;
                    t.secs_out = now;
                }
                t.gross = after;
                t.net = if upper { t.net.checked_sub(delta) } else { t.net.checked_add(delta) }.orf(WRAP)?;
                let flip = (before == 0) != (after == 0);
                if upper {
                    flips.1 = flip
                } else {
                    flips.0 = flip
                }
            }
            for (flip, t, bk) in [(flips.0, &lo, bl), (flips.1, &hi, bu)] {
                if flip {
                    let mut b = self.bitmap(&bk)?;
                    b.flip(slot_of(t.tick / pool.tick_spacing as i32).1);
                    need(self.wr_ok(&bk), "not-writable")?;
                    self.set_data(bk, b.bytes());
                }
            }
        }
        let (in0, in1) = growth_inside(pool, &lo, &hi);
        let mut p = self.pos(&pk)?;
        if delta == 0 {
            need(p.liquidity > 0, "poke-of-empty-position")?;
        }
        let f0 = fee_share(in0.wrapping_sub(p.growth_0), p.liquidity)?;
        let f1 = fee_share(in1.wrapping_sub(p.growth_1), p.liquidity)?;
        if delta != 0 {
            p.liquidity = add_delta(p.liquidity, delta)?;
        }
        p.growth_0 = in0;
        p.growth_1 = in1;
        p.owed_0 = p.owed_0.wrapping_add(f0);
        p.owed_1 = p.owed_1.wrapping_add(f1);
        need(self.wr_ok(&pk), "not-writable")?;
        self.set_data(pk, p.bytes());
        if delta < 0 {
            if flips.0 {
                lo = Tick { bump: lo.bump, tick: lo.tick, ..Default::default() };
            }
            if flips.1 {
                hi = Tick { bump: hi.bump, tick: hi.tick, ..Default::default() };
            }
            if flips.0 || flips.1 {
                self.probes.push("tick-cleared");
            }
        }
        if delta != 0 {
            need(self.wr_ok(&tl) && self.wr_ok(&tu), "not-writable")?;
            self.set_data(tl, lo.bytes());
            self.set_data(tu, hi.bytes());
        }
        if delta == 0 {
            return Ok((0, 0));
        }
        let inside = pool.tick >= lo.tick && pool.tick < hi.tick;
        if inside {
            let (t, l) = (pool.tick, pool.liquidity);
            self.observe(pool, lo_key, rest, t, l)?;
            pool.liquidity = add_delta(pool.liquidity, delta)?;
        }
        math::position_amounts(pool.tick, pool.sqrt_price, lo.tick, hi.tick, delta.unsigned_abs(), delta > 0).orf(WRAP)
    }

    fn check_ticks(&self, pool: &Pool, tl: &Pubkey, tu: &Pubkey) -> R<(i32, i32)> {
        let id = pool.id();
        let (lo, hi) = (self.tick(tl)?, self.tick(tu)?);
        need(id.tick(lo.tick).0 == *tl && id.tick(hi.tick).0 == *tu, "wrong-tick-account")?;
        Ok((lo.tick, hi.tick))
    }
    fn check_bitmaps(&self, pool: &Pool, lo: i32, hi: i32, bl: &Pubkey, bu: &Pubkey) -> R<()> {
        let id = pool.id();
        let s = pool.tick_spacing as i32;
        self.bitmap(bl)?;
        self.bitmap(bu)?;
        need(id.bitmap(slot_of(lo / s).0).0 == *bl && id.bitmap(slot_of(hi / s).0).0 == *bu, "wrong-bitmap-account")
    }

    fn mint(&mut self, x: &Cx, amount: u64) -> R<(u64, u64)> {
        let minter = x.signer(0)?;
        let recipient = x.k(5)?;
        self.mint_inner(x, minter, recipient, amount, x.k(14)?, x.rest(15))
    }

    fn mint_inner(&mut self, x: &Cx, minter: Pubkey, recipient: Pubkey, amount: u64, handler: Pubkey, rest: &[Meta]) -> R<(u64, u64)> {
        let (v0, v1, pk) = (x.k(3)?, x.k(4)?, x.wr(6)?);
        self.token(&v0)?;
        self.token(&v1)?;
        let mut pool = self.pool(&pk)?;
        let id = pool.id();
        need(v0 == ata(&pk, &id.t0) && v1 == ata(&pk, &id.t1), "wrong-vault")?;
        let (tl, tu, bl, bu, posk, ok) = (x.k(7)?, x.k(8)?, x.k(9)?, x.k(10)?, x.k(11)?, x.k(12)?);
        let (lo, hi) = self.check_ticks(&pool, &tl, &tu)?;
        self.check_bitmaps(&pool, lo, hi, &bl, &bu)?;
        self.pos(&posk)?;
        need(id.position(&recipient, lo, hi).0 == posk, "wrong-position-account")?;
        self.obs_at(&pool, &ok, pool.obs_index)?;
        need(x.k(13)? == TOKEN, "wrong-token-program")?;
        need(pool.unlocked, "locked")?;
        need(amount > 0 && amount <= i64::MAX as u64, "bad-liquidity")?;
        let (a0, a1) = self.modify(&mut pool, tl, tu, bl, bu, posk, ok, rest, amount as i64)?;
        let (b0, b1) = (self.token(&v0)?.amount, self.token(&v1)?.amount);
        pool.unlocked = false;
        self.set_data(pk, pool.bytes());
        // the party named to pay may be any program
        if handler == CORE {
            if a0 > 0 {
                self.transfer(x.k(1)?, v0, minter, true, a0)?;
            }
            if a1 > 0 {
                self.transfer(x.k(2)?, v1, minter, true, a1)?;
            }
        } else {
            let accs = [minter, x.k(1)?, x.k(2)?, v0, v1];
            self.told.push(Enc::default().f(a0).f(a1).0);
            self.byzantine(handler, &accs, &[(1, 3, 4, a0), (2, 4, 3, a1)])?;
        }
        let got0 = self.token(&v0)?.amount;
        let got1 = self.token(&v1)?.amount;
        if a0 > 0 {
            need(b0 as u128 + a0 as u128 <= got0 as u128, "underpaid")?;
        }
        if a1 > 0 {
            need(b1 as u128 + a1 as u128 <= got1 as u128, "underpaid")?;
        }
        let mut pool = self.pool(&pk)?;
        pool.unlocked = true;
        self.set_data(pk, pool.bytes());
        self.events.push(Enc::ev("MintEvent").f(pk).f(minter).f(recipient).f(lo).f(hi).f(amount).f(a0).f(a1).0);
        self.facts.push(Fact::Liquidity { pool: id, owner: recipient, lo, hi, delta: amount as i64, amount_0: a0, amount_1: a1 });
        Ok((a0, a1))
    }

    fn byzantine(&mut self, handler: Pubkey, accs: &[Pubkey], dues: &[(usize, usize, usize, u64)]) -> R<()> {
        if handler != HANDLER {
            return Err(Stop::Unsure("foreign callback"));
        }
        let s = self.env.script.clone();
        if let Some(ix) = &s.reenter {
            if !self.env.allow_reentry {
                return fail("reentrancy");
            }
            if self.depth >= 1 {
                return Err(Stop::Unsure("nested re-entry"));
            }
            self.depth += 1;
            let privs = self.privs.clone();
            let metas: Vec<Meta> = ix
                .metas
                .iter()
                .map(|m| {
                    let p = privs.get(&m.key).copied().unwrap_or((false, false));
                    Meta { key: m.key, signer: p.0 && m.signer, writable: p.1 && m.writable }
                })
                .collect();
            self.reentrant(ix, &metas)?;
            self.depth -= 1;
            self.probes.push("reentry-allowed");
        }
        need(!s.fail, "callback-failed")?;
        for (no, (from, vault, other, owed)) in dues.iter().enumerate() {
            for p in s.pays.iter().filter(|p| p.only == 0 || p.only as usize == no + 1) {
                let mut amt = ((*owed as u128 * p.num as u128) / p.den.max(1) as u128) as i128 + p.plus as i128;
                if amt < 0 {
                    amt = 0;
                }
                let amt = amt.min(u64::MAX as i128) as u64;
                if amt == 0 {
                    continue;
                }
                let to = match p.dest {
                    0 => *vault,
                    1 => *other,
                    _ => *from,
                };
                self.transfer(accs[*from], accs[to], accs[0], true, amt)?;
            }
        }
        Ok(())
    }
    fn reentrant(&mut self, ix: &Ix, metas: &[Meta]) -> R<()> {
        self.exec(&ix.program, metas, &ix.data)
    }

    fn burn(&mut self, x: &Cx, owner: Pubkey, at: usize, amount: u64) -> R<(u64, u64)> {
        // account layout of a plain burn, optionally shifted inside a wrapper's list
        let k = |i: usize| x.k(at + i);
        let keys = [owner, k(1)?, k(2)?, k(3)?, k(4)?, k(5)?, k(6)?, k(7)?];
        self.burn_keys(&keys, x.rest(at + 8), amount)
    }

    fn burn_keys(&mut self, k: &[Pubkey; 8], rest: &[Meta], amount: u64) -> R<(u64, u64)> {
        let [owner, pk, tl, tu, bl, bu, posk, ok] = *k;
        need(self.wr_ok(&pk) && self.wr_ok(&posk), "not-writable")?;
        let mut pool = self.pool(&pk)?;
        let id = pool.id();
        let (lo, hi) = self.check_ticks(&pool, &tl, &tu)?;
        self.check_bitmaps(&pool, lo, hi, &bl, &bu)?;
        self.pos(&posk)?;
        need(id.position(&owner, lo, hi).0 == posk, "wrong-position-account")?;
        self.obs_at(&pool, &ok, pool.obs_index)?;
        need(pool.unlocked, "locked")?;
        need(amount <= i64::MAX as u64, "bad-liquidity")?;
        let (a0, a1) = self.modify(&mut pool, tl, tu, bl, bu, posk, ok, rest, -(amount as i64))?;
        if a0 > 0 || a1 > 0 {
            let mut p = self.pos(&posk)?;
            p.owed_0 = p.owed_0.wrapping_add(a0);
            p.owed_1 = p.owed_1.wrapping_add(a1);
            self.set_data(posk, p.bytes());
        }
        self.set_data(pk, pool.bytes());
        self.events.push(Enc::ev("BurnEvent").f(pk).f(owner).f(lo).f(hi).f(amount).f(a0).f(a1).0);
        self.facts.push(Fact::Liquidity { pool: id, owner, lo, hi, delta: -(amount as i64), amount_0: a0, amount_1: a1 });
        Ok((a0, a1))
    }

    fn collect(&mut self, x: &Cx, owner: Pubkey, r0: u64, r1: u64) -> R<()> {
        let k = [owner, x.k(1)?, x.k(2)?, x.k(3)?, x.k(4)?, x.k(5)?, x.k(6)?, x.k(7)?, x.k(8)?];
        need(x.k(9)? == TOKEN, "wrong-token-program")?;
        self.collect_keys(&k, r0, r1)
    }

    fn collect_keys(&mut self, k: &[Pubkey; 9], r0: u64, r1: u64) -> R<()> {
        let [owner, pk, tl, tu, posk, v0, v1, w0, w1] = *k;
        need(self.wr_ok(&pk) && self.wr_ok(&posk), "not-writable")?;
        let pool = self.pool(&pk)?;
        let id = pool.id();
        let (lo, hi) = self.check_ticks(&pool, &tl, &tu)?;
        let mut p = self.pos(&posk)?;
        need(id.position(&owner, lo, hi).0 == posk, "wrong-position-account")?;
        self.token(&v0)?;
        self.token(&v1)?;
        need(v0 == ata(&pk, &id.t0) && v1 == ata(&pk, &id.t1), "wrong-vault")?;
        need(pool.unlocked, "locked")?;
        let (a, b) = (r0.min(p.owed_0), r1.min(p.owed_1));
        p.owed_0 -= a;
        p.owed_1 -= b;
        self.set_data(posk, p.bytes());
        if a > 0 {
            self.transfer(v0, w0, pk, true, a)?;
        }
        if b > 0 {
            self.transfer(v1, w1, pk, true, b)?;
        }
        self.events.push(Enc::ev("CollectEvent").f(pk).f(owner).f(lo).f(hi).f(a).f(b).0);
        self.facts.push(Fact::Collect { pool: id, owner, lo, hi, amount_0: a, amount_1: b, to_0: w0, to_1: w1 });
        Ok(())
    }

    fn core_swap_callback(&mut self, x: &Cx, a: i64, b: i64) -> R<()> {
        let who = x.signer(0)?;
        let (inp, vin, vout) = (x.k(1)?, x.k(3)?, x.k(4)?);
        let (mi, mo) = (self.token(&vin)?.mint, self.token(&vout)?.mint);
        let (pays, amt) = if a > 0 { (mi < mo, a as u64) } else { (mo < mi, b as u64) };
        if pays {
            self.transfer(inp, vin, who, true, amt)?;
        }
        Ok(())
    }

    fn swap(&mut self, x: &Cx, amount: i64, limit: u64) -> R<()> {
        let k = [x.signer(0)?, x.k(1)?, x.k(2)?, x.wr(3)?, x.wr(4)?, x.k(6)?, x.k(7)?, x.k(8)?];
        need(x.k(5)? == TOKEN, "wrong-token-program")?;
        self.swap_keys(&k, x.k(9)?, x.rest(10), amount, limit).map(|_| ())
    }

    fn swap_keys(&mut self, k: &[Pubkey; 8], handler: Pubkey, rest: &[Meta], amount: i64, limit: u64) -> R<SwapFact> {
        let [signer, in_acc, out_acc, vin, vout, fk, pk, ok] = *k;
        need(amount != 0, "zero-amount")?;
        let fp = self.factory(&fk)?.fee_protocol;
        need(self.wr_ok(&pk), "not-writable")?;
        let mut pool = self.pool(&pk)?;
        let id = pool.id();
        self.token(&in_acc)?;
        self.token(&out_acc)?;
        let zfo = self.token(&vin)?.mint == id.t0;
        self.token(&vout)?;
        let (v0, v1) = if zfo { (vin, vout) } else { (vout, vin) };
        need(v0 == ata(&pk, &id.t0) && v1 == ata(&pk, &id.t1), "wrong-vault")?;
        let last = self.obs_at(&pool, &ok, pool.obs_index)?;
        need(pool.unlocked, "locked")?;
        need(
            if zfo {
                limit < pool.sqrt_price && limit > MIN_SQRT_RATIO
            } else {
                limit > pool.sqrt_price && limit < MAX_SQRT_RATIO
            },
            "bad-price-limit",
        )?;
        let now = self.now();
        let (tc, sc) = Self::transformed(&last, now, pool.tick, pool.liquidity);
        let exact_in = amount > 0;
        let mut rem = amount;
        let mut calc: i64 = 0;
        let mut price = pool.sqrt_price;
        let mut tick = pool.tick;
        let mut liq = pool.liquidity;
        let mut growth = if zfo { pool.growth_0 } else { pool.growth_1 };
        let mut proto: u64 = 0;
        let mut segs = vec![];
        let mut rest = rest;
        let mut word: Option<(i16, Bitmap)> = None;
        let s = pool.tick_spacing as i32;
        let (mut words, mut uninit) = (0, 0);
        let mut huge = false;
        let mut new_ticks: Vec<(Pubkey, Tick)> = vec![];
        while rem != 0 && price != limit {
            self.swap_budget += 1;
            if self.swap_budget > 3000 {
                return Err(Stop::Unsure("very long walk"));
            }
            let seg_tick = tick;
            let c = tick.div_euclid(s) + if zfo { 0 } else { 1 };
            let (wpos, bit) = slot_of(c);
            if word.map(|w| w.0) != Some(wpos) {
                let bk = id.bitmap(wpos).0;
                self.take(&mut rest, bk, "wrong-bitmap-account")?;
                words += 1;
                let a = self.acct(&bk);
                word = if a.owner == CORE {
                    Some((wpos, Bitmap::parse(&a.data).orf("wrong-account-type")?))
                } else {
                    uninit += 1;
                    None
                };
            }
            let found: Option<u8> = word.and_then(|w| {
                if zfo {
                    (0..=bit).rev().find(|b| w.1.get(*b))
                } else {
                    (bit..=255).find(|b| w.1.get(*b))
                }
            });
            let edge = if zfo { 0 } else { 255 };
            let next_tick = ((wpos as i32 * 256 + found.unwrap_or(edge) as i32) * s).clamp(MIN_TICK, MAX_TICK);
            let next_price = math::sqrt_at(next_tick);
            let target = if zfo { next_price.max(limit) } else { next_price.min(limit) };
            let st = math::swap_step(price, target, liq, rem, pool.fee).orf(WRAP)?;
            huge |= st.huge_target;
            let start_price = price;
            price = st.next;
            let total_in = st.amount_in.checked_add(st.fee).filter(|v| *v <= i64::MAX as u64).orf(WRAP)? as i64;
            let out = i64::try_from(st.amount_out).map_err(|_| Stop::Fail(WRAP))?;
            if exact_in {
                rem -= total_in;
                calc = calc.checked_sub(out).orf(WRAP)?;
            } else {
                rem += out;
                calc = calc.checked_add(total_in).orf(WRAP)?;
            }
            let cut = if fp > 0 { st.fee / fp as u64 } else { 0 };
            let lp_fee = st.fee - cut;
            proto = proto.wrapping_add(cut);
            if liq > 0 {
                let g = (math::u(lp_fee) << 32) / math::u(liq);
                if g > math::u(u64::MAX) {
                    return Err(Stop::Unsure("fee growth beyond 64 bits in one segment"));
                }
                growth = growth.wrapping_add(g.as_u64());
            }
            let mut crossed = None;
            let seg_liq = liq;
            if price == next_price {
                if found.is_some() {
                    let tk = id.tick(next_tick).0;
                    self.take(&mut rest, tk, "wrong-tick-account")?;
                    let mut t = match new_ticks.iter().find(|n| n.0 == tk) {
                        Some(n) => n.1,
                        None => self.tick(&tk)?,
                    };
                    let (g0, g1) = if zfo { (growth, pool.growth_1) } else { (pool.growth_0, growth) };
                    t.fee_out_0 = g0.wrapping_sub(t.fee_out_0);
                    t.fee_out_1 = g1.wrapping_sub(t.fee_out_1);
                    t.spl_out = sc.wrapping_sub(t.spl_out);
                    t.tick_cum_out = tc.wrapping_sub(t.tick_cum_out);
                    t.secs_out = now.wrapping_sub(t.secs_out);
                    need(self.wr_ok(&tk), "not-writable")?;
                    let net = if zfo { t.net.wrapping_neg() } else { t.net };
                    liq = add_delta(liq, net)?;
                    new_ticks.push((tk, t));
                    crossed = Some(next_tick);
                }
                tick = if zfo { next_tick - 1 } else { next_tick };
            } else if price != start_price {
                tick = math::tick_at(price).orf("price-out-of-range")?;
            }
            segs.push(Seg {
                tick: seg_tick,
                liq: seg_liq,
                lp_fee: if seg_liq > 0 { lp_fee } else { 0 },
                proto: cut,
                amount_in: st.amount_in,
                amount_out: st.amount_out,
                crossed,
                end_price: price,
            });
        }
        for (k, t) in new_ticks {
            self.set_data(k, t.bytes());
        }
        let (start_price, start_tick) = (pool.sqrt_price, pool.tick);
        if tick != pool.tick {
            let (t, l) = (pool.tick, pool.liquidity);
            self.observe(&mut pool, ok, rest, t, l)?;
            pool.tick = tick;
        }
        pool.sqrt_price = price;
        pool.liquidity = liq;
        if zfo {
            pool.growth_0 = growth;
            pool.proto_0 = pool.proto_0.wrapping_add(proto);
        } else {
            pool.growth_1 = growth;
            pool.proto_1 = pool.proto_1.wrapping_add(proto);
        }
        pool.unlocked = false;
        self.set_data(pk, pool.bytes());
        let (a0, a1) = if zfo == exact_in { (amount - rem, calc) } else { (calc, amount - rem) };
        let (a_in, a_out) = if zfo { (a0, a1) } else { (a1, a0) };
        let before = self.token(&vin)?.amount;
        if a_out < 0 {
            self.transfer(vout, out_acc, pk, true, a_out.unsigned_abs())?;
        }
        if handler == CORE {
            if a_in > 0 {
                self.transfer(in_acc, vin, signer, true, a_in as u64)?;
            } else {
                // nothing is due; an empty payment is still attempted in one direction
                if !zfo {
                    self.transfer(in_acc, vin, signer, true, 0)?;
                }
            }
        } else {
            let dues: Vec<(usize, usize, usize, u64)> = if a_in > 0 { vec![(1, 3, 4, a_in as u64)] } else { vec![] };
            self.told.push(Enc::default().f(a0).f(a1).0);
            self.byzantine(handler, &[signer, in_acc, out_acc, vin, vout], &dues)?;
        }
        let after = self.token(&vin)?.amount;
        need(before as u128 + a_in.max(0) as u128 <= after as u128, "underpaid")?;
        self.events.push(
            Enc::ev("SwapEvent")
                .f(pk)
                .f(signer)
                .f(if zfo { in_acc } else { out_acc })
                .f(if zfo { out_acc } else { in_acc })
                .f(a0)
                .f(a1)
                .f(price)
                .f(liq)
                .f(tick)
                .0,
        );
        let mut pool = self.pool(&pk)?;
        pool.unlocked = true;
        self.set_data(pk, pool.bytes());
        if segs.iter().filter(|s| s.crossed.is_some()).count() > 1 {
            self.probes.push("swap-many-crossings");
        }
        if segs.iter().any(|s| s.crossed.is_some()) {
            self.probes.push("swap-crossing");
        }
        if words > 1 {
            self.probes.push("swap-several-words");
        }
        if uninit > 0 {
            self.probes.push("swap-uninitialized-word");
        }
        if rem != 0 {
            self.probes.push("swap-stopped-at-limit");
        }
        if segs.iter().any(|s| s.liq == 0) {
            self.probes.push("swap-empty-region");
        }
        if huge {
            self.probes.push("swap-huge-target");
        }
        let f = SwapFact {
            pool: id,
            zfo,
            amount,
            limit,
            start_price,
            start_tick,
            end_price: price,
            end_tick: tick,
            amount_0: a0,
            amount_1: a1,
            segs,
            proto,
            payer: signer,
            in_acc,
            out_acc,
            words,
            uninit_words: uninit,
            huge,
        };
        self.facts.push(Fact::Swap(f.clone()));
        Ok(f)
    }

    /// exact-input swap; returns what was paid out
    fn exact_in(&mut self, k: &[Pubkey; 8], rest: &[Meta], amount: u64, limit: u64) -> R<u64> {
        let pool = self.pool(&k[6])?;
        let zfo = self.token(&k[3])?.mint == pool.token_0;
        let amt = i64::try_from(amount).map_err(|_| Stop::Fail(WRAP))?;
        let limit = match (limit, zfo) {
            (0, true) => MIN_SQRT_RATIO + 1,
            (0, false) => MAX_SQRT_RATIO - 1,
            (l, _) => l,
        };
        let before = self.token(&k[4])?.amount;
        self.swap_keys(k, CORE, rest, amt, limit)?;
        let after = self.token(&k[4])?.amount;
        Ok(before.checked_sub(after).unwrap_or(0))
    }

    fn exact_single(&mut self, x: &Cx, deadline: i64, amount: u64, min: u64, limit: u64) -> R<()> {
        need(self.env.unix_time <= deadline, "deadline")?;
        need(x.k(8)? == CORE && x.k(9)? == TOKEN, "wrong-program")?;
        let k = [x.signer(0)?, x.k(3)?, x.k(4)?, x.wr(5)?, x.wr(6)?, x.k(1)?, x.k(2)?, x.k(7)?];
        let out = self.exact_in(&k, x.rest(10), amount, limit)?;
        need(out >= min, "too-little-received")?;
        self.facts.push(Fact::Route { hops: 1 });
        Ok(())
    }

    fn exact_multi(&mut self, x: &Cx, deadline: i64, amount: u64, min: u64, extra: &[u8]) -> R<()> {
        need(self.env.unix_time <= deadline, "deadline")?;
        let signer = x.signer(0)?;
        need(x.k(3)? == CORE && x.k(4)? == TOKEN, "wrong-program")?;
        let mut rest = x.rest(5);
        let mut amt = amount;
        let mut input = x.k(2)?;
        for (i, n) in extra.iter().enumerate() {
            need(rest.len() >= 5, "missing-account")?;
            let k = [signer, input, rest[1].key, rest[2].key, rest[3].key, x.k(1)?, rest[0].key, rest[4].key];
            rest = &rest[5..];
            amt = self.exact_in(&k, rest, amt, 0)?;
            self.marks.push(self.walk.len());
            if i + 1 < extra.len() {
                rest = &rest[(*n as usize).min(rest.len())..];
                input = k[2];
            }
        }
        need(amt >= min, "too-little-received")?;
        self.facts.push(Fact::Route { hops: extra.len() });
        Ok(())
    }

    // ---- tokenized positions ----------------------------------------------------------------

    /// (liquidity, amount0, amount1)
    #[allow(clippy::too_many_arguments)]
    fn add_liquidity(&mut self, k: &[Pubkey; 13], rest: &[Meta], d0: u64, d1: u64, m0: u64, m1: u64) -> R<(u64, u64, u64)> {
        // k: minter, ta0, ta1, v0, v1, recipient, pool, tl, tu, bl, bu, position, last observation
        let pool = self.pool(&k[6])?;
        let (lo, hi) = (self.tick(&k[7])?.tick, self.tick(&k[8])?.tick);
        need(lo != hi, "tick-order")?;
        need((MIN_TICK..=MAX_TICK).contains(&lo) && (MIN_TICK..=MAX_TICK).contains(&hi), "bad-tick")?;
        let (a, b) = (math::sqrt_at(lo.min(hi)), math::sqrt_at(hi.max(lo)));
        let l = math::liquidity_for(pool.sqrt_price, a, b, d0, d1).orf(WRAP)?;
        let metas: Vec<Meta> = k
            .iter()
            .map(|k| Meta { key: *k, signer: false, writable: self.wr_ok(k) })
            .chain([crate::bank::ro(TOKEN), crate::bank::ro(CORE)])
            .collect();
        let (b0, b1) = (self.token(&k[3])?.amount, self.token(&k[4])?.amount);
        self.mint_inner(&Cx { m: &metas }, k[0], k[5], l, CORE, rest)?;
        let a0 = self.token(&k[3])?.amount.wrapping_sub(b0);
        let a1 = self.token(&k[4])?.amount.wrapping_sub(b1);
        need(a0 >= m0 && a1 >= m1, "slippage")?;
        Ok((l, a0, a1))
    }

    fn mint_nft(&mut self, x: &Cx, d0: u64, d1: u64, m0: u64, m1: u64, deadline: i64) -> R<()> {
        need(self.env.unix_time <= deadline, "deadline")?;
        let minter = x.signer(0)?;
        let recipient = x.k(1)?;
        let fk = x.k(2)?;
        self.factory(&fk)?;
        let mint = x.signer(3)?;
        let nacc = x.wr(4)?;
        need(x.k(18)? == CORE && x.k(19)? == SYSTEM && x.k(20)? == TOKEN && x.k(21)? == ATA && x.k(17)? == RENT, "wrong-program")?;
        need(x.wr(3).is_ok(), "not-writable")?;
        self.create(mint, TOKEN, mint_bytes(Some(fk), 0, 0), minter)?;
        need(nacc == ata(&recipient, &mint), "wrong-address")?;
        self.create(nacc, TOKEN, tok_bytes(&mint, &recipient, 0), minter)?;
        let (sk, sb) = nft_state(&mint);
        need(x.wr(11)? == sk, "wrong-address")?;
        self.create(sk, CORE, vec![0; NftPos::LEN], minter)?;
        let pk = x.k(5)?;
        let posk = x.k(6)?;
        self.token(&x.k(14)?)?;
        self.token(&x.k(15)?)?;
        let k = [
            minter, x.k(12)?, x.k(13)?, x.k(14)?, x.k(15)?, fk, pk, x.k(7)?, x.k(8)?, x.k(9)?, x.k(10)?, posk, x.k(16)?,
        ];
        let (lo, hi) = (self.tick(&k[7])?.tick, self.tick(&k[8])?.tick);
        let (l, a0, a1) = self.add_liquidity(&k, x.rest(22), d0, d1, m0, m1)?;
        let mut md = self.acct(&mint).data;
        md[36..44].copy_from_slice(&1u64.to_le_bytes());
        self.set_data(mint, md);
        let mut nd = self.acct(&nacc).data;
        tok_set_amount(&mut nd, 1);
        self.set_data(nacc, nd);
        let p = self.pos(&posk)?;
        let st = NftPos {
            bump: sb,
            mint,
            pool_id: pk,
            tick_lower: lo,
            tick_upper: hi,
            liquidity: l,
            growth_0: p.growth_0,
            growth_1: p.growth_1,
            owed_0: 0,
            owed_1: 0,
        };
        self.set_data(sk, st.bytes());
        self.events.push(Enc::ev("IncreaseLiquidityEvent").f(mint).f(l).f(a0).f(a1).0);
        let pool = self.pool(&pk)?.id();
        self.facts.push(Fact::NftMinted { mint, pool, lo, hi, liquidity: l, amount_0: a0, amount_1: a1, recipient });
        Ok(())
    }

    fn bound(&self, n: &NftPos, pk: &Pubkey, tl: &Pubkey, tu: &Pubkey) -> R<()> {
        need(n.pool_id == *pk, "nft-of-another-pool")?;
        need(self.tick(tl)?.tick == n.tick_lower && self.tick(tu)?.tick == n.tick_upper, "nft-of-another-range")
    }

    fn increase(&mut self, x: &Cx, d0: u64, d1: u64, m0: u64, m1: u64, deadline: i64) -> R<()> {
        need(self.env.unix_time <= deadline, "deadline")?;
        let payer = x.signer(0)?;
        let fk = x.k(1)?;
        self.factory(&fk)?;
        let sk = x.wr(2)?;
        let n = self.nft(&sk)?;
        need(x.k(14)? == CORE && x.k(15)? == TOKEN, "wrong-program")?;
        let pk = x.k(3)?;
        self.token(&x.k(11)?)?;
        self.token(&x.k(12)?)?;
        self.pool(&pk)?;
        self.bound(&n, &pk, &x.k(5)?, &x.k(6)?)?;
        let k = [
            payer, x.k(9)?, x.k(10)?, x.k(11)?, x.k(12)?, fk, pk, x.k(5)?, x.k(6)?, x.k(7)?, x.k(8)?, x.k(4)?, x.k(13)?,
        ];
        let (l, a0, a1) = self.add_liquidity(&k, x.rest(16), d0, d1, m0, m1)?;
        let p = self.pos(&k[11])?;
        let mut n = self.nft(&sk)?;
        nft_accrue(&mut n, &p)?;
        n.liquidity = n.liquidity.checked_add(l).orf(WRAP)?;
        self.set_data(sk, n.bytes());
        self.events.push(Enc::ev("IncreaseLiquidityEvent").f(n.mint).f(l).f(a0).f(a1).0);
        let pool = self.pool(&pk)?.id();
        self.facts.push(Fact::NftIncreased { mint: n.mint, pool, liquidity: l, amount_0: a0, amount_1: a1 });
        Ok(())
    }

    fn authorized(&self, signer: &Pubkey, acc: &Pubkey, n: &NftPos) -> R<()> {
        let t = self.token(acc)?;
        need(t.mint == n.mint, "not-the-nft")?;
        need(t.amount == 1, "not-nft-holder")?;
        need(t.owner == *signer || (t.delegate == Some(*signer) && t.delegated > 0), "not-nft-holder")
    }

    fn decrease(&mut self, x: &Cx, l: u64, m0: u64, m1: u64, deadline: i64) -> R<()> {
        need(self.env.unix_time <= deadline, "deadline")?;
        let who = x.signer(0)?;
        let sk = x.wr(2)?;
        let n = self.nft(&sk)?;
        self.authorized(&who, &x.k(1)?, &n)?;
        need(l > 0, "bad-liquidity")?;
        let fk = x.k(3)?;
        self.factory(&fk)?;
        need(x.k(11)? == CORE, "wrong-program")?;
        let pk = x.k(4)?;
        self.pool(&pk)?;
        self.bound(&n, &pk, &x.k(6)?, &x.k(7)?)?;
        need(l <= n.liquidity, "nft-liquidity-exceeded")?;
        let k = [fk, pk, x.k(6)?, x.k(7)?, x.k(8)?, x.k(9)?, x.k(5)?, x.k(10)?];
        let (a0, a1) = self.burn_keys(&k, x.rest(12), l)?;
        // the bound is on principal: fees accrued by the shared custody position do not count
        need(a0 >= m0 && a1 >= m1, "slippage")?;
        let p = self.pos(&k[6])?;
        let mut n = self.nft(&sk)?;
        nft_accrue(&mut n, &p)?;
        n.owed_0 = n.owed_0.wrapping_add(a0);
        n.owed_1 = n.owed_1.wrapping_add(a1);
        n.liquidity -= l;
        self.set_data(sk, n.bytes());
        self.events.push(Enc::ev("DecreaseLiquidityEvent").f(n.mint).f(l).f(a0).f(a1).0);
        let pool = self.pool(&pk)?.id();
        self.facts.push(Fact::NftDecreased { mint: n.mint, pool, liquidity: l, amount_0: a0, amount_1: a1 });
        Ok(())
    }

    fn collect_nft(&mut self, x: &Cx, m0: u64, m1: u64) -> R<()> {
        let who = x.signer(0)?;
        let sk = x.wr(2)?;
        let mut n = self.nft(&sk)?;
        self.authorized(&who, &x.k(1)?, &n)?;
        need(m0 > 0 || m1 > 0, "zero-amount")?;
        let fk = x.k(3)?;
        self.factory(&fk)?;
        need(x.k(15)? == CORE && x.k(16)? == TOKEN, "wrong-program")?;
        let pk = x.k(4)?;
        let posk = x.k(5)?;
        self.pool(&pk)?;
        self.token(&x.k(11)?)?;
        self.token(&x.k(12)?)?;
        self.bound(&n, &pk, &x.k(6)?, &x.k(7)?)?;
        if n.liquidity > 0 {
            let k = [fk, pk, x.k(6)?, x.k(7)?, x.k(8)?, x.k(9)?, posk, x.k(10)?];
            self.burn_keys(&k, x.rest(17), 0)?;
            let p = self.pos(&posk)?;
            nft_accrue(&mut n, &p)?;
        }
        let (a0, a1) = (m0.min(n.owed_0), m1.min(n.owed_1));
        let k = [fk, pk, x.k(6)?, x.k(7)?, posk, x.k(11)?, x.k(12)?, x.k(13)?, x.k(14)?];
        self.collect_keys(&k, a0, a1)?;
        n.owed_0 -= a0;
        n.owed_1 -= a1;
        self.set_data(sk, n.bytes());
        self.events.push(Enc::ev("CollectTokenizedEvent").f(n.mint).f(x.k(13)?).f(x.k(14)?).f(a0).f(a1).0);
        let pool = self.pool(&pk)?.id();
        self.facts.push(Fact::NftCollected { mint: n.mint, pool, amount_0: a0, amount_1: a1, to_0: x.k(13)?, to_1: x.k(14)? });
        Ok(())
    }

    fn metadata(&mut self, x: &Cx) -> R<()> {
        let payer = x.signer(0)?;
        let fk = x.k(1)?;
        self.factory(&fk)?;
        let mint = x.wr(2)?;
        let m = self.mint_at(&mint)?;
        let sk = x.k(3)?;
        self.nft(&sk)?;
        need(nft_state(&mint).0 == sk, "wrong-address")?;
        let mk = x.wr(4)?;
        need(mk == metadata_key(&mint), "wrong-address")?;
        need(x.k(6)? == METADATA && x.k(7)? == TOKEN && x.k(8)? == SYSTEM && x.k(5)? == RENT, "wrong-program")?;
        need(m.authority == Some(fk), "metadata-exists")?;
        need(self.acct(&mk).owner == SYSTEM, "metadata-exists")?;
        need(self.wr_ok(&payer), "not-writable")?;
        self.opaque.push(mk);
        self.opaque.push(payer);
        let mut a = self.acct(&mint);
        a.data[0..4].copy_from_slice(&0u32.to_le_bytes());
        self.put(mint, a);
        self.facts.push(Fact::Metadata { mint });
        Ok(())
    }
}

fn add_delta(x: u64, d: i64) -> R<u64> {
    if d < 0 {
        x.checked_sub(d.unsigned_abs()).orf("liquidity-underflow")
    } else {
        x.checked_add(d as u64).orf("liquidity-overflow")
    }
}

/// fee growth inside a range, modulo 2^64
pub fn growth_inside(pool: &Pool, lo: &Tick, hi: &Tick) -> (u64, u64) {
    let one = |g: u64, ol: u64, oh: u64| {
        let below = if pool.tick >= lo.tick { ol } else { g.wrapping_sub(ol) };
        let above = if pool.tick < hi.tick { oh } else { g.wrapping_sub(oh) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    (one(pool.growth_0, lo.fee_out_0, hi.fee_out_0), one(pool.growth_1, lo.fee_out_1, hi.fee_out_1))
}
fn fee_share(dg: u64, l: u64) -> R<u64> {
    let v = (math::u(dg) * math::u(l)) >> 32;
    if v > math::u(u64::MAX) {
        return Err(Stop::Unsure("fees beyond 64 bits"));
    }
    Ok(v.as_u64())
}
fn nft_accrue(n: &mut NftPos, p: &Position) -> R<()> {
    n.owed_0 = n.owed_0.wrapping_add(fee_share(p.growth_0.wrapping_sub(n.growth_0), n.liquidity)?);
    n.owed_1 = n.owed_1.wrapping_add(fee_share(p.growth_1.wrapping_sub(n.growth_1), n.liquidity)?);
    n.growth_0 = p.growth_0;
    n.growth_1 = p.growth_1;
    Ok(())
}

thread_local! {
    static TICK_POOL: std::cell::RefCell<BTreeMap<Pubkey, PoolId>> = std::cell::RefCell::new(BTreeMap::new());
}
/// remember which pool a tick address belongs to
pub fn note_tick(k: Pubkey, id: PoolId) {
    TICK_POOL.with(|t| {
        t.borrow_mut().insert(k, id);
    })
}
fn ident_pool(k: &Pubkey) -> Option<PoolId> {
    TICK_POOL.with(|t| t.borrow().get(k).copied())
}
pub fn rc(a: Acct) -> Rc<Acct> {
    Rc::new(a)
}
