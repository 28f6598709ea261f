//! The cast of a simulated run: keys, genesis state, symbolic references.
use crate::abi::*;
use crate::bank::{Acct, Ledger};
use serde::{Deserialize, Serialize};
use solana_program::hash::hash;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PoolDef {
    /// token indices, a < b
    pub a: u8,
    pub b: u8,
    pub fee: u32,
    pub ts: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Setup {
    pub salt: u32,
    pub users: u8,
    pub tokens: u8,
    /// balance of each user in each token
    pub fund: Vec<u64>,
    pub time: i64,
    pub pools: Vec<PoolDef>,
    #[serde(skip)]
    pub cache: Cache,
}
#[derive(Clone, Debug, Default)]
pub struct Cache(RefCell<HashMap<(u8, u32, u32), Pubkey>>);
impl PartialEq for Cache {
    fn eq(&self, _: &Cache) -> bool {
        true
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Who {
    U(u8),
    Factory,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum KeyRef {
    User(u8),
    UserTok(u8, u8),
    Mint(u8),
    Pool(u8),
    Vault(u8, u8),
    Tick(u8, i32),
    Bitmap(u8, i16),
    Pos(u8, Who, i32, i32),
    Obs(u8, u16),
    NftMint(u16),
    NftAcc(u16, u8),
    NftState(u16),
    NftMeta(u16),
    Factory,
    Fee(u32),
    Core,
    Token,
    Ata,
    System,
    Metadata,
    Handler,
    Rent,
    /// a token account that belongs to the pool but is not its vault
    FakeVault(u8, u8),
    Nobody(u8),
    /// an account of the attacker's own program with a copy of another account's contents
    Twin(Box<KeyRef>),
}

fn k(tag: &str, salt: u32, a: u32, b: u32) -> Pubkey {
    let mut v = tag.as_bytes().to_vec();
    for x in [salt, a, b] {
        v.extend_from_slice(&x.to_le_bytes());
    }
    Pubkey::new(hash(&v).as_ref())
}

impl Setup {
    fn cached(&self, tag: u8, a: u32, b: u32, f: impl FnOnce() -> Pubkey) -> Pubkey {
        if let Some(k) = self.cache.0.borrow().get(&(tag, a, b)) {
            return *k;
        }
        let k = f();
        self.cache.0.borrow_mut().insert((tag, a, b), k);
        k
    }
    pub fn user(&self, u: u8) -> Pubkey {
        self.cached(0, u as u32, 0, || k("user", self.salt, u as u32, 0))
    }
    pub fn who(&self, w: Who) -> Pubkey {
        match w {
            Who::U(u) => self.user(u),
            Who::Factory => factory(),
        }
    }
    pub fn mint(&self, t: u8) -> Pubkey {
        self.cached(1, t as u32, 0, || self.mint_key(t))
    }
    fn mint_key(&self, t: u8) -> Pubkey {
        // mints are numbered in address order
        let mut v: Vec<Pubkey> = (0..self.tokens).map(|i| k("mint", self.salt, i as u32, 0)).collect();
        v.sort();
        v.get(t as usize).copied().unwrap_or_else(|| k("mint", self.salt, t as u32, 99))
    }
    pub fn utok(&self, u: u8, t: u8) -> Pubkey {
        self.cached(2, u as u32, t as u32, || k("utok", self.salt, u as u32, t as u32))
    }
    pub fn nft(&self, n: u16) -> Pubkey {
        self.cached(3, n as u32, 0, || k("nft", self.salt, n as u32, 0))
    }
    pub fn fake_vault(&self, p: u8, side: u8) -> Pubkey {
        k("fake", self.salt, p as u32, side as u32)
    }
    pub fn pid(&self, p: u8) -> PoolId {
        let d = &self.pools[p as usize % self.pools.len()];
        PoolId { t0: self.mint(d.a), t1: self.mint(d.b), fee: d.fee }
    }
    pub fn side_tok(&self, p: u8, side: usize) -> u8 {
        let d = &self.pools[p as usize % self.pools.len()];
        if side == 0 {
            d.a
        } else {
            d.b
        }
    }
    pub fn key(&self, r: &KeyRef) -> Pubkey {
        use KeyRef::*;
        match *r {
            User(u) => self.user(u),
            UserTok(u, t) => self.utok(u, t),
            Mint(t) => self.mint(t),
            Pool(p) => self.pid(p).key(),
            Vault(p, s) => self.pid(p).vault(s as usize),
            Tick(p, t) => self.pid(p).tick(t).0,
            Bitmap(p, w) => self.pid(p).bitmap(w).0,
            Pos(p, w, lo, hi) => self.pid(p).position(&self.who(w), lo, hi).0,
            Obs(p, i) => self.pid(p).obs(i).0,
            NftMint(n) => self.nft(n),
            NftAcc(n, u) => ata(&self.user(u), &self.nft(n)),
            NftState(n) => nft_state(&self.nft(n)).0,
            NftMeta(n) => metadata_key(&self.nft(n)),
            KeyRef::Factory => factory(),
            Fee(f) => fee_key(f).0,
            Core => CORE,
            Token => TOKEN,
            Ata => ATA,
            System => SYSTEM,
            Metadata => METADATA,
            Handler => HANDLER,
            Rent => RENT,
            FakeVault(p, s) => self.fake_vault(p, s),
            Nobody(n) => k("nobody", self.salt, n as u32, 0),
            Twin(ref r) => Pubkey::new(hash(&[b"twin".as_ref(), self.key(r).as_ref()].concat()).as_ref()),
        }
    }

    pub fn genesis(&self) -> Ledger {
        let mut l = Ledger::new();
        let mut put = |k: Pubkey, a: Acct| {
            l.insert(k, Rc::new(a));
        };
        for p in [CORE, TOKEN, ATA, METADATA, SYSTEM, HANDLER] {
            put(p, Acct { lamports: 1, owner: solana_program::bpf_loader::ID, data: vec![], executable: true });
        }
        let rent = bincode::serialize(&solana_program::rent::Rent::default()).unwrap();
        put(RENT, Acct { lamports: 1, owner: SYSVAR_OWNER, data: rent, executable: false });
        for u in 0..self.users {
            put(self.user(u), Acct { lamports: 1_000_000_000_000, owner: SYSTEM, data: vec![], executable: false });
        }
        let trent = rent_min(TOK_LEN);
        for t in 0..self.tokens {
            let m = self.mint(t);
            let f = self.fund[t as usize];
            let mut supply = 0u64;
            for u in 0..self.users {
                put(self.utok(u, t), Acct { lamports: trent, owner: TOKEN, data: tok_bytes(&m, &self.user(u), f), executable: false });
                supply = supply.saturating_add(f);
            }
            for (pi, d) in self.pools.iter().enumerate() {
                for (side, tt) in [(0u8, d.a), (1u8, d.b)] {
                    if tt == t {
                        let pk = self.pid(pi as u8).key();
                        let amt = (f / 64).min(u64::MAX - supply);
                        supply += amt;
                        put(self.fake_vault(pi as u8, side), Acct { lamports: trent, owner: TOKEN, data: tok_bytes(&m, &pk, amt), executable: false });
                    }
                }
            }
            put(m, Acct { lamports: rent_min(MINT_LEN), owner: TOKEN, data: mint_bytes(Some(k("issuer", self.salt, 0, 0)), supply, 6), executable: false });
        }
        l
    }
}
