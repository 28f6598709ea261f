//! What participants want to do, and the client library that turns it into transactions the way an
//! honest client does: accounts derived from the pool's identity and the ledger it last saw.
use crate::abi::*;
use crate::bank::{ro, rw, sro, srw, Env, Ix, Ledger, Meta, Pay, Script, Tx};
use crate::spec;
use crate::world::{KeyRef, Setup, Who};
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    InitFactory { by: u8 },
    EnableFee { by: u8, fee: u32, ts: u16 },
    CreatePool {
        by: u8,
        pool: u8,
        price: u64,
        /// the tokens in the other order (1), or one token twice (2, 3)
        #[serde(default, skip_serializing_if = "none")]
        twist: u8,
    },
    InitTick { by: u8, pool: u8, tick: i32 },
    InitBitmap { by: u8, pool: u8, word: i16 },
    InitPos { by: u8, owner: Who, pool: u8, lo: i32, hi: i32 },
    CloseTick { pool: u8, tick: i32, to: u8 },
    Mint { by: u8, owner: Who, pool: u8, lo: i32, hi: i32, liq: u64, byz: bool },
    Burn { by: u8, pool: u8, lo: i32, hi: i32, liq: u64 },
    Collect { by: u8, pool: u8, lo: i32, hi: i32, a0: u64, a1: u64, to: u8 },
    Swap { by: u8, pool: u8, zfo: bool, amount: i64, limit: u64, to: u8, byz: bool },
    MintNft { by: u8, to: u8, pool: u8, lo: i32, hi: i32, nft: u16, d0: u64, d1: u64, m0: u64, m1: u64, dl: i64 },
    Inc { by: u8, nft: u16, d0: u64, d1: u64, m0: u64, m1: u64, dl: i64 },
    Dec { by: u8, nft: u16, liq: u64, m0: u64, m1: u64, dl: i64 },
    CollectNft { by: u8, nft: u16, a0: u64, a1: u64, to: u8 },
    AddMeta { by: u8, nft: u16 },
    ExactSingle { by: u8, pool: u8, zfo: bool, amount: u64, min: u64, limit: u64, dl: i64, to: u8 },
    ExactMulti { by: u8, path: Vec<(u8, bool)>, amount: u64, min: u64, dl: i64, to: u8 },
    GrowObs { by: u8, pool: u8, n: u8, alt: bool },
    SetOwner { by: u8, to: u8 },
    SetFeeProtocol { by: u8, n: u8 },
    CollectProtocol { by: u8, pool: u8, a0: u64, a1: u64, to: u8 },
    ApproveNft { by: u8, nft: u16, to: u8, amount: u64 },
    RevokeNft { by: u8, nft: u16 },
    NftTransfer { by: u8, nft: u16, to: u8 },
    /// hands the NFT's token account itself to another owner (2), gives it a close authority (3) or takes that away (4)
    NftAuth { by: u8, nft: u16, kind: u8, to: u8 },
    NftBurn { by: u8, nft: u16 },
    ApproveTok { by: u8, token: u8, to: u8, amount: u64 },
    RevokeTok { by: u8, token: u8 },
    /// plain token transfer to any token account
    Pay { by: u8, token: u8, to: KeyRef, amount: u64 },
    /// someone who is not the issuer tries to mint
    MintTo { by: u8, mint: KeyRef, to: KeyRef, amount: u64 },
    /// send lamports to any address, e.g. one about to be initialized
    Fund { by: u8, to: KeyRef, lamports: u64 },
    /// call the protocol's own payment callback directly
    MintCb { by: u8, pool: u8, a0: u64, a1: u64 },
    SwapCb { by: u8, pool: u8, zfo: bool, d0: i64, d1: i64 },
    /// an instruction with arbitrary name and data
    Junk { by: u8, data: Vec<u8>, keys: Vec<KeyRef> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mut {
    Key { ix: u8, pos: u8, with: KeyRef },
    Exchange { ix: u8, a: u8, b: u8 },
    Copy { ix: u8, from: u8, to: u8 },
    DropSigner { ix: u8, pos: u8 },
    DropWritable { ix: u8, pos: u8 },
    Data { ix: u8, off: u16, bytes: Vec<u8> },
    Truncate { ix: u8, n: u8 },
    Append { ix: u8, with: KeyRef },
    RemoveMeta { ix: u8, pos: u8 },
    CutData { ix: u8, n: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ScriptSpec {
    pub pays: Vec<Pay>,
    pub reenter: Option<Box<Op>>,
    pub fail: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct TxSpec {
    pub ops: Vec<Op>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub muts: Vec<Mut>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub abort_at: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail_token_at: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub script: Option<ScriptSpec>,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub allow_reentry: bool,
    /// further accounts of the way are passed to swaps than they need
    #[serde(default, skip_serializing_if = "none")]
    pub more: u8,
}
fn none(n: &u8) -> bool {
    *n == 0
}
impl TxSpec {
    pub fn one(op: Op) -> TxSpec {
        TxSpec { ops: vec![op], ..Default::default() }
    }
    /// nothing is injected: an honest client's transaction
    pub fn clean(&self) -> bool {
        self.muts.is_empty() && self.abort_at.is_none() && self.fail_token_at.is_none() && self.script.is_none()
    }
}

#[derive(Clone, Debug)]
pub struct Compiled {
    pub tx: Tx,
    pub env: Env,
}

pub fn pool_of(l: &Ledger, k: &Pubkey) -> Option<Pool> {
    l.get(k).filter(|a| a.owner == CORE).and_then(|a| Pool::parse(&a.data))
}
pub fn nft_of(l: &Ledger, mint: &Pubkey) -> Option<NftPos> {
    l.get(&nft_state(mint).0).filter(|a| a.owner == CORE).and_then(|a| NftPos::parse(&a.data))
}
pub fn tok_of(l: &Ledger, k: &Pubkey) -> Option<Tok> {
    l.get(k).filter(|a| a.owner == TOKEN).and_then(|a| tok(&a.data))
}
pub fn tick_of(l: &Ledger, k: &Pubkey) -> Option<Tick> {
    l.get(k).filter(|a| a.owner == CORE).and_then(|a| Tick::parse(&a.data))
}
pub fn exists(l: &Ledger, k: &Pubkey) -> bool {
    l.get(k).map(|a| a.owner == CORE).unwrap_or(false)
}
/// where the ring slot lives; the address bump is chosen by whoever pays for the slot
pub fn obs_key(l: &Ledger, id: &PoolId, i: u16) -> Pubkey {
    let (k, b) = id.obs(i);
    if exists(l, &k) {
        return k;
    }
    for bump in (0..b).rev() {
        if let Some(k) = obs_key_with(id, i, bump) {
            if exists(l, &k) {
                return k;
            }
        }
    }
    k
}
pub fn obs_key_with(id: &PoolId, i: u16, bump: u8) -> Option<Pubkey> {
    Pubkey::create_program_address(&[b"o", id.t0.as_ref(), id.t1.as_ref(), &id.fee.to_be_bytes(), &i.to_be_bytes(), &[bump]], &CORE).ok()
}
/// the user holding the NFT, with the token account
pub fn nft_holder(s: &Setup, l: &Ledger, n: u16) -> Option<(u8, Pubkey)> {
    let m = s.nft(n);
    for u in 0..s.users {
        let a = ata(&s.user(u), &m);
        if let Some(t) = tok_of(l, &a).filter(|t| t.amount == 1) {
            // an account can be handed over as a whole
            return (0..s.users).find(|v| s.user(*v) == t.owner).map(|v| (v, a));
        }
    }
    None
}

pub struct Client<'a> {
    pub s: &'a Setup,
    pub l: &'a Ledger,
    pub env: &'a Env,
    pub more: u8,
}

fn core(metas: Vec<Meta>, data: Enc) -> Ix {
    Ix { program: CORE, metas, data: data.0 }
}

impl<'a> Client<'a> {
    fn spacing(&self, id: &PoolId) -> i32 {
        pool_of(self.l, &id.key()).map(|p| p.tick_spacing.max(1) as i32).unwrap_or(1)
    }
    fn bm(&self, id: &PoolId, t: i32) -> Pubkey {
        id.bitmap(slot_of(t / self.spacing(id)).0).0
    }
    fn obs(&self, id: &PoolId) -> (Pubkey, Pubkey) {
        match pool_of(self.l, &id.key()) {
            Some(p) => (obs_key(self.l, id, p.obs_index), obs_key(self.l, id, p.next_obs())),
            None => (id.obs(0).0, id.obs(0).0),
        }
    }
    /// fill in the accounts a swap walks through
    fn with_walk(&self, mut ix: Ix, pool: u8, zfo: bool) -> Ix {
        let (walk, _) = spec::walk(self.l, self.env, &ix, usize::MAX);
        let beyond = self.beyond(pool, zfo, &walk);
        ix.metas.extend(walk.into_iter().chain(beyond).map(rw));
        ix
    }
    /// accounts a swap would walk through next if it went on
    fn beyond(&self, pool: u8, zfo: bool, walk: &[Pubkey]) -> Vec<Pubkey> {
        if self.more == 0 {
            return vec![];
        }
        let id = self.s.pid(pool);
        let (i, o) = if zfo { (0, 1) } else { (1, 0) };
        let u = 0;
        let ix = core(
            vec![
                sro(self.s.user(u)), rw(self.s.utok(u, self.s.side_tok(pool, i))), rw(self.s.utok(u, self.s.side_tok(pool, o))), rw(id.vault(i)), rw(id.vault(o)),
                ro(TOKEN), rw(factory()), rw(id.key()), rw(self.obs(&id).0), ro(CORE),
            ],
            Enc::ix("swap").f(i64::MAX).f(if zfo { MIN_SQRT_RATIO + 1 } else { MAX_SQRT_RATIO - 1 }),
        );
        let (far, _) = spec::walk(self.l, self.env, &ix, walk.len() + self.more as usize);
        let same = far.iter().zip(walk).take_while(|(a, b)| a == b).count();
        far.into_iter().skip(same).take(self.more as usize).collect()
    }

    /// instructions for an operation; the keys that sign them
    pub fn build(&self, op: &Op) -> Option<(Vec<Ix>, Vec<Pubkey>)> {
        let s = self.s;
        let one = |ix: Ix, by: u8| Some((vec![ix], vec![s.user(by)]));
        match *op {
            Op::InitFactory { by } => one(core(vec![srw(s.user(by)), rw(factory()), ro(SYSTEM)], Enc::ix("init_factory")), by),
            Op::EnableFee { by, fee, ts } => one(
                core(vec![srw(s.user(by)), rw(factory()), rw(fee_key(fee).0), ro(SYSTEM)], Enc::ix("enable_fee_amount").f(fee).f(ts)),
                by,
            ),
            Op::CreatePool { by, pool, price, twist } => {
                let mut id = s.pid(pool);
                match twist {
                    1 => std::mem::swap(&mut id.t0, &mut id.t1),
                    2 => id.t1 = id.t0,
                    3 => id.t0 = id.t1,
                    _ => {}
                }
                let mut v = vec![core(
                    vec![
                        srw(s.user(by)), ro(id.t0), ro(id.t1), ro(fee_key(id.fee).0), rw(id.key()), rw(id.obs(0).0), ro(SYSTEM), ro(RENT),
                    ],
                    Enc::ix("create_and_init_pool").f(price),
                )];
                for side in 0..2 {
                    if tok_of(self.l, &id.vault(side)).is_none() {
                        v.push(self.mk_ata(by, id.key(), id.mint(side)));
                    }
                }
                Some((v, vec![s.user(by)]))
            }
            Op::InitTick { by, pool, tick } => {
                let id = s.pid(pool);
                spec::note_tick(id.tick(tick).0, id);
                one(core(vec![srw(s.user(by)), ro(id.key()), rw(id.tick(tick).0), ro(SYSTEM)], Enc::ix("init_tick_account").f(tick)), by)
            }
            Op::InitBitmap { by, pool, word } => {
                let id = s.pid(pool);
                one(core(vec![srw(s.user(by)), ro(id.key()), rw(id.bitmap(word).0), ro(SYSTEM)], Enc::ix("init_bitmap_account").f(word)), by)
            }
            Op::InitPos { by, owner, pool, lo, hi } => {
                let id = s.pid(pool);
                let o = s.who(owner);
                one(
                    core(
                        vec![
                            srw(s.user(by)), ro(o), ro(id.key()), ro(id.tick(lo).0), ro(id.tick(hi).0), rw(id.position(&o, lo, hi).0), ro(SYSTEM),
                        ],
                        Enc::ix("init_position_account"),
                    ),
                    by,
                )
            }
            Op::CloseTick { pool, tick, to } => {
                let id = s.pid(pool);
                spec::note_tick(id.tick(tick).0, id);
                Some((vec![core(vec![rw(id.tick(tick).0), rw(s.user(to))], Enc::ix("close_tick_account"))], vec![]))
            }
            Op::Mint { by, owner, pool, lo, hi, liq, byz } => {
                let id = s.pid(pool);
                let o = s.who(owner);
                let (last, next) = self.obs(&id);
                one(
                    core(
                        vec![
                            sro(s.user(by)), rw(s.utok(by, s.side_tok(pool, 0))), rw(s.utok(by, s.side_tok(pool, 1))),
                            rw(id.vault(0)), rw(id.vault(1)), ro(o), rw(id.key()), rw(id.tick(lo).0), rw(id.tick(hi).0),
                            rw(self.bm(&id, lo)), rw(self.bm(&id, hi)), rw(id.position(&o, lo, hi).0), rw(last), ro(TOKEN),
                            ro(if byz { HANDLER } else { CORE }), rw(next),
                        ],
                        Enc::ix("mint").f(liq),
                    ),
                    by,
                )
            }
            Op::Burn { by, pool, lo, hi, liq } => {
                let id = s.pid(pool);
                let (last, next) = self.obs(&id);
                one(
                    core(
                        vec![
                            sro(s.user(by)), rw(id.key()), rw(id.tick(lo).0), rw(id.tick(hi).0), rw(self.bm(&id, lo)), rw(self.bm(&id, hi)),
                            rw(id.position(&s.user(by), lo, hi).0), rw(last), rw(next),
                        ],
                        Enc::ix("burn").f(liq),
                    ),
                    by,
                )
            }
            Op::Collect { by, pool, lo, hi, a0, a1, to } => {
                let id = s.pid(pool);
                one(
                    core(
                        vec![
                            sro(s.user(by)), rw(id.key()), ro(id.tick(lo).0), ro(id.tick(hi).0), rw(id.position(&s.user(by), lo, hi).0),
                            rw(id.vault(0)), rw(id.vault(1)), rw(s.utok(to, s.side_tok(pool, 0))), rw(s.utok(to, s.side_tok(pool, 1))), ro(TOKEN),
                        ],
                        Enc::ix("collect").f(a0).f(a1),
                    ),
                    by,
                )
            }
            Op::Swap { by, pool, zfo, amount, limit, to, byz } => {
                let id = s.pid(pool);
                let (i, o) = if zfo { (0, 1) } else { (1, 0) };
                let limit = match (limit, zfo) {
                    (0, true) => MIN_SQRT_RATIO + 1,
                    (0, false) => MAX_SQRT_RATIO - 1,
                    (l, _) => l,
                };
                let ix = core(
                    vec![
                        sro(s.user(by)), rw(s.utok(by, s.side_tok(pool, i))), rw(s.utok(to, s.side_tok(pool, o))), rw(id.vault(i)), rw(id.vault(o)),
                        ro(TOKEN), rw(factory()), rw(id.key()), rw(self.obs(&id).0), ro(if byz { HANDLER } else { CORE }),
                    ],
                    Enc::ix("swap").f(amount).f(limit),
                );
                one(self.with_walk(ix, pool, zfo), by)
            }
            Op::ExactSingle { by, pool, zfo, amount, min, limit, dl, to } => {
                let id = s.pid(pool);
                let (i, o) = if zfo { (0, 1) } else { (1, 0) };
                let ix = core(
                    vec![
                        sro(s.user(by)), rw(factory()), rw(id.key()), rw(s.utok(by, s.side_tok(pool, i))), rw(s.utok(to, s.side_tok(pool, o))),
                        rw(id.vault(i)), rw(id.vault(o)), rw(self.obs(&id).0), ro(CORE), ro(TOKEN),
                    ],
                    Enc::ix("exact_input_single").f(dl).f(amount).f(min).f(limit),
                );
                one(self.with_walk(ix, pool, zfo), by)
            }
            Op::ExactMulti { by, ref path, amount, min, dl, to } => {
                if path.is_empty() {
                    return None;
                }
                let (p0, z0) = path[0];
                let head = vec![
                    sro(s.user(by)), rw(factory()), rw(s.utok(by, s.side_tok(p0, if z0 { 0 } else { 1 }))), ro(CORE), ro(TOKEN),
                ];
                let mut hops = vec![];
                for (n, (p, z)) in path.iter().enumerate() {
                    let id = s.pid(*p);
                    let (i, o) = if *z { (0, 1) } else { (1, 0) };
                    let who = if n + 1 == path.len() { to } else { by };
                    hops.push(vec![
                        rw(id.key()), rw(s.utok(who, s.side_tok(*p, o))), rw(id.vault(i)), rw(id.vault(o)), rw(self.obs(&id).0),
                    ]);
                }
                let mk = |hops: &[Vec<Meta>], extra: &[u8]| {
                    let mut m = head.clone();
                    for h in hops {
                        m.extend(h.iter().copied());
                    }
                    core(m, Enc::ix("exact_input").f(dl).f(amount).f(min).bytes(extra))
                };
                let (walk, marks) = spec::walk(self.l, self.env, &mk(&hops, &vec![0; hops.len()]), usize::MAX);
                let mut extra = vec![];
                let mut at = 0;
                for (n, h) in hops.iter_mut().enumerate() {
                    let end = marks.get(n).copied().unwrap_or(walk.len());
                    let beyond = self.beyond(path[n].0, path[n].1, &walk[at..end]);
                    extra.push((end - at + beyond.len()) as u8);
                    h.extend(walk[at..end].iter().chain(&beyond).map(|k| rw(*k)));
                    at = end;
                }
                one(mk(&hops, &extra), by)
            }
            Op::MintNft { by, to, pool, lo, hi, nft, d0, d1, m0, m1, dl } => {
                let id = s.pid(pool);
                let m = s.nft(nft);
                let (last, next) = self.obs(&id);
                Some((
                    vec![core(
                        vec![
                            srw(s.user(by)), ro(s.user(to)), ro(factory()), srw(m), rw(ata(&s.user(to), &m)), rw(id.key()),
                            rw(id.position(&factory(), lo, hi).0), rw(id.tick(lo).0), rw(id.tick(hi).0), rw(self.bm(&id, lo)), rw(self.bm(&id, hi)),
                            rw(nft_state(&m).0), rw(s.utok(by, s.side_tok(pool, 0))), rw(s.utok(by, s.side_tok(pool, 1))), rw(id.vault(0)),
                            rw(id.vault(1)), rw(last), ro(RENT), ro(CORE), ro(SYSTEM), ro(TOKEN), ro(ATA), rw(next),
                        ],
                        Enc::ix("mint_tokenized_position").f(d0).f(d1).f(m0).f(m1).f(dl),
                    )],
                    vec![s.user(by), m],
                ))
            }
            Op::Inc { by, nft, d0, d1, m0, m1, dl } => {
                let (n, id, pi) = self.nft(nft)?;
                let (last, next) = self.obs(&id);
                one(
                    core(
                        vec![
                            sro(s.user(by)), ro(factory()), rw(nft_state(&n.mint).0), rw(id.key()), rw(id.position(&factory(), n.tick_lower, n.tick_upper).0),
                            rw(id.tick(n.tick_lower).0), rw(id.tick(n.tick_upper).0), rw(self.bm(&id, n.tick_lower)), rw(self.bm(&id, n.tick_upper)),
                            rw(s.utok(by, s.side_tok(pi, 0))), rw(s.utok(by, s.side_tok(pi, 1))), rw(id.vault(0)), rw(id.vault(1)), rw(last), ro(CORE),
                            ro(TOKEN), rw(next),
                        ],
                        Enc::ix("increase_liquidity").f(d0).f(d1).f(m0).f(m1).f(dl),
                    ),
                    by,
                )
            }
            Op::Dec { by, nft, liq, m0, m1, dl } => {
                let (n, id, _) = self.nft(nft)?;
                let (last, next) = self.obs(&id);
                one(
                    core(
                        vec![
                            sro(s.user(by)), ro(self.nft_acc(by, nft)), rw(nft_state(&n.mint).0), ro(factory()), rw(id.key()),
                            rw(id.position(&factory(), n.tick_lower, n.tick_upper).0), rw(id.tick(n.tick_lower).0), rw(id.tick(n.tick_upper).0),
                            rw(self.bm(&id, n.tick_lower)), rw(self.bm(&id, n.tick_upper)), rw(last), ro(CORE), rw(next),
                        ],
                        Enc::ix("decrease_liquidity").f(liq).f(m0).f(m1).f(dl),
                    ),
                    by,
                )
            }
            Op::CollectNft { by, nft, a0, a1, to } => {
                let (n, id, pi) = self.nft(nft)?;
                let (last, next) = self.obs(&id);
                one(
                    core(
                        vec![
                            sro(s.user(by)), ro(self.nft_acc(by, nft)), rw(nft_state(&n.mint).0), ro(factory()), rw(id.key()),
                            rw(id.position(&factory(), n.tick_lower, n.tick_upper).0), rw(id.tick(n.tick_lower).0), rw(id.tick(n.tick_upper).0),
                            rw(self.bm(&id, n.tick_lower)), rw(self.bm(&id, n.tick_upper)), rw(last), rw(id.vault(0)), rw(id.vault(1)),
                            rw(s.utok(to, s.side_tok(pi, 0))), rw(s.utok(to, s.side_tok(pi, 1))), ro(CORE), ro(TOKEN), rw(next),
                        ],
                        Enc::ix("collect_from_tokenized").f(a0).f(a1),
                    ),
                    by,
                )
            }
            Op::AddMeta { by, nft } => {
                let m = s.nft(nft);
                one(
                    core(
                        vec![
                            srw(s.user(by)), ro(factory()), rw(m), ro(nft_state(&m).0), rw(metadata_key(&m)), ro(RENT), ro(METADATA), ro(TOKEN), ro(SYSTEM),
                        ],
                        Enc::ix("add_metaplex_metadata"),
                    ),
                    by,
                )
            }
            Op::GrowObs { by, pool, n, alt } => {
                let id = s.pid(pool);
                let p = pool_of(self.l, &id.key())?;
                let mut bumps = vec![];
                let mut m = vec![srw(s.user(by)), rw(id.key()), ro(SYSTEM)];
                for i in 0..n as u16 {
                    let idx = p.obs_next.wrapping_add(i);
                    let (mut k, mut b) = id.obs(idx);
                    if alt {
                        for c in (0..b).rev() {
                            if let Some(kk) = obs_key_with(&id, idx, c) {
                                k = kk;
                                b = c;
                                break;
                            }
                        }
                    }
                    bumps.push(b);
                    m.push(rw(k));
                }
                one(core(m, Enc::ix("increase_observation_cardinality_next").bytes(&bumps)), by)
            }
            Op::SetOwner { by, to } => one(core(vec![sro(s.user(by)), ro(s.user(to)), rw(factory())], Enc::ix("set_owner")), by),
            Op::SetFeeProtocol { by, n } => one(core(vec![sro(s.user(by)), rw(factory())], Enc::ix("set_fee_protocol").f(n)), by),
            Op::CollectProtocol { by, pool, a0, a1, to } => {
                let id = s.pid(pool);
                one(
                    core(
                        vec![
                            sro(s.user(by)), rw(factory()), rw(id.key()), rw(id.vault(0)), rw(id.vault(1)), rw(s.utok(to, s.side_tok(pool, 0))),
                            rw(s.utok(to, s.side_tok(pool, 1))), ro(TOKEN),
                        ],
                        Enc::ix("collect_protocol").f(a0).f(a1),
                    ),
                    by,
                )
            }
            Op::ApproveNft { by, nft, to, amount } => one(self.tok_ix(4, Some(amount), vec![rw(self.nft_acc(by, nft)), ro(s.user(to)), sro(s.user(by))]), by),
            Op::RevokeNft { by, nft } => one(self.tok_ix(5, None, vec![rw(self.nft_acc(by, nft)), sro(s.user(by))]), by),
            Op::NftTransfer { by, nft, to } => {
                let m = s.nft(nft);
                let dst = ata(&s.user(to), &m);
                let mut v = vec![];
                if tok_of(self.l, &dst).is_none() {
                    v.push(self.mk_ata(by, s.user(to), m));
                }
                v.push(self.tok_ix(3, Some(1), vec![rw(self.nft_acc(by, nft)), rw(dst), sro(s.user(by))]));
                Some((v, vec![s.user(by)]))
            }
            Op::NftAuth { by, nft, kind, to } => {
                let mut d = vec![6u8, kind.clamp(2, 3), (kind < 4) as u8];
                if kind < 4 {
                    d.extend_from_slice(s.user(to).as_ref());
                }
                one(Ix { program: TOKEN, metas: vec![rw(self.nft_acc(by, nft)), sro(s.user(by))], data: d }, by)
            }
            Op::NftBurn { by, nft } => one(self.tok_ix(8, Some(1), vec![rw(self.nft_acc(by, nft)), rw(s.nft(nft)), sro(s.user(by))]), by),
            Op::ApproveTok { by, token, to, amount } => one(self.tok_ix(4, Some(amount), vec![rw(s.utok(by, token)), ro(s.user(to)), sro(s.user(by))]), by),
            Op::RevokeTok { by, token } => one(self.tok_ix(5, None, vec![rw(s.utok(by, token)), sro(s.user(by))]), by),
            Op::Pay { by, token, ref to, amount } => one(self.tok_ix(3, Some(amount), vec![rw(s.utok(by, token)), rw(s.key(to)), sro(s.user(by))]), by),
            Op::MintTo { by, ref mint, ref to, amount } => one(self.tok_ix(7, Some(amount), vec![rw(s.key(mint)), rw(s.key(to)), sro(s.user(by))]), by),
            Op::Fund { by, ref to, lamports } => {
                let mut d = 2u32.to_le_bytes().to_vec();
                d.extend_from_slice(&lamports.to_le_bytes());
                one(Ix { program: SYSTEM, metas: vec![srw(s.user(by)), rw(s.key(to))], data: d }, by)
            }
            Op::MintCb { by, pool, a0, a1 } => {
                let id = s.pid(pool);
                let (last, _) = self.obs(&id);
                one(
                    core(
                        vec![
                            sro(s.user(by)), rw(s.utok(by, s.side_tok(pool, 0))), rw(s.utok(by, s.side_tok(pool, 1))), rw(id.vault(0)), rw(id.vault(1)),
                            ro(s.user(by)), rw(id.key()), rw(last), rw(last), rw(last), rw(last), rw(last), rw(last), ro(TOKEN), ro(CORE),
                        ],
                        Enc::ix("mint_callback").f(a0).f(a1),
                    ),
                    by,
                )
            }
            Op::SwapCb { by, pool, zfo, d0, d1 } => {
                let id = s.pid(pool);
                let (i, o) = if zfo { (0, 1) } else { (1, 0) };
                one(
                    core(
                        vec![
                            sro(s.user(by)), rw(s.utok(by, s.side_tok(pool, i))), rw(s.utok(by, s.side_tok(pool, o))), rw(id.vault(i)), rw(id.vault(o)),
                            ro(TOKEN), rw(factory()), rw(id.key()), rw(self.obs(&id).0), ro(CORE),
                        ],
                        Enc::ix("swap_callback").f(d0).f(d1),
                    ),
                    by,
                )
            }
            Op::Junk { by, ref data, ref keys } => {
                let mut m = vec![srw(s.user(by))];
                m.extend(keys.iter().map(|k| rw(s.key(k))));
                one(Ix { program: CORE, metas: m, data: data.clone() }, by)
            }
        }
    }

    fn nft(&self, n: u16) -> Option<(NftPos, PoolId, u8)> {
        let p = nft_of(self.l, &self.s.nft(n))?;
        for i in 0..self.s.pools.len() as u8 {
            let id = self.s.pid(i);
            if id.key() == p.pool_id {
                return Some((p, id, i));
            }
        }
        None
    }
    fn nft_acc(&self, by: u8, n: u16) -> Pubkey {
        nft_holder(self.s, self.l, n).map(|h| h.1).unwrap_or_else(|| ata(&self.s.user(by), &self.s.nft(n)))
    }
    fn mk_ata(&self, by: u8, owner: Pubkey, mint: Pubkey) -> Ix {
        Ix {
            program: ATA,
            metas: vec![srw(self.s.user(by)), rw(ata(&owner, &mint)), ro(owner), ro(mint), ro(SYSTEM), ro(TOKEN), ro(RENT)],
            data: vec![],
        }
    }
    fn tok_ix(&self, tag: u8, amount: Option<u64>, metas: Vec<Meta>) -> Ix {
        let mut d = vec![tag];
        if let Some(a) = amount {
            d.extend_from_slice(&a.to_le_bytes());
        }
        Ix { program: TOKEN, metas, data: d }
    }
}

/// a copy of the ledger with a prediction applied
pub fn applied(l: &Ledger, p: &spec::Predicted) -> Ledger {
    let mut n = l.clone();
    for (k, a) in &p.accounts {
        if a.lamports == 0 {
            n.remove(k);
        } else {
            n.insert(*k, Rc::new(a.clone()));
        }
    }
    n
}

fn key_owner_signs(sg: &[Pubkey], k: &Pubkey) -> bool {
    sg.contains(k)
}

/// turn a transaction description into a transaction against the given ledger
pub fn compile(s: &Setup, l: &Ledger, now: &Env, t: &TxSpec) -> Option<Compiled> {
    let mut ixs = vec![];
    let mut signers = vec![];
    let mut own: Option<Ledger> = None;
    let n = t.ops.len();
    for (i, op) in t.ops.iter().enumerate() {
        let cur = own.as_ref().unwrap_or(l);
        let (v, sg) = Client { s, l: cur, env: now, more: t.more }.build(op)?;
        if i + 1 < n {
            let tx = Tx { ixs: v.clone(), signers: sg.clone() };
            if let Ok(p) = spec::predict(cur, &tx, now) {
                own = Some(applied(cur, &p));
            }
        }
        ixs.extend(v);
        for k in sg {
            if !signers.contains(&k) {
                signers.push(k);
            }
        }
    }
    let mut env = now.clone();
    env.abort_at = t.abort_at;
    env.fail_token_at = t.fail_token_at;
    env.allow_reentry = t.allow_reentry;
    if let Some(sc) = &t.script {
        env.script = Script { pays: sc.pays.clone(), reenter: None, fail: sc.fail };
        if let Some(op) = &sc.reenter {
            // aim at the state the callback will see: after the outer operation, before it ends
            let plain = Env { script: Script { pays: vec![Pay { dest: 0, num: 1, den: 1, plus: 0, only: 0 }], reenter: None, fail: false }, ..now.clone() };
            let tx = Tx { ixs: ixs.clone(), signers: signers.clone() };
            let mid = spec::predict(l, &tx, &plain).ok().map(|p| applied(l, &p));
            if let Some((v, sg)) = (Client { s, l: mid.as_ref().unwrap_or(l), env: now, more: 0 }).build(op) {
                let ix = v.into_iter().next()?;
                // carries the accounts of the inner instruction into the transaction
                let by = *sg.first().unwrap_or(&s.user(0));
                let mut d = 2u32.to_le_bytes().to_vec();
                d.extend_from_slice(&0u64.to_le_bytes());
                let mut m = vec![srw(by), rw(by)];
                m.extend(ix.metas.iter().copied());
                m.push(ro(ix.program));
                ixs.insert(0, Ix { program: SYSTEM, metas: m, data: d });
                for k in sg.iter().chain([&by]) {
                    if !signers.contains(k) {
                        signers.push(*k);
                    }
                }
                env.script.reenter = Some(ix);
            }
        }
    }
    for m in &t.muts {
        mutate(s, &mut ixs, m);
    }
    // nobody but the acting parties signs
    let _ = key_owner_signs;
    Some(Compiled { tx: Tx { ixs, signers }, env })
}

fn mutate(s: &Setup, ixs: &mut [Ix], m: &Mut) {
    let n = ixs.len();
    if n == 0 {
        return;
    }
    let ixno = match m {
        Mut::Key { ix, .. } | Mut::Exchange { ix, .. } | Mut::Copy { ix, .. } | Mut::DropSigner { ix, .. } | Mut::DropWritable { ix, .. } => *ix,
        Mut::Data { ix, .. } | Mut::Truncate { ix, .. } | Mut::Append { ix, .. } | Mut::RemoveMeta { ix, .. } | Mut::CutData { ix, .. } => *ix,
    } as usize
        % n;
    let i = &mut ixs[ixno];
    let len = i.metas.len();
    if len == 0 {
        return;
    }
    match m {
        Mut::Key { pos, with, .. } => i.metas[*pos as usize % len].key = s.key(with),
        Mut::Exchange { a, b, .. } => {
            let (a, b) = (*a as usize % len, *b as usize % len);
            let t = i.metas[a].key;
            i.metas[a].key = i.metas[b].key;
            i.metas[b].key = t;
        }
        Mut::Copy { from, to, .. } => i.metas[*to as usize % len].key = i.metas[*from as usize % len].key,
        Mut::DropSigner { pos, .. } => i.metas[*pos as usize % len].signer = false,
        Mut::DropWritable { pos, .. } => i.metas[*pos as usize % len].writable = false,
        Mut::Data { off, bytes, .. } => {
            for (j, b) in bytes.iter().enumerate() {
                let o = *off as usize + j;
                if o < i.data.len() {
                    i.data[o] = *b;
                }
            }
        }
        Mut::Truncate { n, .. } => i.metas.truncate(len.saturating_sub(*n as usize).max(1)),
        Mut::Append { with, .. } => i.metas.push(rw(s.key(with))),
        Mut::RemoveMeta { pos, .. } => {
            i.metas.remove(*pos as usize % len);
        }
        Mut::CutData { n, .. } => {
            let l = i.data.len();
            i.data.truncate(l.saturating_sub(*n as usize));
        }
    }
}
