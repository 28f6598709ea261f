//! The public on-chain interface of cyclos-core, written out by hand from its documentation:
//! program ids, address derivation, account layouts, event layouts.
use solana_program::hash::hash;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;
use std::str::FromStr;

pub const CORE: Pubkey = Pubkey::new_from_array(CORE_B);
const CORE_B: [u8; 32] = decode_core();
const fn decode_core() -> [u8; 32] {
    // base58 of cysPXAjehMpVKUapzbMCCnpFxUFFryEWEaLgnb9NrR8, decoded at compile time
    let s = b"cysPXAjehMpVKUapzbMCCnpFxUFFryEWEaLgnb9NrR8";
    b58(s)
}
const fn b58<const N: usize>(s: &[u8; N]) -> [u8; 32] {
    let alpha = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out = [0u8; 32];
    let mut i = 0;
    while i < N {
        let mut v = 0u32;
        let mut j = 0;
        while j < 58 {
            if alpha[j] == s[i] {
                v = j as u32;
            }
            j += 1;
        }
        let mut k = 31i32;
        let mut carry = v;
        while k >= 0 {
            carry += out[k as usize] as u32 * 58;
            out[k as usize] = (carry & 255) as u8;
            carry >>= 8;
            k -= 1;
        }
        i += 1;
    }
    out
}
pub const TOKEN: Pubkey = Pubkey::new_from_array(b58(b"TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"));
pub const ATA: Pubkey = Pubkey::new_from_array(b58(b"ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"));
pub const METADATA: Pubkey = Pubkey::new_from_array(b58(b"metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"));
pub const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);
pub const SYSVAR_OWNER: Pubkey = Pubkey::new_from_array(b58(b"Sysvar1111111111111111111111111111111111111"));
pub const RENT: Pubkey = Pubkey::new_from_array(b58(b"SysvarRent111111111111111111111111111111111"));
pub const HANDLER: Pubkey = Pubkey::new_from_array(*b"byzantine callback handler prog.");

pub const MIN_TICK: i32 = -221818;
pub const MAX_TICK: i32 = 221818;
pub const MIN_SQRT_RATIO: u64 = 65537;
pub const MAX_SQRT_RATIO: u64 = 281472331703918;
/// oracle partition length, seconds
pub const PARTITION: u32 = 14;

pub fn self_check() {
    assert_eq!(CORE, cyclos_core::ID);
    assert_eq!(TOKEN, spl_token::ID);
    assert_eq!(ATA, spl_associated_token_account::ID);
    assert_eq!(METADATA, metaplex_token_metadata::ID);
    assert_eq!(RENT, Pubkey::from_str("SysvarRent111111111111111111111111111111111").unwrap());
}

thread_local! {
    static DISC: RefCell<HashMap<(&'static str, &'static str), [u8; 8]>> = RefCell::new(HashMap::new());
    static PDAS: RefCell<HashMap<(Pubkey, Vec<u8>), (Pubkey, u8)>> = RefCell::new(HashMap::new());
}

pub fn disc(ns: &'static str, name: &'static str) -> [u8; 8] {
    DISC.with(|d| {
        *d.borrow_mut().entry((ns, name)).or_insert_with(|| {
            let mut o = [0; 8];
            o.copy_from_slice(&hash(format!("{}:{}", ns, name).as_bytes()).to_bytes()[..8]);
            o
        })
    })
}

/// canonical program-derived address and bump
pub fn pda_of(program: &Pubkey, seeds: &[&[u8]]) -> (Pubkey, u8) {
    let mut k = vec![];
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    PDAS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 200_000 {
            p.clear();
        }
        *p.entry((*program, k)).or_insert_with(|| Pubkey::find_program_address(seeds, program))
    })
}
pub fn pda(seeds: &[&[u8]]) -> (Pubkey, u8) {
    pda_of(&CORE, seeds)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct PoolId {
    pub t0: Pubkey,
    pub t1: Pubkey,
    pub fee: u32,
}
impl PoolId {
    pub fn key(&self) -> Pubkey {
        pda(&[b"p", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes()]).0
    }
    pub fn bump(&self) -> u8 {
        pda(&[b"p", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes()]).1
    }
    pub fn obs(&self, i: u16) -> (Pubkey, u8) {
        pda(&[b"o", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &i.to_be_bytes()])
    }
    pub fn tick(&self, t: i32) -> (Pubkey, u8) {
        pda(&[b"t", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &t.to_be_bytes()])
    }
    pub fn bitmap(&self, w: i16) -> (Pubkey, u8) {
        pda(&[b"b", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &w.to_be_bytes()])
    }
    pub fn position(&self, owner: &Pubkey, lo: i32, hi: i32) -> (Pubkey, u8) {
        pda(&[b"ps", self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), owner.as_ref(), &lo.to_be_bytes(), &hi.to_be_bytes()])
    }
    pub fn mint(&self, side: usize) -> Pubkey {
        if side == 0 {
            self.t0
        } else {
            self.t1
        }
    }
    pub fn vault(&self, side: usize) -> Pubkey {
        ata(&self.key(), &self.mint(side))
    }
}
pub fn factory() -> Pubkey {
    pda(&[]).0
}
pub fn fee_key(fee: u32) -> (Pubkey, u8) {
    pda(&[b"f", &fee.to_be_bytes()])
}
pub fn nft_state(mint: &Pubkey) -> (Pubkey, u8) {
    pda(&[b"ps", mint.as_ref()])
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda_of(&ATA, &[owner.as_ref(), TOKEN.as_ref(), mint.as_ref()]).0
}
pub fn metadata_key(mint: &Pubkey) -> Pubkey {
    pda_of(&METADATA, &[b"metadata", METADATA.as_ref(), mint.as_ref()]).0
}

// ---- account layouts -------------------------------------------------------------------------

pub trait Field: Sized {
    const SIZE: usize;
    fn get(b: &[u8]) -> Self;
    fn put(&self, b: &mut [u8]);
}
macro_rules! int_field {
    ($($t:ty),*) => {$(
        impl Field for $t {
            const SIZE: usize = std::mem::size_of::<$t>();
            fn get(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
            fn put(&self, b: &mut [u8]) { b.copy_from_slice(&self.to_le_bytes()) }
        }
    )*};
}
int_field!(u8, u16, i16, u32, i32, u64, i64);
impl Field for bool {
    const SIZE: usize = 1;
    fn get(b: &[u8]) -> Self {
        b[0] != 0
    }
    fn put(&self, b: &mut [u8]) {
        b[0] = *self as u8
    }
}
impl Field for Pubkey {
    const SIZE: usize = 32;
    fn get(b: &[u8]) -> Self {
        Pubkey::new(b)
    }
    fn put(&self, b: &mut [u8]) {
        b.copy_from_slice(self.as_ref())
    }
}
impl Field for [u64; 4] {
    const SIZE: usize = 32;
    fn get(b: &[u8]) -> Self {
        let g = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        [g(0), g(1), g(2), g(3)]
    }
    fn put(&self, b: &mut [u8]) {
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self[i].to_le_bytes())
        }
    }
}

/// `fixed` builds do not name the program's fields (for trees that renamed them)
#[cfg(not(feature = "fixed"))]
macro_rules! off {
    ($real:path, $rf:ident, $anchor:literal, $f:ident) => { std::mem::offset_of!($real, $rf) };
}
#[cfg(feature = "fixed")]
macro_rules! off {
    ($real:path, $rf:ident, $anchor:literal, $f:ident) => {{
        const O: usize = crate::layout::offset($anchor, stringify!($f));
        O
    }};
}

/// The byte offsets are taken from the compiled program: its structures are `repr(packed)` without
/// `repr(C)`, so the compiler is free to move fields (today it moves the booleans first).
macro_rules! state {
    ($name:ident, $anchor:literal, $real:path, { $($f:ident : $t:ty = $rf:ident),* $(,)? }) => {
        #[derive(Clone, Copy, PartialEq, Debug, Default)]
        pub struct $name { $(pub $f: $t),* }
        #[allow(dead_code)]
        impl $name {
            pub const NAME: &'static str = $anchor;
            pub const LEN: usize = 8 $(+ <$t as Field>::SIZE)*;
            pub fn disc() -> [u8; 8] { disc("account", $anchor) }
            pub fn is(d: &[u8]) -> bool { d.len() == Self::LEN && d[..8] == Self::disc() }
            pub fn parse(d: &[u8]) -> Option<Self> {
                if !Self::is(d) { return None; }
                Some($name { $($f: {
                    let o = 8 + off!($real, $rf, $anchor, $f);
                    <$t as Field>::get(&d[o..o + <$t as Field>::SIZE])
                }),* })
            }
            pub fn bytes(&self) -> Vec<u8> {
                let mut d = vec![0u8; Self::LEN];
                d[..8].copy_from_slice(&Self::disc());
                $(
                    let o = 8 + off!($real, $rf, $anchor, $f);
                    self.$f.put(&mut d[o..o + <$t as Field>::SIZE]);
                )*
                d
            }
            pub fn layout() -> Vec<(&'static str, &'static str, usize)> {
                vec![$(($anchor, stringify!($f), off!($real, $rf, $anchor, $f))),*]
            }
            /// name, expected, found of every field that differs
            pub fn diff(&self, o: &Self) -> Vec<(&'static str, String, String)> {
                let mut v = vec![];
                $(if self.$f != o.$f { v.push((stringify!($f), format!("{:?}", self.$f), format!("{:?}", o.$f))); })*
                v
            }
        }
    };
}

state!(Factory, "FactoryState", cyclos_core::states::factory::FactoryState, {
    bump: u8 = bump, owner: Pubkey = owner, fee_protocol: u8 = fee_protocol,
});
state!(Fee, "FeeState", cyclos_core::states::fee::FeeState, { bump: u8 = bump, fee: u32 = fee, tick_spacing: u16 = tick_spacing });
state!(Pool, "PoolState", cyclos_core::states::pool::PoolState, {
    bump: u8 = bump, token_0: Pubkey = token_0, token_1: Pubkey = token_1, fee: u32 = fee,
    tick_spacing: u16 = tick_spacing, liquidity: u64 = liquidity, sqrt_price: u64 = sqrt_price_x32,
    tick: i32 = tick, obs_index: u16 = observation_index, obs_card: u16 = observation_cardinality,
    obs_next: u16 = observation_cardinality_next, growth_0: u64 = fee_growth_global_0_x32,
    growth_1: u64 = fee_growth_global_1_x32, proto_0: u64 = protocol_fees_token_0,
    proto_1: u64 = protocol_fees_token_1, unlocked: bool = unlocked,
});
state!(Obs, "ObservationState", cyclos_core::states::oracle::ObservationState, {
    bump: u8 = bump, index: u16 = index, ts: u32 = block_timestamp, tick_cum: i64 = tick_cumulative,
    spl_cum: u64 = seconds_per_liquidity_cumulative_x32, initialized: bool = initialized,
});
state!(Tick, "TickState", cyclos_core::states::tick::TickState, {
    bump: u8 = bump, tick: i32 = tick, net: i64 = liquidity_net, gross: u64 = liquidity_gross,
    fee_out_0: u64 = fee_growth_outside_0_x32, fee_out_1: u64 = fee_growth_outside_1_x32,
    tick_cum_out: i64 = tick_cumulative_outside, spl_out: u64 = seconds_per_liquidity_outside_x32,
    secs_out: u32 = seconds_outside,
});
state!(Bitmap, "TickBitmapState", cyclos_core::states::tick_bitmap::TickBitmapState, {
    bump: u8 = bump, word_pos: i16 = word_pos, word: [u64; 4] = word,
});
state!(Position, "PositionState", cyclos_core::states::position::PositionState, {
    bump: u8 = bump, liquidity: u64 = liquidity, growth_0: u64 = fee_growth_inside_0_last_x32,
    growth_1: u64 = fee_growth_inside_1_last_x32, owed_0: u64 = tokens_owed_0, owed_1: u64 = tokens_owed_1,
});
state!(NftPos, "TokenizedPositionState", cyclos_core::states::tokenized_position::TokenizedPositionState, {
    bump: u8 = bump, mint: Pubkey = mint, pool_id: Pubkey = pool_id, tick_lower: i32 = tick_lower,
    tick_upper: i32 = tick_upper, liquidity: u64 = liquidity, growth_0: u64 = fee_growth_inside_0_last_x32,
    growth_1: u64 = fee_growth_inside_1_last_x32, owed_0: u64 = tokens_owed_0, owed_1: u64 = tokens_owed_1,
});

/// every field of every account, with its offset
pub fn layout() -> Vec<(&'static str, &'static str, usize)> {
    [Factory::layout(), Fee::layout(), Pool::layout(), Obs::layout(), Tick::layout(), Bitmap::layout(), Position::layout(), NftPos::layout()].concat()
}

impl Pool {
    pub fn id(&self) -> PoolId {
        PoolId { t0: self.token_0, t1: self.token_1, fee: self.fee }
    }
    pub fn next_obs(&self) -> u16 {
        ((self.obs_index as u32 + 1) % (self.obs_next.max(1) as u32)) as u16
    }
}
impl Bitmap {
    pub fn get(&self, bit: u8) -> bool {
        self.word[bit as usize / 64] >> (bit % 64) & 1 == 1
    }
    pub fn flip(&mut self, bit: u8) {
        self.word[bit as usize / 64] ^= 1 << (bit % 64)
    }
}
impl Tick {
    pub fn clear(&self) -> bool {
        *self == Tick { bump: self.bump, tick: self.tick, ..Default::default() }
    }
}
/// word and bit of a tick that is a multiple of the spacing
pub fn slot_of(compressed: i32) -> (i16, u8) {
    (compressed.div_euclid(256) as i16, compressed.rem_euclid(256) as u8)
}

pub fn is_pool(d: &[u8]) -> bool {
    Pool::is(d)
}
pub fn pool_unlocked(d: &[u8]) -> bool {
    Pool::parse(d).map(|p| p.unlocked).unwrap_or(true)
}

// ---- token accounts --------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub state: u8,
    pub native: bool,
    pub delegated: u64,
}
pub const TOK_LEN: usize = 165;
pub const MINT_LEN: usize = 82;
pub fn tok(d: &[u8]) -> Option<Tok> {
    if d.len() != TOK_LEN {
        return None;
    }
    let u = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    let tag = u32::from_le_bytes(d[72..76].try_into().unwrap());
    let state = d[108];
    if state == 0 || state > 2 || tag > 1 {
        return None;
    }
    Some(Tok {
        mint: Pubkey::new(&d[0..32]),
        owner: Pubkey::new(&d[32..64]),
        amount: u(64),
        delegate: if tag == 1 { Some(Pubkey::new(&d[76..108])) } else { None },
        state,
        native: d[109] != 0,
        delegated: u(121),
    })
}
pub fn tok_set_amount(d: &mut [u8], a: u64) {
    d[64..72].copy_from_slice(&a.to_le_bytes());
}
pub fn tok_set_delegate(d: &mut [u8], del: Option<Pubkey>, amount: u64) {
    // the token program leaves the key bytes behind when it clears the option tag
    match del {
        Some(k) => {
            d[72..76].copy_from_slice(&1u32.to_le_bytes());
            d[76..108].copy_from_slice(k.as_ref());
        }
        None => {
            d[72..76].copy_from_slice(&0u32.to_le_bytes());
            d[76..108].copy_from_slice(&[0; 32]);
        }
    }
    d[121..129].copy_from_slice(&amount.to_le_bytes());
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct MintAcc {
    pub authority: Option<Pubkey>,
    pub supply: u64,
    pub decimals: u8,
    pub init: bool,
    pub freeze: Option<Pubkey>,
}
pub fn mint_acc(d: &[u8]) -> Option<MintAcc> {
    if d.len() != MINT_LEN {
        return None;
    }
    let t = u32::from_le_bytes(d[0..4].try_into().unwrap());
    let f = u32::from_le_bytes(d[46..50].try_into().unwrap());
    Some(MintAcc {
        authority: if t == 1 { Some(Pubkey::new(&d[4..36])) } else { None },
        supply: u64::from_le_bytes(d[36..44].try_into().unwrap()),
        decimals: d[44],
        init: d[45] != 0,
        freeze: if f == 1 { Some(Pubkey::new(&d[50..82])) } else { None },
    })
}
pub fn mint_bytes(authority: Option<Pubkey>, supply: u64, decimals: u8) -> Vec<u8> {
    let mut d = vec![0u8; MINT_LEN];
    if let Some(a) = authority {
        d[0..4].copy_from_slice(&1u32.to_le_bytes());
        d[4..36].copy_from_slice(a.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    d
}
pub fn tok_bytes(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; TOK_LEN];
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}

pub fn rent_min(len: usize) -> u64 {
    solana_program::rent::Rent::default().minimum_balance(len)
}

// ---- instruction and event encoding ----------------------------------------------------------

#[derive(Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn ix(name: &'static str) -> Enc {
        Enc(disc("global", name).to_vec())
    }
    pub fn ev(name: &'static str) -> Enc {
        Enc(disc("event", name).to_vec())
    }
    pub fn f<T: Field>(mut self, v: T) -> Enc {
        let o = self.0.len();
        self.0.resize(o + T::SIZE, 0);
        v.put(&mut self.0[o..]);
        self
    }
    pub fn bytes(mut self, v: &[u8]) -> Enc {
        self.0.extend_from_slice(&(v.len() as u32).to_le_bytes());
        self.0.extend_from_slice(v);
        self
    }
}
pub struct Dec<'a>(pub &'a [u8]);
impl<'a> Dec<'a> {
    pub fn f<T: Field>(&mut self) -> Option<T> {
        if self.0.len() < T::SIZE {
            return None;
        }
        let (a, b) = self.0.split_at(T::SIZE);
        self.0 = b;
        Some(T::get(a))
    }
    pub fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.f::<u32>()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a.to_vec())
    }
}
/// human-readable name of an event, for reports
pub fn event_name(d: &[u8]) -> &'static str {
    const NAMES: [&str; 14] = [
        "OwnerChanged", "FeeAmountEnabled", "PoolCreatedAndInitialized", "IncreaseObservationCardinalityNext",
        "SetFeeProtocolEvent", "CollectProtocolEvent", "MintEvent", "BurnEvent", "CollectEvent", "SwapEvent",
        "IncreaseLiquidityEvent", "DecreaseLiquidityEvent", "CollectTokenizedEvent", "",
    ];
    for n in NAMES {
        if d.len() >= 8 && disc("event", n) == d[..8] {
            return n;
        }
    }
    "?"
}
