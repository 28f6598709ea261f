//! Where the pinned tree keeps each field of its accounts; the table is what `cysim layout` prints.

pub const fn offset(account: &str, field: &str) -> usize {
    let mut i = 0;
    while i < TABLE.len() {
        if same(TABLE[i].0, account) && same(TABLE[i].1, field) {
            return TABLE[i].2;
        }
        i += 1;
    }
    panic!("no such field")
}
const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
const TABLE: &[(&str, &str, usize)] = &[
    ("FactoryState", "bump", 0),
    ("FactoryState", "owner", 1),
    ("FactoryState", "fee_protocol", 33),
    ("FeeState", "bump", 0),
    ("FeeState", "fee", 1),
    ("FeeState", "tick_spacing", 5),
    ("PoolState", "bump", 1),
    ("PoolState", "token_0", 2),
    ("PoolState", "token_1", 34),
    ("PoolState", "fee", 66),
    ("PoolState", "tick_spacing", 70),
    ("PoolState", "liquidity", 72),
    ("PoolState", "sqrt_price", 80),
    ("PoolState", "tick", 88),
    ("PoolState", "obs_index", 92),
    ("PoolState", "obs_card", 94),
    ("PoolState", "obs_next", 96),
    ("PoolState", "growth_0", 98),
    ("PoolState", "growth_1", 106),
    ("PoolState", "proto_0", 114),
    ("PoolState", "proto_1", 122),
    ("PoolState", "unlocked", 0),
    ("ObservationState", "bump", 1),
    ("ObservationState", "index", 2),
    ("ObservationState", "ts", 4),
    ("ObservationState", "tick_cum", 8),
    ("ObservationState", "spl_cum", 16),
    ("ObservationState", "initialized", 0),
    ("TickState", "bump", 0),
    ("TickState", "tick", 1),
    ("TickState", "net", 5),
    ("TickState", "gross", 13),
    ("TickState", "fee_out_0", 21),
    ("TickState", "fee_out_1", 29),
    ("TickState", "tick_cum_out", 37),
    ("TickState", "spl_out", 45),
    ("TickState", "secs_out", 53),
    ("TickBitmapState", "bump", 0),
    ("TickBitmapState", "word_pos", 1),
    ("TickBitmapState", "word", 3),
    ("PositionState", "bump", 0),
    ("PositionState", "liquidity", 1),
    ("PositionState", "growth_0", 9),
    ("PositionState", "growth_1", 17),
    ("PositionState", "owed_0", 25),
    ("PositionState", "owed_1", 33),
    ("TokenizedPositionState", "bump", 0),
    ("TokenizedPositionState", "mint", 1),
    ("TokenizedPositionState", "pool_id", 33),
    ("TokenizedPositionState", "tick_lower", 65),
    ("TokenizedPositionState", "tick_upper", 69),
    ("TokenizedPositionState", "liquidity", 73),
    ("TokenizedPositionState", "growth_0", 81),
    ("TokenizedPositionState", "growth_1", 89),
    ("TokenizedPositionState", "owed_0", 97),
    ("TokenizedPositionState", "owed_1", 105),
];
