//! Comparison of what a transaction did with what the reference model says it must do, and the
//! attribution of each disagreement to the properties it breaks.
use crate::abi::*;
use crate::bank::{Acct, Ledger, TxResult};
use crate::ops::{Op, TxSpec};
use crate::spec::{Predicted, Stop};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<u8>,
    /// stable name of the kind of disagreement
    pub class: String,
    pub detail: String,
}
pub fn viol(props: &[u8], class: impl Into<String>, detail: impl Into<String>) -> Viol {
    let mut p = props.to_vec();
    p.sort();
    p.dedup();
    Viol { props: p, class: class.into(), detail: detail.into() }
}

pub fn op_name(o: &Op) -> &'static str {
    use Op::*;
    match o {
        InitFactory { .. } => "init_factory",
        EnableFee { .. } => "enable_fee_amount",
        CreatePool { .. } => "create_and_init_pool",
        InitTick { .. } => "init_tick_account",
        InitBitmap { .. } => "init_bitmap_account",
        InitPos { .. } => "init_position_account",
        CloseTick { .. } => "close_tick_account",
        Mint { .. } => "mint",
        Burn { .. } => "burn",
        Collect { .. } => "collect",
        Swap { .. } => "swap",
        MintNft { .. } => "mint_tokenized_position",
        Inc { .. } => "increase_liquidity",
        Dec { .. } => "decrease_liquidity",
        CollectNft { .. } => "collect_from_tokenized",
        AddMeta { .. } => "add_metaplex_metadata",
        ExactSingle { .. } => "exact_input_single",
        ExactMulti { .. } => "exact_input",
        GrowObs { .. } => "increase_observation_cardinality_next",
        SetOwner { .. } => "set_owner",
        SetFeeProtocol { .. } => "set_fee_protocol",
        CollectProtocol { .. } => "collect_protocol",
        ApproveNft { .. } | ApproveTok { .. } => "approve",
        NftAuth { .. } => "set-authority",
        NftBurn { .. } => "burn-nft",
        RevokeNft { .. } | RevokeTok { .. } => "revoke",
        NftTransfer { .. } | Pay { .. } => "transfer",
        MintTo { .. } => "mint_to",
        Fund { .. } => "fund",
        MintCb { .. } => "mint_callback",
        SwapCb { .. } => "swap_callback",
        Junk { .. } => "junk",
    }
}
fn op_token_props(o: &Op) -> &'static [u8] {
    use Op::*;
    match o {
        Swap { .. } => &[1, 2, 3, 9, 11],
        ExactSingle { .. } | ExactMulti { .. } => &[1, 2, 3, 4, 9, 11],
        Mint { .. } => &[1, 9, 11, 23],
        MintNft { .. } | Inc { .. } => &[1, 4, 9, 10, 11, 23],
        Burn { .. } => &[1, 9, 17, 23],
        Dec { .. } => &[1, 4, 9, 10, 17, 23],
        Collect { .. } => &[1, 9, 17, 24],
        CollectNft { .. } => &[1, 9, 10, 17, 24],
        CollectProtocol { .. } => &[1, 6, 9, 24],
        _ => &[9],
    }
}
/// properties broken when an honest, well-formed operation fails although it must succeed
fn op_live_props(o: &Op) -> &'static [u8] {
    use Op::*;
    match o {
        Swap { .. } | ExactSingle { .. } | ExactMulti { .. } => &[2, 18],
        Mint { .. } => &[18],
        MintNft { .. } | Inc { .. } => &[10, 18],
        Burn { .. } | Collect { .. } => &[17],
        Dec { .. } | CollectNft { .. } => &[10, 17],
        GrowObs { .. } => &[14, 18],
        CollectProtocol { .. } => &[1, 6],
        AddMeta { .. } => &[22],
        InitTick { .. } | InitBitmap { .. } | InitPos { .. } | CreatePool { .. } => &[18, 19],
        CloseTick { .. } | InitFactory { .. } | EnableFee { .. } => &[19],
        SetOwner { .. } => &[9],
        SetFeeProtocol { .. } => &[6, 9],
        _ => &[18],
    }
}
pub fn live_props(ops: &[Op]) -> Vec<u8> {
    all(ops, op_live_props)
}
pub fn all(ops: &[Op], f: impl Fn(&Op) -> &'static [u8]) -> Vec<u8> {
    let s: BTreeSet<u8> = ops.iter().flat_map(|o| f(o).iter().copied()).collect();
    s.into_iter().collect()
}

/// properties broken when a transaction commits that must be refused for this reason
fn reject_props(reason: &str, ops: &[Op]) -> Vec<u8> {
    let tok = || all(ops, op_token_props);
    let mut v: Vec<u8> = match reason {
        "missing-signature" | "not-protocol-owner" | "not-token-owner" => vec![9],
        "not-nft-holder" | "not-the-nft" => vec![9, 10],
        "not-mint-authority" => vec![9, 22],
        "locked" | "reentrancy" => vec![12],
        "deadline" | "too-little-received" | "slippage" => vec![4],
        "bad-price-limit" | "zero-amount" => vec![3],
        "underpaid" | "callback-failed" => vec![1, 9, 11],
        // paid by somebody else, or less was traded than stated
        "insufficient-funds" => {
            let mut v = tok();
            v.extend([1, 9, 11]);
            v
        }
        "token-mint-mismatch" | "not-a-token-account" => vec![1, 9, 11],
        "wrong-vault" => {
            let mut v = tok();
            v.extend([1, 9, 11, 16]);
            v
        }
        "wrong-new-observation" => vec![14, 16, 18, 19],
        "wrong-observation" => vec![13, 14, 15, 16],
        "wrong-tick-account" | "wrong-bitmap-account" => vec![2, 7, 9, 16, 19],
        "wrong-position-account" => vec![7, 9, 10, 16],
        "nft-of-another-pool" => vec![9, 10, 16],
        "nft-of-another-range" | "nft-liquidity-exceeded" => vec![9, 10],
        "liquidity-underflow" => vec![7, 9, 10],
        "liquidity-overflow" => vec![7],
        "tick-in-use" => vec![7, 19],
        "tick-order" | "bad-tick" | "bad-word" | "token-order" | "bad-fee" | "bad-spacing" | "wrong-address" | "already-initialized" => {
            vec![19]
        }
        "bad-price" | "price-out-of-range" => vec![8, 19],
        "bad-protocol-fee" => vec![6],
        "bad-liquidity" => vec![7],
        "metadata-exists" => vec![22],
        "bad-recipient" => vec![19],
        "poke-of-empty-position" => vec![5],
        "overflow" => {
            let mut v = tok();
            v.extend([1, 2, 11]);
            v
        }
        "missing-walk-account" => vec![2, 13, 14],
        "wrong-program" | "wrong-token-program" => vec![9, 11],
        "wrong-account-type" | "not-a-program-account" | "not-a-mint" => {
            let mut v = tok();
            v.extend([9, 19]);
            v
        }
        "missing-account" | "bad-data" | "unknown-instruction" => vec![9],
        _ => vec![9, 19],
    };
    // creation steps named in the property about initialization
    if ops.iter().any(|o| matches!(o, Op::MintNft { .. })) && ["wrong-address", "already-initialized"].contains(&reason) {
        v.push(22);
        v.push(10);
    }
    if ops.iter().any(|o| matches!(o, Op::AddMeta { .. })) {
        v.push(22);
    }
    if ops.iter().any(|o| matches!(o, Op::GrowObs { .. })) {
        v.push(14);
    }
    v
}

pub fn kind(a: &Acct) -> &'static str {
    if a.lamports == 0 && a.data.is_empty() {
        return "nothing";
    }
    let d = &a.data;
    if a.owner == CORE {
        if Pool::is(d) {
            "pool"
        } else if Tick::is(d) {
            "tick"
        } else if Bitmap::is(d) {
            "bitmap"
        } else if Position::is(d) {
            "position"
        } else if Obs::is(d) {
            "observation"
        } else if NftPos::is(d) {
            "nft"
        } else if Factory::is(d) {
            "factory"
        } else if Fee::is(d) {
            "fee"
        } else {
            "unknown"
        }
    } else if a.owner == TOKEN {
        if tok(d).is_some() {
            "token"
        } else {
            "mint"
        }
    } else if a.owner == SYSTEM {
        "wallet"
    } else {
        "foreign"
    }
}

/// (field, expected, found) for every semantic difference
pub fn diff(want: &Acct, got: &Acct) -> Vec<(&'static str, String, String)> {
    let (kw, kg) = (kind(want), kind(got));
    let mut v = vec![];
    if kw != kg {
        return vec![("existence", kw.into(), kg.into())];
    }
    if want.lamports != got.lamports {
        v.push(("lamports", want.lamports.to_string(), got.lamports.to_string()));
    }
    if want.data == got.data {
        return v;
    }
    let (a, b) = (&want.data, &got.data);
    macro_rules! cmp {
        ($t:ident) => {
            match ($t::parse(a), $t::parse(b)) {
                (Some(x), Some(y)) => {
                    let d = x.diff(&y);
                    if d.is_empty() {
                        v.push(("raw", String::new(), String::new()));
                    }
                    v.extend(d)
                }
                _ => v.push(("raw", String::new(), String::new())),
            }
        };
    }
    match kw {
        "pool" => cmp!(Pool),
        "tick" => cmp!(Tick),
        "bitmap" => cmp!(Bitmap),
        "position" => cmp!(Position),
        "observation" => cmp!(Obs),
        "nft" => cmp!(NftPos),
        "factory" => cmp!(Factory),
        "fee" => cmp!(Fee),
        "token" => {
            let (x, y) = (tok(a).unwrap(), tok(b).unwrap());
            if x.amount != y.amount {
                v.push(("amount", x.amount.to_string(), y.amount.to_string()));
            }
            if x.delegate != y.delegate || x.delegated != y.delegated {
                v.push(("delegate", format!("{:?} {}", x.delegate, x.delegated), format!("{:?} {}", y.delegate, y.delegated)));
            }
            if x.mint != y.mint || x.owner != y.owner || x.state != y.state {
                v.push(("identity", format!("{:?}", x), format!("{:?}", y)));
            }
        }
        "mint" => {
            let (x, y) = (mint_acc(a), mint_acc(b));
            if x != y {
                v.push(("mint", format!("{:?}", x), format!("{:?}", y)));
            }
        }
        _ => v.push(("raw", format!("{} bytes", a.len()), format!("{} bytes", b.len()))),
    }
    v
}

fn field_props(kind: &str, field: &str, want: &Acct, ops: &[Op]) -> Vec<u8> {
    let has = |f: fn(&Op) -> bool| ops.iter().any(f);
    let swap = has(|o| matches!(o, Op::Swap { .. } | Op::ExactSingle { .. } | Op::ExactMulti { .. }));
    let router = has(|o| matches!(o, Op::ExactSingle { .. } | Op::ExactMulti { .. }));
    let nft = has(|o| matches!(o, Op::MintNft { .. } | Op::Inc { .. } | Op::Dec { .. } | Op::CollectNft { .. }));
    let exit = has(|o| matches!(o, Op::Burn { .. } | Op::Collect { .. } | Op::Dec { .. } | Op::CollectNft { .. }));
    let mut v: Vec<u8> = match (kind, field) {
        ("pool", "sqrt_price") => {
            if swap {
                vec![2, 3, 8]
            } else {
                vec![8]
            }
        }
        ("pool", "tick") => {
            if swap {
                vec![2, 8]
            } else {
                vec![8]
            }
        }
        ("pool", "liquidity") => {
            if swap {
                vec![2, 7]
            } else {
                vec![7]
            }
        }
        ("pool", "growth_0") | ("pool", "growth_1") => vec![5],
        ("pool", "proto_0") | ("pool", "proto_1") => vec![6],
        ("pool", "obs_index") => vec![13, 14],
        ("pool", "obs_card") | ("pool", "obs_next") => vec![14],
        ("pool", "unlocked") => vec![12],
        ("observation", "ts") => vec![13, 14],
        ("observation", "tick_cum") | ("observation", "spl_cum") => vec![13],
        ("observation", "initialized") => vec![13, 14],
        ("observation", _) => vec![14, 19],
        ("tick", "net") | ("tick", "gross") => vec![2, 7],
        ("tick", "fee_out_0") | ("tick", "fee_out_1") => vec![5],
        ("tick", "tick_cum_out") | ("tick", "spl_out") | ("tick", "secs_out") => vec![15],
        ("bitmap", "word") => vec![2, 7],
        ("position", "liquidity") => vec![7, 9],
        ("position", "growth_0") | ("position", "growth_1") => vec![5],
        ("position", "owed_0") | ("position", "owed_1") => vec![1, 5, 17],
        ("nft", "liquidity") => vec![10],
        ("nft", "growth_0") | ("nft", "growth_1") => vec![5, 10],
        ("nft", "owed_0") | ("nft", "owed_1") => vec![5, 10, 17],
        ("nft", _) => vec![10, 19, 22],
        ("factory", "owner") => vec![9],
        ("factory", "fee_protocol") => vec![6, 9],
        ("fee", _) => vec![19],
        ("token", "amount") => all(ops, op_token_props),
        ("token", _) => vec![9],
        ("mint", _) => vec![22],
        ("tick", "existence") | ("bitmap", "existence") | ("position", "existence") | ("observation", "existence") => vec![7, 19],
        ("nft", "existence") => vec![10, 19, 22],
        (_, "existence") => vec![19],
        (_, "lamports") => vec![9, 19],
        ("pool", _) | ("tick", _) | ("bitmap", _) | ("position", _) | ("factory", _) => vec![19],
        _ => vec![9],
    };
    // a tick that must be cleared completely
    if kind == "tick" && field != "lamports" && Tick::parse(&want.data).map(|t| t.clear()).unwrap_or(false) {
        v.extend([7, 19]);
    }
    if nft && kind == "position" {
        v.push(10);
    }
    if exit && kind == "position" {
        v.push(17);
    }
    let trade = has(|o| matches!(o, Op::Mint { .. } | Op::Burn { .. } | Op::MintNft { .. } | Op::Inc { .. } | Op::Dec { .. }));
    if trade && matches!((kind, field), ("position" | "nft", "liquidity" | "owed_0" | "owed_1")) {
        v.push(23);
    }
    if matches!((kind, field), ("position" | "nft", "owed_0" | "owed_1")) {
        v.push(24);
    }
    let paid = has(|o| matches!(o, Op::CollectProtocol { .. }));
    if paid && matches!((kind, field), ("pool", "proto_0" | "proto_1")) {
        v.push(24);
    }
    if router && swap && (kind == "token" || field == "sqrt_price") {
        v.push(4);
    }
    v
}

pub struct Verdict {
    pub viols: Vec<Viol>,
    /// the model could not say
    pub unsure: bool,
    pub agreed: bool,
}

/// is this account part of another pool than the ones the operations name?
pub trait Ident {
    fn foreign(&self, k: &Pubkey, ops: &[Op]) -> bool;
}

pub fn judge(led: &Ledger, spec: &TxSpec, pred: &Result<Predicted, Stop>, r: &TxResult, id: &dyn Ident) -> Verdict {
    let names: Vec<&str> = spec.ops.iter().map(op_name).collect();
    let names = names.join("+");
    let clean = spec.clean();
    let mut v = vec![];
    let mut unsure = false;
    match pred {
        Err(Stop::Unsure(_)) => unsure = true,
        Err(Stop::Fail(reason)) => {
            if r.ok {
                v.push(viol(
                    &reject_props(reason, &spec.ops),
                    format!("accepted:{}:{}", names, reason),
                    format!("{} committed although it must be refused ({})", names, reason),
                ));
            }
        }
        Ok(p) => {
            if !r.ok {
                if clean {
                    let hung = format!("{:?}", r.err);
                    v.push(viol(
                        &all(&spec.ops, op_live_props),
                        format!("refused:{}", names),
                        format!("{} failed although it must succeed: {}", names, hung),
                    ));
                }
            } else {
                let mut keys: BTreeSet<Pubkey> = p.accounts.keys().copied().collect();
                keys.extend(r.changes.iter().map(|c| c.key));
                let none = Acct::default();
                for k in keys {
                    if p.opaque.contains(&k) {
                        continue;
                    }
                    let base = led.get(&k).map(|a| &**a).unwrap_or(&none);
                    let want = p.accounts.get(&k).unwrap_or(base);
                    let got = match r.changes.iter().find(|c| c.key == k) {
                        Some(c) => c.post.as_deref().unwrap_or(&none),
                        None => base,
                    };
                    if want == got || want.lamports == 0 && got.lamports == 0 {
                        continue;
                    }
                    let kd = match kind(want) {
                        "nothing" => kind(got),
                        k => k,
                    };
                    for (f, w, g) in diff(want, got) {
                        let mut ps = field_props(kd, f, want, &spec.ops);
                        let was = led.get(&k).map(|a| a.owner != CORE).unwrap_or(true);
                        if was && want.owner == CORE && kd != "wallet" {
                            ps.push(19); // wrong contents at creation
                        }
                        if id.foreign(&k, &spec.ops) {
                            ps.push(16);
                        }
                        v.push(viol(
                            &ps,
                            format!("state:{}:{}.{}", names, kd, f),
                            format!("after {}: {} {} .{} is {} but must be {}", names, kd, k, f, g, w),
                        ));
                    }
                }
                // what a foreign payment program was asked for
                let mut asked: Vec<Vec<u8>> = r.inner.iter().filter(|i| i.program == HANDLER && i.caller == CORE && i.data.len() >= 8).map(|i| i.data[8..].to_vec()).collect();
                let mut told = p.told.clone();
                asked.sort();
                told.sort();
                if asked != told {
                    let f = |v: &Vec<Vec<u8>>| v.iter().map(|e| hex(e)).collect::<Vec<_>>().join(" ");
                    v.push(viol(&[11], format!("asked:{}", names), format!("in {}: the payment program is asked for {} but owes {}", names, f(&asked), f(&told))));
                }
                let mut got: Vec<&Vec<u8>> = r.events.iter().filter(|e| e.1 == CORE && event_name(&e.2) != "?").map(|e| &e.2).collect();
                let mut want: Vec<&Vec<u8>> = p.events.iter().collect();
                got.sort();
                want.sort();
                if got != want {
                    let f = |v: &Vec<&Vec<u8>>| v.iter().map(|e| format!("{}:{}", event_name(e), hex(&e[8..]))).collect::<Vec<_>>().join(" ");
                    v.push(viol(&[20], format!("events:{}", names), format!("after {}: events {} but must be {}", names, f(&got), f(&want))));
                }
            }
        }
    }
    let agreed = v.is_empty() && !unsure;
    Verdict { viols: v, unsure, agreed }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
