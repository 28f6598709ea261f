#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts can be edited in one place)."""
import json, os
L='programs/core/src/lib.rs'; C='programs/core/src/context.rs'; AC='programs/core/src/access_control.rs'
S='programs/core/src/states/'; M='programs/core/src/libraries/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p('P01','Pool vaults always cover every claim on them',
  'After every committed transaction each of a pool\'s two token vaults holds at least the sum of what all its liquidity positions could withdraw at the current price, the fees they have earned or are owed, and the uncollected protocol fees. Consequently all position holders and the protocol can withdraw everything they are owed, in any order, and the last one out is still paid in full. No operation lets the claims on a vault grow by more than was paid into it, so no sequence of operations, however small the amounts, lets rounding move value out of a pool.',
  ['histories','inputs','schedules'],'every history of mints, burns, collects, swaps, fee changes and pool creations by any number of parties in any order, with any amounts',
  'The Rust unit tests exercise the math helpers one call at a time; none executes an instruction, so nothing relates vault balances to claims over a history.',
  [L,M+'swap_math.rs',M+'sqrt_price_math.rs',S+'position.rs',S+'tick.rs'],
  [('amounts owed rounded up, amounts paid rounded down',M+'sqrt_price_math.rs'),('payment check after the callback',L+' mint/swap'),('owed amounts reduced before transfer',L+' collect')],
  [('vault_0, vault_1','token accounts of the pool address','associated token accounts of the pool'),('tokens_owed_*','amounts a position can collect',S+'position.rs'),('protocol_fees_token_*','uncollected protocol fees',S+'pool.rs')],
  ['token balances of the vaults','pool, tick and position accounts'])
p('P02','Swaps trade exactly along the concentrated-liquidity curve',
  'For every swap, the tokens taken in, the tokens paid out, the fee charged, the resulting price and the resulting in-range liquidity equal those of the published concentrated-liquidity curve walked segment by segment through every initialized tick between the start and end price, with the pool\'s fee tier charged on the input and every rounding in favour of the pool. Each initialized tick passed is crossed exactly once and ticks on neither side are skipped, including when the walk spans several bitmap words or uninitialized words. The result depends only on the pool\'s state, the direction, the amount and the price limit.',
  ['inputs','histories','configurations'],'every reachable pool state, fee tier, tick spacing, direction, exact-input or exact-output amount and price limit',
  'The unit tests check one step of the curve on sample numbers; the loop that walks ticks and bitmap words, crosses ticks and accumulates amounts lives in the instruction handler, which no Rust test runs.',
  [L,M+'swap_math.rs',M+'sqrt_price_math.rs',M+'tick_math.rs',M+'full_math.rs',S+'tick_bitmap.rs',S+'tick.rs'],
  [('swap loop',L+' swap'),('single-segment computation',M+'swap_math.rs'),('next initialized tick search',S+'tick_bitmap.rs'),('tick crossing',S+'tick.rs cross')],
  [('sqrt_price_x32, tick, liquidity','current price and in-range liquidity',S+'pool.rs')],['vault and trader balance changes','pool account after the swap'])
p('P03','Swaps respect amount, direction and price limits; no free round trips',
  'A swap never takes more than the exact input given nor pays more than the exact output asked for, moves the price only in the direction of the trade and never past the caller\'s price limit, and stops short of the specified amount only when the price limit has been reached; a limit on the wrong side of the current price or outside the supported range, or a zero amount, is rejected. No sequence of swaps by one party that ends with no less of one token than it began with leaves that party with more of the other token, as long as nobody else acts on the pool.',
  ['inputs','histories'],'every swap in every reachable pool state, and every finite cycle of swaps by one trader',
  'Round trips and limits over several ticks need a history of real swaps; the unit tests only sample single segments.',
  [L,M+'swap_math.rs',M+'sqrt_price_math.rs'],
  [('price limit validation',L+' swap'),('target price capped at the limit',L+' swap'),('exact output cap',M+'swap_math.rs')],[],['trader and vault balances','pool price'])
p('P04','User-stated bounds hold whenever a transaction commits',
  'A router swap that commits delivered at least the stated minimum of the final output token to the named recipient account, spent no more than the stated input (across every hop of a multi-hop route, each hop trading exactly what the previous one paid out), and respected the price limit given. Adding liquidity spends at most the desired amount and at least the stated minimum of each token for the liquidity credited, and removing liquidity credits at least the stated minimum of each token as principal for the liquidity removed, fees not counted. Nothing with a deadline commits after its deadline, and anything that misses a bound leaves no trace.',
  ['inputs','schedules','fault_sequences'],'every interleaving of other transactions between quoting and execution (sandwiching, reordering, delay past the deadline, stale quotes) and every amount and bound',
  'The bounds only matter when other transactions run between quote and execution; no existing test executes a handler, let alone interleaves two.',
  [L,AC,M+'liquidity_amounts.rs'],
  [('deadline check',AC+' check_deadline'),('minimum output check',L+' exact_input_single, exact_input'),('slippage checks',L+' add_liquidity, decrease_liquidity'),('hop chaining',L+' exact_input')],
  [],['user token balances','liquidity of the position','block time'])
p('P05','Swap fees go pro rata to the liquidity in range when they accrued',
  'For every segment of every swap, the fee left after the protocol\'s share is divided among exactly the positions whose range contains that segment, in proportion to their liquidity, and each of them can collect its share, never more, and less only by bounded rounding dust. Liquidity added later, removed earlier, or out of range earns nothing from that segment, and updating, splitting, increasing or decreasing a position at any time does not change what it had already earned.',
  ['histories','schedules','inputs'],'every history of swaps, mints, burns, pokes and collects by any number of overlapping positions, with tick accounts initialized, cleared and re-initialized in between',
  'Fee distribution depends on growth-outside bookkeeping of ticks flipped and crossed over a long history; unit tests of the tick helper use hand-made snapshots.',
  [L,S+'tick.rs',S+'position.rs'],
  [('fee growth inside',S+'tick.rs get_fee_growth_inside'),('growth-outside flip on crossing',S+'tick.rs cross'),('fee credit',S+'position.rs update'),('fee growth per swap step',L+' swap')],
  [('fee_growth_global_*','cumulative fee per unit of liquidity',S+'pool.rs'),('fee_growth_outside_*','growth on the far side of a tick',S+'tick.rs')],['amounts owed to and collected by each position'])
p('P06','Protocol fee is the configured share and only it can be withdrawn',
  'Each swap credits the protocol exactly the configured fraction (one over the configured denominator, rounded down per segment) of the fee of that swap, in the input token only, and the liquidity providers get the rest. Only a withdrawal by the current protocol owner reduces it, by exactly the amount paid out and never more than was accrued; the denominator is always between 2 and 10 and changing it affects only later swaps.',
  ['histories','inputs'],'every history of swaps, fee-share changes, ownership transfers and withdrawals over every pool',
  'There is no test of protocol fee accrual or collection in Rust; correctness is a property of sums over a history.',
  [L,C,S+'pool.rs',S+'factory.rs'],[('split of the step fee',L+' swap'),('withdrawal capped at the accrued amount',L+' collect_protocol'),('bounds on the share',L+' set_fee_protocol')],
  [('protocol_fees_token_*','accrued and uncollected protocol fees',S+'pool.rs'),('fee_protocol','denominator of the share',S+'factory.rs')],['pool account','recipient balances'])
p('P07','Tick table, bitmap and in-range liquidity mirror the set of positions',
  'At all times the gross liquidity recorded at a tick equals the sum of the liquidity of positions bounded by it, its net liquidity equals the sum over positions starting there minus the sum over positions ending there, its bitmap bit is set exactly when its gross liquidity is non-zero, and a tick no position uses is completely cleared. The pool\'s in-range liquidity equals the sum of the liquidity of exactly the positions whose range contains the current tick.',
  ['histories','inputs','configurations'],'every history of position changes and swaps, every tick spacing, including ticks sharing a word, negative ticks, extreme ticks and ticks on the current price',
  'The relation is between many accounts over a history; unit tests touch one tick or one word at a time.',
  [L,S+'tick.rs',S+'tick_bitmap.rs',S+'position.rs',M+'liquidity_math.rs'],[('tick update and clear',S+'tick.rs'),('bit flip',S+'tick_bitmap.rs flip_bit'),('in-range update',L+' _modify_position'),('crossing',L+' swap')],
  [('liquidity_gross, liquidity_net','per tick liquidity',S+'tick.rs'),('word','bitmap word',S+'tick_bitmap.rs')],['pool, tick, bitmap and position accounts'])
p('P08','Recorded tick always agrees with the price, and only swaps move either',
  'After every transaction the pool\'s tick is the greatest tick whose price does not exceed the current price, except that after a leftward crossing that stops exactly on a tick\'s price it is the tick just below; the price stays strictly inside the supported range. Only swaps change the price or the tick; creating, minting, burning, collecting and every other operation leave both unchanged, and a pool starts at exactly the price its creator asked for.',
  ['histories','inputs'],'every history of operations, including swaps that stop exactly on initialized and uninitialized ticks and at the extremes of the price range',
  'Tick/price agreement across swap steps that stop on a boundary is a property of the loop in the handler; unit tests check the conversion functions only.',
  [L,M+'tick_math.rs'],[('tick shift at a boundary',L+' swap'),('log conversion',M+'tick_math.rs')],[('sqrt_price_x32, tick','price and tick',S+'pool.rs')],['pool account'])
p('P09','Nobody can take or spend another party\'s value without their signature',
  'A committed transaction reduces a party\'s token balance, the liquidity or owed amounts of a position, or changes protocol ownership, fee tiers, the protocol fee share or protocol fee balance, only if that party (for a tokenized position its NFT holder or approved delegate, for protocol settings the current protocol owner) signed it. This holds whatever accounts, programs and data the transaction supplies, in whatever order, including accounts of other pools, look-alike accounts, swapped vaults and duplicated accounts; a pool pays out of a vault only against an equal reduction of a signer\'s claim or as the output of a paid swap.',
  ['inputs','programs','histories'],'every transaction an attacker can assemble out of existing accounts, forged accounts it creates, and its own signatures, at any point of any history',
  'Authorization is decided by account validation in handlers that no existing Rust test executes; the space of substituted accounts is combinatorial.',
  [L,C,AC,S+'pool.rs'],[('account constraints',C),('address validation',S+'pool.rs validate_*'),('NFT authorization',AC+' is_authorized_for_token'),('vault address checks',L+' mint, swap, collect')],[],['all token balances','all program accounts','transaction signatures'])
p('P10','Tokenized positions are isolated and fully backed',
  'The liquidity of all tokenized positions of a range never exceeds, and barring direct deposits equals, the liquidity the protocol custody position holds for that range, and each NFT can withdraw exactly the liquidity and principal it deposited plus the fees that liquidity earned, independent of what other NFT holders of the same range do. An NFT only ever acts on the pool and range it was minted for, and its liquidity can never be reduced below zero or withdrawn twice.',
  ['histories','schedules','inputs','programs'],'every interleaving of mint, increase, decrease and collect by several NFT holders sharing ranges, with NFT transfers and delegations, and with the accounts of other pools and ranges supplied',
  'Sharing of one custody position by several NFTs only shows in interleaved histories; there is no Rust test of the position manager.',
  [L,C,S+'tokenized_position.rs',AC],[('custody position owned by the factory address',L+' mint_tokenized_position'),('own fee growth snapshot',S+'tokenized_position.rs'),('principal credited on decrease',L+' decrease_liquidity'),('collection',L+' collect_from_tokenized')],
  [('liquidity, tokens_owed_*, fee_growth_inside_*','per NFT accounting',S+'tokenized_position.rs')],['tokenized position and core position accounts','holders\' balances'])
p('P11','Liquidity and swap output are only granted against full payment',
  'A mint or swap commits only if, by the end of it, the pool\'s vault has received at least the tokens owed, no matter which program is named to deliver the payment or whether it pays nothing, too little, in the wrong token, to the wrong vault, in several parts, too much, or fails. The program named to pay is asked for exactly the amounts owed. If payment is missing the whole operation is undone, and whatever is paid beyond what is owed gives the payer no claim.',
  ['programs','fault_sequences','inputs'],'every behaviour of the payment callback program and of the token program it calls (including failures at any call), for every mint and swap',
  'Needs adversarial callback programs and failing token transfers, which no existing test supplies.',
  [L,C],[('balance check after callback',L+' mint, swap'),('vault address check',L+' mint, swap'),('default payment callbacks',L+' mint_callback, swap_callback')],[],['vault balances before and after'])
p('P12','A pool is locked during an operation and always unlocked after it',
  'While an operation that calls out to another program is in progress on a pool, every re-entering operation on that pool that moves value or liquidity is rejected, whoever issues it; other pools are unaffected. After every committed or aborted transaction the pool is unlocked, so no operation, failure or abort point can leave it permanently locked.',
  ['programs','crash_points','fault_sequences','schedules'],'every re-entering call from a payment callback, and an abort at every point of every operation (compute exhaustion, failing inner call, failing check)',
  'Requires re-entering callbacks and aborts injected at each inner call; existing tests have neither.',
  [L],[('unlocked flag taken and released',L+' swap, mint, burn, collect, collect_protocol, increase_observation_cardinality_next')],[('unlocked','lock flag',S+'pool.rs')],['pool account during inner calls and after the transaction'])
p('P13','Oracle accumulators are the exact time integrals of tick and liquidity',
  'Each stored oracle observation equals the integral, from pool creation to its timestamp, of the tick in force and of the reciprocal of the in-range liquidity in force (with liquidity below one counted as one), so that the difference of two observations gives the true time-weighted average over the interval. A swap or position change uses the tick and liquidity that were in force before it, whichever slot is written, and however long the pool was idle.',
  ['histories','schedules','inputs'],'every sequence of swaps and position changes over time, any spacing of block timestamps, any number of observation slots',
  'Observation content depends on the whole preceding history and on the clock; the oracle module has no test at all.',
  [S+'oracle.rs',L,'README.md'],[('transform of the latest observation',S+'oracle.rs'),('observation written on swaps and in-range position changes',L+' swap, _modify_position')],
  [('tick_cumulative, seconds_per_liquidity_cumulative_x32','accumulators',S+'oracle.rs')],['observation accounts','block time'])
p('P14','Oracle ring keeps the newest observations in order and grows as paid for',
  'The pool always points at its most recent observation; walking the ring from there visits the stored observations in time order, and no slot outside the created ring is ever used. A write in a later 14-second partition goes to the slot after the current one (wrapping at the number of created slots) and a write in the same partition overwrites the current one, so each partition keeps one checkpoint and no checkpoint younger than a full turn of the ring is lost. Created slots never decrease and can always be extended further by anyone, and the recorded cardinality always lies between the number of slots in use and the number created.',
  ['histories','schedules'],'every interleaving of swaps, position changes and ring growth at any block times',
  'Ring position and cardinality evolve over a history of writes in different partitions; no test writes two observations.',
  [S+'oracle.rs',S+'pool.rs',L,'README.md'],[('next index',S+'pool.rs next_observation_index'),('partition test',L+' swap, _modify_position'),('cardinality growth',S+'oracle.rs update'),('slot creation',L+' increase_observation_cardinality_next')],
  [('observation_index, observation_cardinality, observation_cardinality_next','ring bookkeeping',S+'pool.rs')],['observation and pool accounts'])
p('P15','Range snapshots measure exactly the time spent inside a range',
  'For a range bounded by two initialized ticks, the difference of two snapshots taken while a position exists on it equals the seconds the pool\'s tick spent inside the range, the integral of the tick over those seconds and the integral of the reciprocal of in-range liquidity over those seconds. This is unaffected by how often ticks were crossed, by other positions, or by the ticks having been cleared and re-initialized before the first snapshot.',
  ['histories','schedules'],'every history of swaps crossing range boundaries, position changes and idle times between two snapshots',
  'The inside/outside bookkeeping spans ticks, oracle and clock over a history; tests use hand-written tick values.',
  [S+'pool.rs',S+'tick.rs',S+'oracle.rs',L],[('snapshot',S+'pool.rs snapshot_cumulatives_inside'),('outside values at initialization and crossing',S+'tick.rs update, cross')],
  [('seconds_outside, tick_cumulative_outside, seconds_per_liquidity_outside_x32','time on the far side of a tick',S+'tick.rs')],['tick, pool and observation accounts'])
p('P16','Pools do not affect one another',
  'An operation changes only the pool it names, that pool\'s own accounts and vaults, and the participants\' token accounts. Operations on different pools commute: executing them in either order yields the same final state, also when the pools share a token, a fee tier, participants or a position range.',
  ['schedules','histories'],'every pair of concurrent operations on different pools, in both orders, at every point of a history',
  'Commutation is a statement about pairs of interleavings; no test holds two pools.',
  [L,C,S+'pool.rs'],[('addresses derived from pool tokens and fee',S+'pool.rs validate_*'),('account constraints',C)],[],['whole ledger'])
p('P17','Liquidity providers can always exit',
  'At any point of any history, whatever others have done, the owner of a position or NFT can remove all its liquidity and collect everything owed to it with transactions only it signs, using account addresses derivable from the pool (re-creating closed tick accounts first where someone closed them); no other party\'s action (closing tick accounts, filling the oracle, draining other positions, changing protocol settings, pausing or moving the price to an extreme) can prevent it. What it receives is at least its share of principal at the current price rounded down, plus its earned fees up to dust.',
  ['histories','schedules','fault_sequences'],'every reachable state and every order of exits, after every kind of interference other parties can sign for themselves',
  'Liveness of exits from every reachable state needs histories with hostile parties; there is no test of burn or collect.',
  [L,C,S+'tick.rs',S+'position.rs'],[('burn and collect need only the owner\'s signature',C+' BurnContext, CollectContext'),('tick accounts closable only when clear',C+' CloseTickAccount')],[],['success of burn and collect','owner balances'])
p('P18','Correctly built swaps and deposits go through once faults stop',
  'A swap, mint or ring-growth transaction built against the current state by a funded party, with the accounts the walk needs, succeeds; one rejected because the state moved succeeds after being rebuilt against the new state. In particular no block time, oracle state, price position, uninitialized or exhausted bitmap word, or previously failed transaction makes a pool unusable, and exact-output trades work in both directions for every amount the liquidity can serve.',
  ['histories','schedules','fault_sequences','inputs'],'every reachable pool state, once message delay, reordering, loss and aborts stop',
  'Progress after arbitrary histories and faults cannot be sampled by unit tests of helpers.',
  [L,S+'pool.rs',S+'oracle.rs',S+'tick_bitmap.rs',M+'sqrt_price_math.rs'],[('account consumption order',L+' swap'),('uninitialized bitmap handling',L+' swap'),('ring growth',L+' increase_observation_cardinality_next')],[],['transaction results'])
p('P19','Accounts are initialized once, keep their identity, and close only when unused',
  'Protocol, fee tier, pool, observation, tick, bitmap, position and NFT records can be created only once, at the address derived from their identity and with parameters in the documented bounds (tick multiple of the spacing and inside the range, lower below upper, tokens in address order, fee below 100%, valid starting price), and their identity (tokens, fee, spacing, tick, word, index, NFT and range) never changes afterwards. Only a tick record that no position references can be closed, its rent goes to the named recipient, and the tick can be created again and used as if new.',
  ['histories','inputs','programs'],'every sequence of create, use, close and re-create by any parties with any parameters',
  'Creation guards are in account constraints which only run inside instructions; re-creation after close needs a history.',
  [C,L,S+'tick.rs',S+'fee.rs',S+'factory.rs'],[('init constraints',C),('tick checks',L+' check_tick, check_ticks'),('clear check before close',C+' CloseTickAccount')],[],['program accounts'])
p('P20','Every event emitted states what actually happened',
  'For every committed operation exactly one event of its kind is emitted for it, and its fields (pool, parties, range, liquidity, token amounts, resulting price, liquidity and tick, old and new settings) equal the actual change of state and balances in that transaction. Replaying the events alone therefore reconstructs pool prices, positions\' liquidity and amounts paid.',
  ['histories','inputs'],'every committed operation in every history',
  'No test reads events; their truth is relative to the state change of a real execution.',
  [L,S+'pool.rs',S+'position.rs',S+'factory.rs',S+'oracle.rs',S+'tokenized_position.rs'],[('emit! at the end of each handler',L)],[],['program log','state before and after'])
p('P21','Execution is a deterministic function of the ledger, the clock and the input',
  'Executing the same transaction on the same ledger state at the same block time gives the same result, byte for byte, on every replica and after every fork, rollback or restart, regardless of what was executed before on a discarded fork, in another process or in an earlier failed attempt. A failed or aborted transaction changes nothing.',
  ['schedules','crash_points','fault_sequences','histories'],'every fork, rollback, re-delivery, abort point and replica order',
  'Replica divergence shows only when the same history is executed more than once under different prior executions.',
  [L,S+'oracle.rs'],[('handlers depend on accounts and the clock sysvar only',L)],[],['whole ledger'])
p('P22','Each position NFT is unique and its supply never exceeds one',
  'Creating a tokenized position mints exactly one indivisible token of a fresh mint to the named recipient and binds it to exactly one position record; nobody, the protocol owner included, can ever mint another, and attaching metadata is cosmetic: it changes no position, balance or right other than permanently disabling further minting. Metadata can be attached at most once and by anyone.',
  ['histories','programs'],'every sequence of NFT creation, metadata attachment, transfer, delegation and hostile mint attempts',
  'Needs the token and metadata programs and hostile transactions; there is no Rust test of either instruction.',
  [L,C],[('mint created with zero decimals and custody authority',C+' MintTokenizedPosition'),('mint authority revoked',L+' add_metaplex_metadata')],[],['mint supply and authority','NFT token accounts','metadata account'])
p('P23','Deposits and withdrawals trade liquidity at exactly its worth at the price',
  'Adding liquidity takes exactly what that liquidity is worth at the pool\'s current price, rounded up by less than two indivisible units of each token, and removing liquidity credits exactly what it is worth, rounded down by less than two: only the first token while the price is below the range, only the second at or above its top, and both in the proportion the price sets inside it. Adding through the position manager credits the largest liquidity the desired amounts buy by the published formula. So while the price rests, putting liquidity in and taking it out never gains anything and loses at most the rounding, and splitting a deposit or withdrawal into parts changes what is paid only by the rounding.',
  ['inputs','histories'],'every amount, range and reachable price, including prices exactly on a bound, just beside one, and at the extremes of the supported range',
  'Unit tests sample the amount helpers with round prices; that the handlers pick the right side, price and rounding for every range and state is not executed by any test.',
  [L,M+'sqrt_price_math.rs',M+'liquidity_amounts.rs',M+'tick_math.rs'],[('amounts by side of the range',L+' _modify_position'),('rounding by sign of the change',M+'sqrt_price_math.rs'),('liquidity from desired amounts',L+' add_liquidity')],
  [('tokens_owed_*','principal credited on removal',S+'position.rs')],['payer and vault balances','position accounts'])
p('P24','What is owed is paid exactly once, in full on request, where asked',
  'Collecting pays the smaller of what was requested and what is owed, of each token, to the recipient accounts named and nobody else, and reduces what is owed by exactly what it paid, so that the remainder stays collectable and nothing is paid twice. This holds for core positions, for the protocol\'s share, and for tokenized positions, whose payment may fall short only by custody rounding dust. What is owed to a position grows only by the principal it removed and the fees it earned; nothing else ever changes it, however often it is refreshed or by whom.',
  ['histories','inputs','schedules'],'every interleaving of removals, refreshes, partial and full collections by any parties, with requests of zero, one, exactly the amount owed, more, and the largest number',
  'Exactly-once payment is a relation over a history of real executions and token transfers; no Rust test executes a collection.',
  [L,S+'position.rs',S+'tokenized_position.rs',S+'pool.rs'],[('capped request, owed reduced before transfer',L+' collect, collect_protocol, collect_from_tokenized'),('owed credited',S+'position.rs update')],
  [('tokens_owed_*','amounts a position can collect',S+'position.rs'),('protocol_fees_token_*','uncollected protocol fees',S+'pool.rs')],['recipient and vault balances','position accounts'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
