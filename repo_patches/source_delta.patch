From d15965fbbc7d35433e410095635c3fb11d7ec534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 01/13] fix: extend the oracle from the last observation, with
 the tick in force before the change

A new observation was computed from the stale account about to be reused
instead of the last one, swaps recorded the tick they ended at for the whole
elapsed time and never advanced observation_index, and the grown cardinality
was stored into observation_cardinality_next, so the ring never grew and a
requested growth could be undone.
---
 programs/core/src/lib.rs           | 11 ++++++++---
 programs/core/src/states/oracle.rs | 17 ++++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6c2171a..3cbfd9e 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1276,6 +1276,7 @@ pub mod cyclos_core {
         }
         let partition_current_timestamp = cache.block_timestamp / 14;
         let partition_last_timestamp = latest_observation.block_timestamp / 14;
+        let last_observation = *latest_observation;
         drop(latest_observation);
 
         // update tick and write an oracle entry if the tick changes
@@ -1301,14 +1302,16 @@ pub mod cyclos_core {
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.tick = state.tick;
-            pool.observation_cardinality_next = next_observation.update(
+            pool.observation_cardinality = next_observation.update(
+                last_observation,
                 cache.block_timestamp,
                 pool.tick,
                 cache.liquidity_start,
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.observation_index = next_observation.index;
+            pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
@@ -2206,6 +2209,7 @@ pub fn _modify_position<'info>(
             let timestamp = oracle::_block_timestamp();
             let partition_current_timestamp = timestamp / 14;
             let partition_last_timestamp = latest_observation.block_timestamp / 14;
+            let last_observation = *latest_observation;
             drop(latest_observation);
 
             let next_observation_state;
@@ -2224,7 +2228,8 @@ pub fn _modify_position<'info>(
                 last_observation_state.load_mut()?
             };
 
-            pool_state.observation_cardinality_next = new_observation.update(
+            pool_state.observation_cardinality = new_observation.update(
+                last_observation,
                 timestamp,
                 pool_state.tick,
                 pool_state.liquidity,
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index 8614b3a..f0a3fbe 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -79,27 +79,34 @@ impl ObservationState {
     /// # Arguments
     ///
     /// * `self` - The observation account to write in
+    /// * `last` - The most recently written observation, same as `self` if it is being overwritten
     /// * `block_timestamp` - The timestamp of the new observation
-    /// * `tick` - The active tick at the time of the new observation
-    /// * `liquidity` - The total in-range liquidity at the time of the new observation
+    /// * `tick` - The tick that was active since the last observation
+    /// * `liquidity` - The in-range liquidity that was active since the last observation
     /// * `cardinality` - The number of populated elements in the oracle array
     /// * `cardinality_next` - The new length of the oracle array, independent of population
     ///
     pub fn update(
         &mut self,
+        last: ObservationState,
         block_timestamp: u32,
         tick: i32,
         liquidity: u64,
         cardinality: u16,
         cardinality_next: u16,
     ) -> u16 {
-        if self.block_timestamp == block_timestamp {
+        if last.block_timestamp == block_timestamp {
             return cardinality;
         }
 
-        *self = self.transform(block_timestamp, tick, liquidity);
+        // the account being written keeps its own identity
+        *self = ObservationState {
+            bump: self.bump,
+            index: self.index,
+            ..last.transform(block_timestamp, tick, liquidity)
+        };
 
-        if cardinality_next > cardinality && self.index == (cardinality - 1) {
+        if cardinality_next > cardinality && self.index == cardinality {
             cardinality_next
         } else {
             cardinality
-- 
2.43.0


From b30a7bc366bc585dfbff170493747c8caacaded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 02/13] fix: exact input swaps compare and forward the amount
 received

The router returned the increase of the input vault, so amount_out_minimum was
compared with the amount paid in, and the next hop of a route spent the first
hop's input amount instead of its output.
---
 programs/core/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 3cbfd9e..315b852 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2086,7 +2086,7 @@ pub mod cyclos_core {
     // }
 }
 
-/// Performs a single exact input swap
+/// Performs a single exact input swap, returning the amount paid out by the pool
 pub fn exact_input_internal<'info>(
     accounts: &mut SwapContext<'info>,
     remaining_accounts: &[AccountInfo<'info>],
@@ -2096,7 +2096,7 @@ pub fn exact_input_internal<'info>(
     let pool_state = AccountLoader::<PoolState>::try_from(&accounts.pool_state)?;
     let zero_for_one = accounts.input_vault.mint == pool_state.load()?.token_0;
 
-    let balance_before = accounts.input_vault.amount;
+    let balance_before = accounts.output_vault.amount;
     swap(
         Context::new(&ID, accounts, remaining_accounts, BTreeMap::default()),
         i64::try_from(amount_in).unwrap(),
@@ -2111,8 +2111,8 @@ pub fn exact_input_internal<'info>(
         },
     )?;
 
-    accounts.input_vault.reload()?;
-    Ok(accounts.input_vault.amount - balance_before)
+    accounts.output_vault.reload()?;
+    Ok(balance_before - accounts.output_vault.amount)
 }
 
 /// Common checks for a valid tick input.
-- 
2.43.0


From 023a6a96e2a89dab501e692853f7ceb77d4fd5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 03/13] fix: BurnEvent reports the upper tick of the position

It repeated the lower tick.
---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 315b852..58088fc 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -794,7 +794,7 @@ pub mod cyclos_core {
             pool_state: ctx.accounts.pool_state.key(),
             owner: ctx.accounts.owner.key(),
             tick_lower: tick_lower.tick,
-            tick_upper: tick_lower.tick,
+            tick_upper: tick_upper.tick,
             amount,
             amount_0,
             amount_1,
-- 
2.43.0


From 19d6aeb60ee001e6f907f69b0db4904e4ad072c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 04/13] fix: collect pays each token out of its own vault

The vaults were not validated, so an owner could exchange them (or name another
account of the pool) and withdraw the amount owed in one token from the other
token's vault.
---
 programs/core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 58088fc..8430352 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -825,6 +825,15 @@ pub mod cyclos_core {
             AccountLoader::<PoolState>::try_from(&ctx.accounts.pool_state.to_account_info())?;
         let mut pool = pool_state.load_mut()?;
 
+        assert!(
+            ctx.accounts.vault_0.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_0)
+        );
+        assert!(
+            ctx.accounts.vault_1.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_1)
+        );
+
         let tick_lower_state =
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?;
         let tick_lower = *tick_lower_state.load()?.deref();
-- 
2.43.0


From 05bb82f602cc7f9a291a1fde770f479c500ea4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 05/13] fix: the payment check of mint cannot wrap around

balance_before + amount wrapped in release builds, so a deposit of nearly 2^64
tokens into a funded vault passed without any payment.
---
 programs/core/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 8430352..949a2b0 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -667,13 +667,15 @@ pub mod cyclos_core {
 
         if amount_0 > 0 {
             require!(
-                balance_0_before + amount_0 <= ctx.accounts.vault_0.amount,
+                balance_0_before.checked_add(amount_0).unwrap()
+                    <= ctx.accounts.vault_0.amount,
                 ErrorCode::M0
             );
         }
         if amount_1 > 0 {
             require!(
-                balance_1_before + amount_1 <= ctx.accounts.vault_1.amount,
+                balance_1_before.checked_add(amount_1).unwrap()
+                    <= ctx.accounts.vault_1.amount,
                 ErrorCode::M1
             );
         }
-- 
2.43.0


From 44adfc88cbec790f87aa9dba747d1b839d72de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 06/13] fix: the cost of an exact output swap step cannot wrap
 around

amount_in + fee_amount wrapped in release builds when the sum passed 2^64, so
the swap was charged only the remainder.
---
 programs/core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 949a2b0..236a4da 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1201,7 +1201,10 @@ pub mod cyclos_core {
                 state.amount_specified_remaining += i64::try_from(step.amount_out).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
-                    .checked_add(i64::try_from(step.amount_in + step.fee_amount).unwrap())
+                    .checked_add(
+                        i64::try_from(step.amount_in.checked_add(step.fee_amount).unwrap())
+                            .unwrap(),
+                    )
                     .unwrap();
             }
 
-- 
2.43.0


From 3e76ecdbc85ee9b5d46ad4a20d119b6ce46c5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 07/13] fix: exact output swaps of token_0 work where amount *
 price exceeds 64 bits

The product was computed in u64 and the swap panicked although numerator_1 is a
U128 and the reserves cover the amount, e.g. 2^32 tokens at a price of 1.
---
 programs/core/src/libraries/sqrt_price_math.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/libraries/sqrt_price_math.rs b/programs/core/src/libraries/sqrt_price_math.rs
index 0452d87..8c6ab6c 100644
--- a/programs/core/src/libraries/sqrt_price_math.rs
+++ b/programs/core/src/libraries/sqrt_price_math.rs
@@ -73,10 +73,9 @@ pub fn get_next_sqrt_price_from_amount_0_rounding_up(
         )
         .as_u64()
     } else {
-        // if the product overflows, we know the denominator underflows
-        // in addition, we must check that the denominator does not underflow
-        // assert!(product / amount == sqrt_p_x32 && numerator_1 > product);
-        let product = U128::from(amount.checked_mul(sqrt_p_x32).unwrap());
+        // the product of two u64 values always fits in U128, so we only need to check
+        // that the denominator does not underflow
+        let product = U128::from(amount) * U128::from(sqrt_p_x32);
         assert!(numerator_1 > product);
 
         let denominator = numerator_1 - product;
-- 
2.43.0


From 3880f8da237b4d33ae4eb85d9866ec39b9522be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 08/13] fix: an NFT holder cannot withdraw more liquidity than
 the NFT records

All NFTs of a range share one core position. decrease_liquidity only compared
the amount with that total and let the NFT's own liquidity wrap around, so one
holder could withdraw the liquidity of the others.
---
 programs/core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 236a4da..85fe74e 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1760,6 +1760,10 @@ pub mod cyclos_core {
         deadline: i64,
     ) -> Result<()> {
         assert!(liquidity > 0);
+        require!(
+            liquidity <= ctx.accounts.tokenized_position_state.load()?.liquidity,
+            ErrorCode::LS
+        );
 
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
-- 
2.43.0


From be0841b7c4bfa54d1e99246c6f01be21f355ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 09/13] fix: an NFT only operates on the pool and tick range it
 was minted for

increase_liquidity, decrease_liquidity and collect_from_tokenized checked the
core position against the passed ticks but never the NFT against either, so the
holder of a cheap NFT could withdraw another range's or pool's liquidity.
---
 programs/core/src/lib.rs                      | 26 +++++++++++++++++++
 .../core/src/states/tokenized_position.rs     | 22 ++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 85fe74e..c2d1cc8 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1677,6 +1677,11 @@ pub mod cyclos_core {
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
         let tick_upper = tick_upper_state.load()?.tick;
 
+        ctx.accounts
+            .tokenized_position_state
+            .load()?
+            .validate_position(&pool_state.key(), tick_lower, tick_upper)?;
+
         let mut accs = MintContext {
             minter: ctx.accounts.payer.clone(),
             token_account_0: ctx.accounts.token_account_0.clone(),
@@ -1760,6 +1765,18 @@ pub mod cyclos_core {
         deadline: i64,
     ) -> Result<()> {
         assert!(liquidity > 0);
+        ctx.accounts
+            .tokenized_position_state
+            .load()?
+            .validate_position(
+                &ctx.accounts.pool_state.key(),
+                AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                    .load()?
+                    .tick,
+                AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                    .load()?
+                    .tick,
+            )?;
         require!(
             liquidity <= ctx.accounts.tokenized_position_state.load()?.liquidity,
             ErrorCode::LS
@@ -1847,6 +1864,15 @@ pub mod cyclos_core {
         assert!(amount_0_max > 0 || amount_1_max > 0);
 
         let mut tokenized_position = ctx.accounts.tokenized_position_state.load_mut()?;
+        tokenized_position.validate_position(
+            &ctx.accounts.pool_state.key(),
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?
+                .load()?
+                .tick,
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?
+                .load()?
+                .tick,
+        )?;
         let mut tokens_owed_0 = tokenized_position.tokens_owed_0;
         let mut tokens_owed_1 = tokenized_position.tokens_owed_1;
 
diff --git a/programs/core/src/states/tokenized_position.rs b/programs/core/src/states/tokenized_position.rs
index 6b5f295..55969ad 100644
--- a/programs/core/src/states/tokenized_position.rs
+++ b/programs/core/src/states/tokenized_position.rs
@@ -39,6 +39,28 @@ pub struct TokenizedPositionState {
     pub tokens_owed_1: u64,
 }
 
+impl TokenizedPositionState {
+    /// Validates that the NFT stands for a position in the given pool and tick range
+    ///
+    /// # Arguments
+    ///
+    /// * `pool_id` - The address of the pool
+    /// * `tick_lower` - The lower tick of the core position
+    /// * `tick_upper` - The upper tick of the core position
+    ///
+    pub fn validate_position(
+        &self,
+        pool_id: &Pubkey,
+        tick_lower: i32,
+        tick_upper: i32,
+    ) -> Result<()> {
+        let own_pool_id = self.pool_id;
+        assert!(own_pool_id == *pool_id);
+        assert!(self.tick_lower == tick_lower && self.tick_upper == tick_upper);
+        Ok(())
+    }
+}
+
 /// Emitted when liquidity is increased for a position NFT.
 /// Also emitted when a token is minted
 #[event]
-- 
2.43.0


From 1a1a41bf7051e4d9dd9c9fda40747e762721ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 10/13] fix: decrease_liquidity credits an NFT with its
 principal and its own fees only

The difference in tokens_owed of the shared core position also contains the
fees of every other NFT of the range; it was credited to the caller, on top of
its own fees, and it satisfied the caller's minimum amounts.
---
 programs/core/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index c2d1cc8..849f53c 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1785,8 +1785,7 @@ pub mod cyclos_core {
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
-        let tokens_owed_0_before = position_state.load()?.tokens_owed_0;
-        let tokens_owed_1_before = position_state.load()?.tokens_owed_1;
+        let core_position_before = *position_state.load()?.deref();
 
         let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
         core_position_owner.is_signer = true;
@@ -1810,8 +1809,20 @@ pub mod cyclos_core {
             liquidity,
         )?;
         let updated_core_position = accounts.position_state.load()?;
-        let amount_0 = updated_core_position.tokens_owed_0 - tokens_owed_0_before;
-        let amount_1 = updated_core_position.tokens_owed_1 - tokens_owed_1_before;
+        // the burn also credits the core position with the fees earned by all NFTs of this range,
+        // only the rest is principal
+        let fees_0 = (updated_core_position.fee_growth_inside_0_last_x32
+            - core_position_before.fee_growth_inside_0_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let fees_1 = (updated_core_position.fee_growth_inside_1_last_x32
+            - core_position_before.fee_growth_inside_1_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let amount_0 =
+            updated_core_position.tokens_owed_0 - core_position_before.tokens_owed_0 - fees_0;
+        let amount_1 =
+            updated_core_position.tokens_owed_1 - core_position_before.tokens_owed_1 - fees_1;
         require!(
             amount_0 >= amount_0_min && amount_1 >= amount_1_min,
             ErrorCode::PriceSlippageCheck
-- 
2.43.0


From c251a2202bf0138f29e7315954a5340dbc036eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 11/13] fix: swaps work where filling the whole price range
 would take 2^64 tokens

compute_swap_step first asks for the amount that moves the price to its target,
up to 256 ticks away, and panicked when that amount did not fit in 64 bits, even
if the swap itself was for a few tokens.
---
 .../core/src/libraries/sqrt_price_math.rs     | 40 ++++++++++++++-----
 programs/core/src/libraries/swap_math.rs      | 15 ++++---
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/programs/core/src/libraries/sqrt_price_math.rs b/programs/core/src/libraries/sqrt_price_math.rs
index 8c6ab6c..fc9157f 100644
--- a/programs/core/src/libraries/sqrt_price_math.rs
+++ b/programs/core/src/libraries/sqrt_price_math.rs
@@ -209,11 +209,23 @@ pub fn get_next_sqrt_price_from_output(
 /// * `round_up`- Whether to round the amount up or down
 ///
 pub fn get_amount_0_delta_unsigned(
+    sqrt_ratio_a_x32: u64,
+    sqrt_ratio_b_x32: u64,
+    liquidity: u64,
+    round_up: bool,
+) -> u64 {
+    checked_amount_0_delta_unsigned(sqrt_ratio_a_x32, sqrt_ratio_b_x32, liquidity, round_up)
+        .unwrap()
+}
+
+/// Same as `get_amount_0_delta_unsigned()`, or `None` if the amount does not fit in 64 bits
+///
+pub fn checked_amount_0_delta_unsigned(
     mut sqrt_ratio_a_x32: u64,
     mut sqrt_ratio_b_x32: u64,
     liquidity: u64,
     round_up: bool,
-) -> u64 {
+) -> Option<u64> {
     // sqrt_ratio_a_x32 should hold the smaller value
     if sqrt_ratio_a_x32 > sqrt_ratio_b_x32 {
         std::mem::swap(&mut sqrt_ratio_a_x32, &mut sqrt_ratio_b_x32);
@@ -224,21 +236,20 @@ pub fn get_amount_0_delta_unsigned(
 
     assert!(sqrt_ratio_a_x32 > 0);
 
-    if round_up {
+    let amount = if round_up {
         U128::div_rounding_up(
             numerator_1
                 .mul_div_ceil(numerator_2, U128::from(sqrt_ratio_b_x32))
                 .unwrap(),
             U128::from(sqrt_ratio_a_x32),
         )
-        .as_u64()
     } else {
-        (numerator_1
+        numerator_1
             .mul_div_floor(numerator_2, U128::from(sqrt_ratio_b_x32))
             .unwrap()
-            / U128::from(sqrt_ratio_a_x32))
-        .as_u64()
-    }
+            / U128::from(sqrt_ratio_a_x32)
+    };
+    u64::try_from(amount).ok()
 }
 
 /// Gets the amount_1 delta between two prices, for given amount of liquidity (formula 6.30)
@@ -255,11 +266,23 @@ pub fn get_amount_0_delta_unsigned(
 /// * `round_up`- Whether to round the amount up or down
 ///
 pub fn get_amount_1_delta_unsigned(
+    sqrt_ratio_a_x32: u64,
+    sqrt_ratio_b_x32: u64,
+    liquidity: u64,
+    round_up: bool,
+) -> u64 {
+    checked_amount_1_delta_unsigned(sqrt_ratio_a_x32, sqrt_ratio_b_x32, liquidity, round_up)
+        .unwrap()
+}
+
+/// Same as `get_amount_1_delta_unsigned()`, or `None` if the amount does not fit in 64 bits
+///
+pub fn checked_amount_1_delta_unsigned(
     mut sqrt_ratio_a_x32: u64,
     mut sqrt_ratio_b_x32: u64,
     liquidity: u64,
     round_up: bool,
-) -> u64 {
+) -> Option<u64> {
     // sqrt_ratio_a_x32 should hold the smaller value
     if sqrt_ratio_a_x32 > sqrt_ratio_b_x32 {
         std::mem::swap(&mut sqrt_ratio_a_x32, &mut sqrt_ratio_b_x32);
@@ -270,7 +293,6 @@ pub fn get_amount_1_delta_unsigned(
     } else {
         liquidity.mul_div_floor(sqrt_ratio_b_x32 - sqrt_ratio_a_x32, fixed_point_32::Q32)
     }
-    .unwrap()
 }
 
 /// Helper function to get signed token_0 delta between two prices,
diff --git a/programs/core/src/libraries/swap_math.rs b/programs/core/src/libraries/swap_math.rs
index 63680f1..bfe3c14 100644
--- a/programs/core/src/libraries/swap_math.rs
+++ b/programs/core/src/libraries/swap_math.rs
@@ -50,21 +50,23 @@ pub fn compute_swap_step(
             .mul_div_floor((1_000_000 - fee_pips).into(), 1_000_000)
             .unwrap();
 
+        // an amount that does not fit in 64 bits is out of reach of amount_remaining, which is an i64
         swap_step.amount_in = if zero_for_one {
-            sqrt_price_math::get_amount_0_delta_unsigned(
+            sqrt_price_math::checked_amount_0_delta_unsigned(
                 sqrt_ratio_target_x32,
                 sqrt_ratio_current_x32,
                 liquidity,
                 true,
             )
         } else {
-            sqrt_price_math::get_amount_1_delta_unsigned(
+            sqrt_price_math::checked_amount_1_delta_unsigned(
                 sqrt_ratio_current_x32,
                 sqrt_ratio_target_x32,
                 liquidity,
                 true,
             )
-        };
+        }
+        .unwrap_or(u64::MAX);
         swap_step.sqrt_ratio_next_x32 = if amount_remaining_less_fee >= swap_step.amount_in {
             sqrt_ratio_target_x32
         } else {
@@ -78,20 +80,21 @@ pub fn compute_swap_step(
     } else {
         // round down amount_out
         swap_step.amount_out = if zero_for_one {
-            sqrt_price_math::get_amount_1_delta_unsigned(
+            sqrt_price_math::checked_amount_1_delta_unsigned(
                 sqrt_ratio_target_x32,
                 sqrt_ratio_current_x32,
                 liquidity,
                 false,
             )
         } else {
-            sqrt_price_math::get_amount_0_delta_unsigned(
+            sqrt_price_math::checked_amount_0_delta_unsigned(
                 sqrt_ratio_current_x32,
                 sqrt_ratio_target_x32,
                 liquidity,
                 false,
             )
-        };
+        }
+        .unwrap_or(u64::MAX);
         // In exact output case, amount_remaining is negative
         swap_step.sqrt_ratio_next_x32 = if (-amount_remaining as u64) >= swap_step.amount_out {
             sqrt_ratio_target_x32
-- 
2.43.0


From b94cc5cb5b7a02b71bc04b999842e80d023213db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 12/13] fix: lamports at the address of the next observation do
 not block the growth of the ring

increase_observation_cardinality_next created the account with create_account,
which fails for an address that holds lamports: anyone could stop the ring of a
pool from growing for good by sending one lamport to the next slot's address.
---
 programs/core/src/lib.rs | 59 ++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 849f53c..4611e5d 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -18,7 +18,7 @@ use crate::{
 };
 use anchor_lang::prelude::*;
 use anchor_lang::solana_program;
-use anchor_lang::solana_program::system_instruction::create_account;
+use anchor_lang::solana_program::system_instruction::{allocate, assign, create_account, transfer};
 use anchor_lang::{solana_program::instruction::Instruction, InstructionData};
 use anchor_spl::associated_token::get_associated_token_address;
 use anchor_spl::token;
@@ -225,23 +225,46 @@ pub mod cyclos_core {
             let space = 8 + size_of::<ObservationState>();
             let rent = Rent::get()?;
             let lamports = rent.minimum_balance(space);
-            let ix = create_account(
-                ctx.accounts.payer.key,
-                &ctx.remaining_accounts[i].key,
-                lamports,
-                space as u64,
-                ctx.program_id,
-            );
-
-            solana_program::program::invoke_signed(
-                &ix,
-                &[
-                    ctx.accounts.payer.to_account_info(),
-                    ctx.remaining_accounts[i].to_account_info(),
-                    ctx.accounts.system_program.to_account_info(),
-                ],
-                &[&observation_account_seeds[..]],
-            )?;
+            // lamports sent to the address beforehand must not block the growth of the ring,
+            // so a funded address is topped up, allocated and assigned instead of created
+            let observation_account = ctx.remaining_accounts[i].to_account_info();
+            let funded = observation_account.lamports();
+            let ixs = if funded == 0 {
+                vec![create_account(
+                    ctx.accounts.payer.key,
+                    observation_account.key,
+                    lamports,
+                    space as u64,
+                    ctx.program_id,
+                )]
+            } else {
+                let mut ixs = vec![
+                    allocate(observation_account.key, space as u64),
+                    assign(observation_account.key, ctx.program_id),
+                ];
+                if funded < lamports {
+                    ixs.insert(
+                        0,
+                        transfer(
+                            ctx.accounts.payer.key,
+                            observation_account.key,
+                            lamports - funded,
+                        ),
+                    );
+                }
+                ixs
+            };
+            for ix in &ixs {
+                solana_program::program::invoke_signed(
+                    ix,
+                    &[
+                        ctx.accounts.payer.to_account_info(),
+                        observation_account.clone(),
+                        ctx.accounts.system_program.to_account_info(),
+                    ],
+                    &[&observation_account_seeds[..]],
+                )?;
+            }
 
             let observation_state_loader = AccountLoader::<ObservationState>::try_from_unchecked(
                 &cyclos_core::id(),
-- 
2.43.0


From 0d4df8221653957fde6ef35158d9b55bf33be5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 13/13] fix: an observation is only created at the canonical
 address of its index

With another bump a slot ended up at an address that clients do not derive, so
the swaps and position changes that had to write it could not be built.
---
 programs/core/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 4611e5d..48e42cc 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -212,13 +212,13 @@ pub mod cyclos_core {
                 &[observation_account_bumps[i]],
             ];
 
+            // the address is unique for the index only with the canonical bump
             require!(
-                ctx.remaining_accounts[i].key()
-                    == Pubkey::create_program_address(
-                        &observation_account_seeds[..],
+                (ctx.remaining_accounts[i].key(), observation_account_bumps[i])
+                    == Pubkey::find_program_address(
+                        &observation_account_seeds[..5],
                         &ctx.program_id
-                    )
-                    .unwrap(),
+                    ),
                 ErrorCode::OS
             );
 
-- 
2.43.0

