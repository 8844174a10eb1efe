From 8b4c03630479156f8b52d1a7a9eabb1cbb5f65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:43 +0000
Subject: [PATCH 1/9] fix: a swap step never moves the price past its target
 nor takes more than the amount after fee

get_delta_x rounds the cost of reaching the target up, so an input just below that cost could push
the price below the target tick (leaving the tick uncrossed) or be charged above the amount given.
---
 contracts/oraiswap-v3/src/math/clamm.rs | 14 ++++++++++++--
 wasm/clamm.rs                           | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..6fcab85 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -31,11 +31,12 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
+    let mut amount_after_fee = amount;
 
     if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+        amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
         amount_in = (if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
@@ -52,6 +53,10 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             )?;
+            // the cost of reaching the target is rounded up, so the price could pass the target
+            if x_to_y && next_sqrt_price < target_sqrt_price {
+                next_sqrt_price = target_sqrt_price
+            }
         };
     } else {
         amount_out = (if x_to_y {
@@ -86,6 +91,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount after fee
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..d4941f4 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -43,11 +43,12 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
+    let mut amount_after_fee = amount;
 
     if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+        amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
@@ -64,6 +65,10 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // the cost of reaching the target is rounded up, so the price could pass the target
+            if x_to_y && next_sqrt_price < target_sqrt_price {
+                next_sqrt_price = target_sqrt_price
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -122,6 +127,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount after fee
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
-- 
2.43.0


From 86f4a53622ce6d8a865788ace08b9b7bfabe0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:13 +0000
Subject: [PATCH 2/9] fix: cross the tick a rising swap stops at when its price
 equals the price limit

Otherwise the pool's current tick becomes that tick while its liquidity change is never applied.
---
 contracts/oraiswap-v3/src/state.rs | 2 +-
 wasm/collections/tickmap.rs        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..4d9234e 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -382,7 +382,7 @@ pub fn get_closer_limit(
     };
 
     let sqrt_price = calculate_sqrt_price(index)?;
-    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
+    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price <= sqrt_price_limit) {
         Ok((sqrt_price, Some((index, is_initialized))))
     } else {
         Ok((sqrt_price_limit, None))
diff --git a/wasm/collections/tickmap.rs b/wasm/collections/tickmap.rs
index 80cd654..5e690c5 100644
--- a/wasm/collections/tickmap.rs
+++ b/wasm/collections/tickmap.rs
@@ -230,7 +230,7 @@ impl Tickmap {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
@@ -246,7 +246,7 @@ impl Tickmap {
                 }
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, false))))
                 } else {
-- 
2.43.0


From 62e106ffacaa2cf6ad9396835a9bf44d91bd5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:43 +0000
Subject: [PATCH 3/9] fix: a swap down that cannot move the price keeps the
 tick it already crossed

After crossing a tick into deeper liquidity the rest of the input may not change the price; the current
tick was then set back to the crossed tick although its liquidity change had been applied.
---
 contracts/oraiswap-v3/src/storage/pool.rs | 9 ++++++++-
 wasm/storage/pool.rs                      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 0640cf1..e0d3534 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -139,9 +139,16 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index =
+            let tick_index =
                 get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
 
+            // the price may still equal the price of a tick that was already crossed downwards
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
diff --git a/wasm/storage/pool.rs b/wasm/storage/pool.rs
index 65c21f7..f165318 100644
--- a/wasm/storage/pool.rs
+++ b/wasm/storage/pool.rs
@@ -86,11 +86,18 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             ));
 
+            // the price may still equal the price of a tick that was already crossed downwards
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-- 
2.43.0


From 6ec7ba81666d6b2325efba34774bfb4c34fb23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:11 +0000
Subject: [PATCH 4/9] fix: burning a position as an approved spender or
 operator burns the named position of its owner

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..f271267 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -768,8 +768,14 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // the position belongs to (and pays out to) its owner, who may not be the sender
+    let owner_info = MessageInfo {
+        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
+        funds: info.funds,
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, owner_info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 5b9dac7449f10693e96359462718f620f6f53951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:52 +0000
Subject: [PATCH 5/9] fix: reject a fee tier that already exists

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index f271267..9f86756 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -625,6 +625,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..334ee1f 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -188,6 +188,9 @@ pub enum ContractError {
     #[error("pool not created")]
     CreatePoolError,
 
+    #[error("FeeTierAlreadyExist")]
+    FeeTierAlreadyExist,
+
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
-- 
2.43.0


From 682d9bda5596a3218c4aaca41c31b63948c21f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:40 +0000
Subject: [PATCH 6/9] fix: return attached native coins when the charged amount
 is zero

---
 contracts/oraiswap-v3/src/interface.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..c093867 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -95,7 +95,8 @@ impl Asset {
         info: &MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
-        if !self.amount.is_zero() {
+        // attached native coins are returned even when nothing is charged
+        if !self.amount.is_zero() || matches!(&self.info, AssetInfo::NativeToken { .. }) {
             match &self.info {
                 AssetInfo::Token { contract_addr } => {
                     msgs.push(
@@ -135,6 +136,7 @@ impl Asset {
                                 });
                             }
                         }
+                        None if self.amount.is_zero() => {}
                         None => {
                             return Err(ContractError::InvalidFunds {
                                 transfer_amount: self.amount,
-- 
2.43.0


From bd44ac581b730c7d83518e15b29424f453621615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:55 +0000
Subject: [PATCH 7/9] fix: attached coins settled by one hop of a route are not
 counted or refunded again by a later hop

---
 contracts/oraiswap-v3/src/entrypoints/common.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..cddac24 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -245,6 +245,7 @@ pub fn swap_route_internal(
     swaps: Vec<SwapHop>,
 ) -> Result<TokenAmount, ContractError> {
     let mut next_swap_amount = amount_in;
+    let mut info = info.clone();
 
     let current_timestamp = env.block.time.millis();
 
@@ -258,7 +259,7 @@ pub fn swap_route_internal(
         next_swap_amount = swap_internal(
             store,
             api,
-            info,
+            &info,
             msgs,
             &env.contract.address,
             current_timestamp,
@@ -269,6 +270,14 @@ pub fn swap_route_internal(
             sqrt_price_limit,
         )?
         .amount_out;
+
+        // the coins attached for this hop are settled (kept or refunded), they pay for no other hop
+        let token_in = if swap_hop.x_to_y {
+            &swap_hop.pool_key.token_x
+        } else {
+            &swap_hop.pool_key.token_y
+        };
+        info.funds.retain(|coin| coin.denom != *token_in);
     }
 
     Ok(next_swap_amount)
-- 
2.43.0


From 62529378023f7459ad342e862efdfeb7a9deb2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:10 +0000
Subject: [PATCH 8/9] fix: count initialized ticks when the range covers a
 whole bitmap word, reject inverted ranges

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..4fa00a7 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -300,7 +300,7 @@ pub fn get_liquidity_ticks_amount(
     let max_tick = get_max_tick(tick_spacing);
     let min_tick = get_min_tick(tick_spacing);
 
-    if lower_tick < min_tick || upper_tick > max_tick {
+    if lower_tick < min_tick || upper_tick > max_tick || lower_tick > upper_tick {
         return Err(ContractError::InvalidTickIndex);
     };
 
@@ -308,7 +308,7 @@ pub fn get_liquidity_ticks_amount(
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
     let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+        let range: u64 = (chunk >> min_bit) & (u64::MAX >> (63 - (max_bit - min_bit)));
         range.count_ones()
     };
 
-- 
2.43.0


From 8fff36fa392ec293a72fc19c30aa1be3fc0d2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:24 +0000
Subject: [PATCH 9/9] fix: listing positions returns at most the documented 100
 items and does not overflow

---
 contracts/oraiswap-v3/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index 4d9234e..cf06fff 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,8 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let limit = limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT);
+    let to_idx = get_position_length(store, account_id).min(from_idx.saturating_add(limit));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +229,8 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let limit = limit.unwrap_or(MAX_LIMIT).min(MAX_LIMIT);
+    let to_idx = get_position_length(store, account_id).min(from_idx.saturating_add(limit));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0

