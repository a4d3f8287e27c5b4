From 52cc33d4aa57bdd6b15e233e18a7e58d403b5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 1/8] fix: frozen accounts must not be able to cancel perp
 orders

PerpCancelAllOrders and PerpCancelOrderByClientOrderId were the only perp
order instructions that did not check is_operational(), so a frozen account's
owner or delegate could still act for it.
---
 programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs      | 1 +
 .../src/accounts_ix/perp_cancel_order_by_client_order_id.rs      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs b/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs
index 5ceef45..2de2dff 100644
--- a/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs
+++ b/programs/mango-v4/src/accounts_ix/perp_cancel_all_orders.rs
@@ -12,6 +12,7 @@ pub struct PerpCancelAllOrders<'info> {
     #[account(
         mut,
         has_one = group,
+        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen
         // owner is checked at #1
     )]
     pub account: AccountLoader<'info, MangoAccountFixed>,
diff --git a/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs b/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs
index 97af19d..95ca8d1 100644
--- a/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs
+++ b/programs/mango-v4/src/accounts_ix/perp_cancel_order_by_client_order_id.rs
@@ -12,6 +12,7 @@ pub struct PerpCancelOrderByClientOrderId<'info> {
     #[account(
         mut,
         has_one = group,
+        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen
         // owner is checked at #1
     )]
     pub account: AccountLoader<'info, MangoAccountFixed>,
-- 
2.43.0


From 26f55544c57431cc40493c4cbc2c0b5c4b10de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 2/8] fix: an added bank keeps the existing bank's fallback
 oracle

from_existing_bank() copied the primary oracle into fallback_oracle, so all
additional banks of a token lost the configured fallback.
---
 programs/mango-v4/src/state/bank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 827f8ca..221f12e 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -377,7 +377,7 @@ impl Bank {
             maint_weight_shift_duration_inv: existing_bank.maint_weight_shift_duration_inv,
             maint_weight_shift_asset_target: existing_bank.maint_weight_shift_asset_target,
             maint_weight_shift_liab_target: existing_bank.maint_weight_shift_liab_target,
-            fallback_oracle: existing_bank.oracle,
+            fallback_oracle: existing_bank.fallback_oracle,
             deposit_limit: existing_bank.deposit_limit,
             zero_util_rate: existing_bank.zero_util_rate,
             platform_liquidation_fee: existing_bank.platform_liquidation_fee,
-- 
2.43.0


From 035353882f6e04d989f6493afd81fe8d39c251cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 3/8] fix: value perp positions with the settle token's own
 price

assets_and_liabs() used the settle token's index as position in the account's
token_infos list, which picks another token's price (or panics) unless the two
happen to agree.
---
 programs/mango-v4/src/health/cache.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 5c92525..372be3b 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -773,9 +773,10 @@ impl HealthCache {
         }
 
         for perp_info in self.perp_infos.iter() {
-            let quote_price = self.token_infos[perp_info.settle_token_index as usize]
-                .prices
-                .oracle;
+            let settle_info_index = self
+                .token_info_index(perp_info.settle_token_index)
+                .unwrap();
+            let quote_price = self.token_infos[settle_info_index].prices.oracle;
             let quote_position_value = perp_info.quote * quote_price;
             if perp_info.quote.is_negative() {
                 liabs -= quote_position_value;
-- 
2.43.0


From 8435827bf731dccac01b4908e2dff8e8254d7739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 4/8] fix: rescale asset weights with the liab price when
 adjusting a balance

The health cache is built with the liab price for weight scaling because it
gives the most unfavorable scaling; adjust_token_balance() rescaled with the
asset price instead, so health after an adjustment could exceed the health
computed from scratch for the same account.
---
 programs/mango-v4/src/health/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 372be3b..5da0651 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -856,7 +856,7 @@ impl HealthCache {
         // Note: resetting the weights here assumes that the change has been applied to
         // the passed in bank already
         entry.init_scaled_asset_weight =
-            bank.scaled_init_asset_weight(entry.prices.asset(HealthType::Init));
+            bank.scaled_init_asset_weight(entry.prices.liab(HealthType::Init));
         entry.init_scaled_liab_weight =
             bank.scaled_init_liab_weight(entry.prices.liab(HealthType::Init));
 
-- 
2.43.0


From 72dca311e262e0d29e43bdb13f5af3127c09d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 5/8] fix: charge loan origination fees against the health
 cache in serum3_liq_force_cancel_orders

---
 .../src/instructions/serum3_liq_force_cancel_orders.rs   | 1 +
 .../mango-v4/src/instructions/serum3_settle_funds.rs     | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs b/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs
index 269698c..e712b2b 100644
--- a/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs
+++ b/programs/mango-v4/src/instructions/serum3_liq_force_cancel_orders.rs
@@ -96,6 +96,7 @@ pub fn serum3_liq_force_cancel_orders(
             &before_oo,
             None,
             None,
+            Some(&mut health_cache),
         )?;
 
         before_oo
diff --git a/programs/mango-v4/src/instructions/serum3_settle_funds.rs b/programs/mango-v4/src/instructions/serum3_settle_funds.rs
index 2689895..c1da305 100644
--- a/programs/mango-v4/src/instructions/serum3_settle_funds.rs
+++ b/programs/mango-v4/src/instructions/serum3_settle_funds.rs
@@ -6,6 +6,7 @@ use crate::serum3_cpi::{load_open_orders_ref, OpenOrdersAmounts, OpenOrdersSlim}
 use crate::state::*;
 
 use super::apply_settle_changes;
+use crate::health::HealthCache;
 use crate::accounts_ix::*;
 use crate::logs::{
     emit_stack, LoanOriginationFeeInstruction, Serum3OpenOrdersBalanceLogV2, WithdrawLoanLog,
@@ -86,6 +87,7 @@ pub fn serum3_settle_funds<'info>(
             &before_oo,
             v2.as_ref().map(|d| d.base_oracle.as_ref()),
             v2.as_ref().map(|d| d.quote_oracle.as_ref()),
+            None,
         )?;
     }
 
@@ -160,6 +162,7 @@ pub fn charge_loan_origination_fees(
     before_oo: &OpenOrdersSlim,
     base_oracle: Option<&AccountInfo>,
     quote_oracle: Option<&AccountInfo>,
+    mut health_cache: Option<&mut HealthCache>,
 ) -> Result<()> {
     let serum3_account = account.serum3_orders_mut(market_index).unwrap();
 
@@ -182,6 +185,9 @@ pub fn charge_loan_origination_fees(
             actualized_base_loan,
             now_ts,
         )?;
+        if let Some(ref mut cache) = health_cache {
+            cache.adjust_token_balance(base_bank, -withdraw_result.loan_origination_fee)?;
+        }
 
         let base_oracle_price = base_oracle
             .map(|ai| {
@@ -222,6 +228,9 @@ pub fn charge_loan_origination_fees(
             actualized_quote_loan,
             now_ts,
         )?;
+        if let Some(ref mut cache) = health_cache {
+            cache.adjust_token_balance(quote_bank, -withdraw_result.loan_origination_fee)?;
+        }
 
         let quote_oracle_price = quote_oracle
             .map(|ai| {
-- 
2.43.0


From 891dd08fe3275ab895cd98f5f1e7ad8c34c4001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 6/8] fix: socialize a bankruptcy loss on every bank of the
 token

The loop stopped once the liqee was credited, leaving the remaining
banks of the token with the old deposit index.
---
 programs/mango-v4/src/instructions/token_liq_bankruptcy.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
index 430b3b0..f919084 100644
--- a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
+++ b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
@@ -265,9 +265,6 @@ pub fn token_liq_bankruptcy(
                 liqee_liab_active =
                     bank.deposit_with_dusting(liqee_liab, amount_for_bank, now_ts)?;
                 amount_to_credit -= amount_for_bank;
-                if amount_to_credit <= 0 {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From facc3fe151111fcb091dbbcb4fb791f6325c82b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:53 +0000
Subject: [PATCH 7/8] fix: settle funding of both accounts before
 perp_force_close_position changes their base positions

---
 .../mango-v4/src/instructions/perp_force_close_position.rs    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_force_close_position.rs b/programs/mango-v4/src/instructions/perp_force_close_position.rs
index 1f4aa13..92cb2c2 100644
--- a/programs/mango-v4/src/instructions/perp_force_close_position.rs
+++ b/programs/mango-v4/src/instructions/perp_force_close_position.rs
@@ -42,6 +42,10 @@ pub fn perp_force_close_position(ctx: Context<PerpForceClosePosition>) -> Result
     )?;
     let quote_transfer = I80F48::from(base_transfer * perp_market.base_lot_size) * oracle_price;
 
+    // Settle funding before changing the base positions
+    account_a_perp_position.settle_funding(&perp_market);
+    account_b_perp_position.settle_funding(&perp_market);
+
     account_a_perp_position.record_trade(&mut perp_market, -base_transfer, quote_transfer);
     account_b_perp_position.record_trade(&mut perp_market, base_transfer, -quote_transfer);
 
-- 
2.43.0


From 775f59fdf574cf8946226a92839034563be57694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:53 +0000
Subject: [PATCH 8/8] fix: update the settle limit window before
 perp_settle_fees applies it

---
 programs/mango-v4/src/instructions/perp_settle_fees.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/instructions/perp_settle_fees.rs b/programs/mango-v4/src/instructions/perp_settle_fees.rs
index 87449f5..f02563f 100644
--- a/programs/mango-v4/src/instructions/perp_settle_fees.rs
+++ b/programs/mango-v4/src/instructions/perp_settle_fees.rs
@@ -50,6 +50,10 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     // Calculate PnL
     let pnl = perp_position.unsettled_pnl(&perp_market, oracle_price)?;
 
+    // Start a new settle limit window if the current one has ended
+    let (now_ts, now_slot) = clock_now();
+    perp_position.update_settle_limit(&perp_market, now_ts);
+
     let settleable_pnl = perp_position.apply_pnl_settle_limit(&perp_market, pnl);
 
     if !settleable_pnl.is_negative() || !perp_market.fees_accrued.is_positive() {
@@ -124,7 +128,6 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     drop(perp_market);
 
     // Verify that the result of settling did not violate the health of the account that lost money
-    let (now_ts, now_slot) = clock_now();
     let retriever = new_fixed_order_account_retriever(
         ctx.remaining_accounts,
         &account.borrow(),
-- 
2.43.0

