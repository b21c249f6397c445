From 78dbe00f2c2cd796a98bcc01a881c90bf059dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 1/7] fix: don't count harvest of a slot twice when vested
 funds mature

If a farmer was updated and a snapshot taken later in the same slot, the
transition of vested funds to staked moved the calculation cursor back to
that slot. The harvest for the slot was then counted again, hence the farm
could owe more than was deposited in the harvest vault.
---
 programs/farming/src/models/farmer.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..1811c22 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -159,14 +159,20 @@ impl Farmer {
                 // calculate harvest for which the vested tokens should not be
                 // counted yet, ie. all harvest until first snapshot after
                 // vested at slot
-                let farmer_harvests = self.eligible_harvest_until(
-                    farm,
-                    Slot::new(snapshot.started_at.slot - 1),
-                )?;
-                self.set_harvests(farmer_harvests)?;
-                // and take a note that we calculated harvest until this
-                // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                //
+                // if the harvest was already calculated in the slot in which
+                // the snapshot was taken, there's nothing left to calculate and
+                // we mustn't go back in time and count that slot again
+                if self.calculate_next_harvest_from < snapshot.started_at {
+                    let farmer_harvests = self.eligible_harvest_until(
+                        farm,
+                        Slot::new(snapshot.started_at.slot - 1),
+                    )?;
+                    self.set_harvests(farmer_harvests)?;
+                    // and take a note that we calculated harvest until this
+                    // point
+                    self.calculate_next_harvest_from = snapshot.started_at;
+                }
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
-- 
2.43.0


From ffe603160b5fef132347f9d1afd2e337801062a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 2/7] fix: enforce the harvest period history limit outside of
 dev

There is no prod feature, hence the limit was only ever enforced in tests
and the admin could drop a period farmers have not harvested yet.
---
 programs/farming/src/models/farm.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..8e0205f 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,8 +272,7 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
-        {
+        let is_oldest_period_initialized = if cfg!(not(feature = "dev")) {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
             // allowed max number of possible configuration updates
-- 
2.43.0


From 6fc39766e1178f2d327025750d04154b669d320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 3/7] fix: find the first snapshot after a slot older than the
 history

Funds vested before the oldest snapshot in the ring buffer never became
staked, because no snapshot was considered to be after the vesting slot.
---
 programs/farming/src/models/farm.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 8e0205f..1e75c4f 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -334,12 +334,15 @@ impl Farm {
             .skip(inverted_tip)
             .take(consts::SNAPSHOTS_LEN)
             .find(|(_, s)| s.started_at <= slot)
-            .map(|(index, _)| index)?;
+            .map(|(index, _)| index);
 
-        Some(if pos == consts::SNAPSHOTS_LEN - 1 {
-            self.snapshots.ring_buffer[0]
-        } else {
-            self.snapshots.ring_buffer[pos + 1]
+        Some(match pos {
+            // the whole history is more recent than the slot
+            None => self.oldest_snapshot(),
+            Some(pos) if pos == consts::SNAPSHOTS_LEN - 1 => {
+                self.snapshots.ring_buffer[0]
+            }
+            Some(pos) => self.snapshots.ring_buffer[pos + 1],
         })
     }
 
-- 
2.43.0


From 6e23fe22f3f089a6c3befc7dde73deca8dfb0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 4/7] fix: settle the target farmer before compounding into its
 vested funds

Compounding across farms restarted the vesting period of all vested funds of
the target farmer, including those for which it was over already. Those
funds then lost their harvest. Anyone can compound on behalf of a farmer.
---
 programs/farming/src/endpoints/compound_across_farms.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..7af9705 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -100,6 +100,11 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
     let compound_tokens = accounts
         .source_farmer
         .claim_harvest(target_farm.stake_mint)?;
+    // funds which are already beyond the vesting period must not be vested
+    // again with those being added
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
     accounts
         .target_farmer
         .add_to_vested(current_slot, compound_tokens)?;
-- 
2.43.0


From 62b4818bd6edad133e9260ff2e049bc8b0d5cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 5/7] fix: never deposit more tokens than the user's maximum

With a reserve of over ten billion tokens the deposit ratio is inverted and
rounded down, hence the division by it could exceed the user's maximum.
---
 programs/amm/src/models/pool.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..2513c5e 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -251,8 +251,19 @@ impl Pool {
                             // we ceil to prevent deposit of 0 tokens
                             .try_ceil()?
                     };
+                    // the ratio is rounded down, therefore dividing by it can
+                    // yield more than what the user agreed to deposit
+                    let max_amount = max_tokens
+                        .get(&mint)
+                        .ok_or(AmmError::InvariantViolation)?
+                        .amount;
 
-                    Ok((mint, TokenAmount { amount }))
+                    Ok((
+                        mint,
+                        TokenAmount {
+                            amount: amount.min(max_amount),
+                        },
+                    ))
                 })
                 .collect::<Result<BTreeMap<Pubkey, TokenAmount>>>()?;
 
-- 
2.43.0


From bc9ab39ea4041d3280095655117b0525e57ca12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 6/7] fix: distribute lp tokens by the least of deposited
 shares

The amount was based on the deposit of the first reserve only. Deposits are
rounded up, so if the first reserve was small, then the share of the deposit
was overestimated and a depositor could take tokens of other lp holders.
---
 programs/amm/src/models/pool.rs | 44 ++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 2513c5e..b412d20 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -462,13 +462,15 @@ impl Pool {
         }
     }
 
-    /// Any given token in the pool can be used to compute the amount
-    /// of lp tokens to be distributed with a given deposit, as long as the
-    /// ratios correspond to the ratios present in the pool. We compute
-    /// the lp tokens to be distributed with a simple 'rule of 3'. For any given
-    /// token in the pool x1, we multiple the deposit delta_x1 with the amount
-    /// of lp tokens in supply, and then divide the by the current reserve
-    /// amount x1.
+    /// With a simple 'rule of 3' each token in the pool yields an amount of lp
+    /// tokens to be distributed. For any given token in the pool x1, we
+    /// multiply the deposit delta_x1 with the amount of lp tokens in supply,
+    /// and then divide the by the current reserve amount x1.
+    ///
+    /// The deposited amounts are rounded up, therefore the ratios correspond to
+    /// the ratios present in the pool only approximately. We distribute the
+    /// least of those amounts, so that depositing never pays off at the expense
+    /// of the other lp token holders.
     fn get_eligible_lp_tokens(
         &self,
         tokens_deposited: &BTreeMap<Pubkey, TokenAmount>,
@@ -477,19 +479,21 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
-            .ok_or(AmmError::InvariantViolation)?;
-
-        let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
-        );
+        let mut tokens = TokenAmount::new(u64::MAX);
+        for reserve in self.reserves() {
+            let reserve_deposit = tokens_deposited
+                .get(&reserve.mint)
+                .ok_or(AmmError::InvariantViolation)?;
+
+            tokens = tokens.min(TokenAmount::new(
+                try_mul_div(
+                    Decimal::from(lp_mint_supply.amount),
+                    Decimal::from(reserve_deposit.amount),
+                    Decimal::from(reserve.tokens.amount),
+                )?
+                .try_floor()?,
+            ));
+        }
 
         Ok(if tokens.amount == 0 {
             None
-- 
2.43.0


From 86d8cd4698365a897ee8e9ba217efcbbb9c5407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 7/7] fix: find the stable curve invariant with a relative
 precision

The Newton method works with reserves scaled down by powers of a thousand,
hence the difference of one half between two approximations can be of any
magnitude relative to the invariant. It could be overestimated many times,
for example whenever the sum of unbalanced reserves got just above a power
of a thousand, and swaps failed or paid out only a fraction of tokens.
---
 programs/amm/src/math/stable_curve_invariant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 54b8686..b3ef2c1 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -161,7 +161,13 @@ impl StableCurveInvariant {
 
             // assuming that prev_val >= new_val, we just need to check that
             // prev_val - new_val <= adm_error
-            if prev_val.try_sub(new_val)? <= admissible_error {
+            // The scaled down value can be as low as one or even less, in
+            // which case the constant threshold alone would be met far away
+            // from the root.
+            let relative_error = new_val.try_div(1000u64)?;
+            if prev_val.try_sub(new_val)?
+                <= admissible_error.min(relative_error)
+            {
                 break;
             }
         }
-- 
2.43.0

