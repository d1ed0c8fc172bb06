From 77757c08f661e9c815b14f3fe6dd177fc8506547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 1/5] fix: round a swap's return down exactly

The remaining ask reserve was computed as an 18-digit decimal, rounded down.
When offer_pool + offer_amount exceeds 10^18 that rounding can be worth a whole
unit in the pool's disfavour: a swap could pay out one unit more than the
constant product allows, down to emptying the ask reserve. Its intermediate
also overflowed once the reserve product passed about 10^59.
---
 contracts/halo-pair/src/contract.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..c427747 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -608,13 +608,10 @@ fn compute_swap(
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
     // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
     // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
+    // ask_pool - cp / (offer_pool + offer_amount) == ask_pool * offer_amount / (offer_pool + offer_amount),
+    // rounded down so that the pool never pays more than the constant product allows
+    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-- 
2.43.0


From c3bb969554db24adba5d00c996076258da0239b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 2/5] fix: do not abort a swap whose spread rounds below zero

offer_amount * (ask_pool / offer_pool) is rounded down, so in a lopsided pool
it can be smaller than the return amount. The subtraction then aborted the
whole swap (and its simulation). Clamp the spread at zero, as
compute_offer_amount already does.
---
 contracts/halo-pair/src/contract.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index c427747..eea9231 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -615,8 +615,14 @@ fn compute_swap(
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-    let spread_amount: Uint256 =
-        (offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)) - return_amount;
+    // the ratio is rounded down to 18 digits, so the first term can fall below the return amount
+    let before_spread_deduction: Uint256 =
+        offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
+    let spread_amount: Uint256 = if before_spread_deduction > return_amount {
+        before_spread_deduction - return_amount
+    } else {
+        Uint256::zero()
+    };
 
     // calculate the commission_amount
     let commission_amount: Uint256 = return_amount * commission_rate;
-- 
2.43.0


From 19b13c1307d2fd311cffa6b827edb1c176dd1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 3/5] fix: compute the first liquidity share without
 overflowing

The product of the two first deposits was taken in 128 bits, so an eligible
first deposit of, say, twice 10^20 base units (100 tokens with 18 decimals)
aborted and such a pair could never be opened. Take the product in 256 bits; its square root
always fits 128 bits.
---
 contracts/halo-pair/src/contract.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index eea9231..b5354e3 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -6,7 +6,8 @@ use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
     from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
+    Env, Isqrt, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128,
+    WasmMsg,
 };
 
 use bignumber::{Decimal256, Uint256};
@@ -20,7 +21,6 @@ use haloswap::pair::{
 };
 use haloswap::querier::query_token_info;
 use haloswap::token::InstantiateMsg as TokenInstantiateMsg;
-use integer_sqrt::IntegerSquareRoot;
 use std::cmp::Ordering;
 use std::str::FromStr;
 
@@ -294,7 +294,8 @@ pub fn provide_liquidity(
 
         // if the total supply of the LP token is zero, Initial share = collateral amount
         // hoanm: EQUATION - LP = \sqrt{A * B}
-        Uint128::from((deposits[0].u128() * deposits[1].u128()).integer_sqrt())
+        // the product of two 128-bit amounts needs 256 bits, its square root fits again
+        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
     } else {
         // hoanm: update these equations by using the formula of Uniswap V2
         // min(1, 2)
-- 
2.43.0


From 8bff2e8555ffc05f3a45527f2d514534aedcf849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 4/5] fix: compare a new pair's assets in canonical form

The check against a pair of an asset with itself compared the addresses as
strings, but bech32 addresses may be given in upper case as well: a pair of a
token with the same token in upper case was created and registered. Compare
the canonical addresses too.
---
 contracts/halo-factory/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 2b2e98a..e1eb71f 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -133,6 +133,11 @@ pub fn execute_create_pair(
         asset_infos[1].to_raw(deps.api)?,
     ];
 
+    // the same token can be spelled in two ways (bech32 allows upper case)
+    if raw_infos[0] == raw_infos[1] {
+        return Err(StdError::generic_err("same asset"));
+    }
+
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-- 
2.43.0


From 81db0bd60c5175b852dde4571c9e7b252d3cce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 5/5] fix: scale a swap's guard amounts without panicking when
 decimals are 20 or more apart

---
 contracts/halo-pair/src/contract.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index b5354e3..1bcf55b 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -706,7 +706,9 @@ pub fn assert_max_spread(
     let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =
         match offer_decimal.cmp(&return_decimal) {
             Ordering::Greater => {
-                let diff_decimal = 10u64.pow((offer_decimal - return_decimal).into());
+                let diff_decimal = Uint128::new(10)
+                    .checked_pow((offer_decimal - return_decimal).into())?
+                    .u128();
 
                 (
                     offer_asset.amount.into(),
@@ -720,7 +722,9 @@ pub fn assert_max_spread(
                 )
             }
             Ordering::Less => {
-                let diff_decimal = 10u64.pow((return_decimal - offer_decimal).into());
+                let diff_decimal = Uint128::new(10)
+                    .checked_pow((return_decimal - offer_decimal).into())?
+                    .u128();
 
                 (
                     offer_asset
-- 
2.43.0

