From b564a4d1e2bcf726f82152c5f04cc17f7d6fda09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 01/13] fix: end block only settles auctions whose end time has
 passed

The end time index has a resolution of seconds. An auction ending later
within the second of the current block made settle_auction, and with it the
whole end block, fail with AuctionNotEnded.
---
 contracts/reserve-auction/src/sudo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20d0025..20464ef 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -94,6 +94,11 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .idx
         .end_time
         .range(deps.storage, None, max, order)
+        // The index has a resolution of seconds, skip auctions ending later within this second
+        .filter(|item| match item {
+            Ok((_, auction)) => auction.end_time.map_or(false, |t| t <= env.block.time),
+            Err(_) => true,
+        })
         .take(limit)
         .map(|item| item.map(|(_, v)| v))
         .collect::<StdResult<Vec<Auction>>>()?;
-- 
2.43.0


From b2b38e4fab4e6dfacd49b63622e6dfa1747f43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 02/13] fix: keep a halt window until it is over

A halt window was dropped by the first end block without a due auction,
even while the window was still open, so that auctions ending later within
it were settled instead of postponed.
---
 contracts/reserve-auction/src/state.rs | 5 +++++
 contracts/reserve-auction/src/sudo.rs  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/state.rs b/contracts/reserve-auction/src/state.rs
index 9886296..a67e435 100644
--- a/contracts/reserve-auction/src/state.rs
+++ b/contracts/reserve-auction/src/state.rs
@@ -145,12 +145,17 @@ impl HaltManager {
 
     pub fn find_stale_halt_info(
         &mut self,
+        block_time: Timestamp,
         earliest_auction_end_time: Option<Timestamp>,
     ) -> Option<HaltWindow> {
         if self.halt_windows.is_empty() {
             return None;
         }
         let halt_info = self.halt_windows.first().unwrap();
+        // Auctions may still end within a window that is not over
+        if block_time.seconds() < halt_info.end_time {
+            return None;
+        }
         if earliest_auction_end_time.is_none()
             || earliest_auction_end_time.unwrap().seconds() > halt_info.end_time
         {
diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20464ef..46e7e1f 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -120,7 +120,7 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
     }
 
     // Try and clear a halt info if necessary
-    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time);
+    let halt_info = halt_manager.find_stale_halt_info(env.block.time, earliest_auction_end_time);
     if halt_info.is_some() {
         HALT_MANAGER.save(deps.storage, &halt_manager)?;
     }
-- 
2.43.0


From bab3f41b9f7ed63492868c8e02dfb4a3663d684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 03/13] fix: require exactly the create auction fee

Anything sent beyond the fee stayed in the contract for good.
---
 contracts/reserve-auction/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/execute.rs b/contracts/reserve-auction/src/execute.rs
index 4284709..983b76a 100644
--- a/contracts/reserve-auction/src/execute.rs
+++ b/contracts/reserve-auction/src/execute.rs
@@ -131,7 +131,7 @@ pub fn execute_create_auction(
         // If create auction fee is non zero, ensure user has sent the correct amount,
         // and send it to the fair-burn contract
         ensure!(
-            has_coins(&info.funds, &config.create_auction_fee),
+            info.funds.len() == 1 && info.funds[0] == config.create_auction_fee,
             ContractError::WrongFee {
                 expected: config.create_auction_fee,
             }
-- 
2.43.0


From c12a5a359258af5e6530357e4db147d3d977ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 04/13] fix: pay the seller all that remains after fees and
 royalty

The royalty and the seller's part were rounded down separately, which left
one unit of many sales in the contract.
---
 contracts/marketplace/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 9d57851..7988c89 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1237,7 +1237,7 @@ fn payout(
             let seller_share_msg = BankMsg::Send {
                 to_address: payment_recipient.to_string(),
                 amount: vec![coin(
-                    (payment * (Decimal::one() - royalty.share) - network_fee).u128() - finders_fee,
+                    (payment - network_fee - amount.amount).u128() - finders_fee,
                     NATIVE_DENOM.to_string(),
                 )],
             };
-- 
2.43.0


From 806acb4d312cccc9174e24b42c465889f5d160e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 05/13] fix: list asks from the first one when no offset is
 given

Asks skipped token id 0 and ReverseAsks returned nothing without an offset.
---
 contracts/marketplace/src/query.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index c90dd2c..abb8825 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -244,10 +244,7 @@ pub fn query_asks(
         .prefix(collection.clone())
         .range(
             deps.storage,
-            Some(Bound::exclusive((
-                collection,
-                start_after.unwrap_or_default(),
-            ))),
+            start_after.map(|token_id| Bound::exclusive(ask_key(&collection, token_id))),
             None,
             Order::Ascending,
         )
@@ -281,10 +278,7 @@ pub fn reverse_query_asks(
         .range(
             deps.storage,
             None,
-            Some(Bound::exclusive((
-                collection,
-                start_before.unwrap_or_default(),
-            ))),
+            start_before.map(|token_id| Bound::exclusive(ask_key(&collection, token_id))),
             Order::Descending,
         )
         .filter(|item| match item {
-- 
2.43.0


From 1418465d0b7282d05d18b98ab727c8ac06cc9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 06/13] fix: continue the bids of a token after the given
 bidder

The raw offset was compared with complete primary keys, so every page but
the first was empty.
---
 contracts/marketplace/src/query.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index abb8825..610edf5 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -461,7 +461,13 @@ pub fn query_bids(
     limit: Option<u32>,
 ) -> StdResult<BidsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start = start_after.map(|s| Bound::ExclusiveRaw(s.into()));
+    let start = match start_after {
+        Some(bidder) => {
+            let bidder = deps.api.addr_validate(&bidder)?;
+            Some(Bound::exclusive(bid_key(&collection, token_id, &bidder)))
+        }
+        None => None,
+    };
 
     let bids = bids()
         .idx
-- 
2.43.0


From 118e60dee82c87e4fdfc525d0f1477c0497d0368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 07/13] fix: list every collection with asks once

A collection was listed once for each of its asks.
---
 contracts/marketplace/src/query.rs | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 610edf5..69aabf7 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -213,18 +213,28 @@ pub fn query_collections(
     limit: Option<u32>,
 ) -> StdResult<CollectionsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start_addr = maybe_addr(deps.api, start_after)?;
-
-    let collections = asks()
-        .prefix_range(
-            deps.storage,
-            start_addr.map(PrefixBound::exclusive),
-            None,
-            Order::Ascending,
-        )
-        .take(limit)
-        .map(|item| item.map(|(key, _)| key.0))
-        .collect::<StdResult<Vec<_>>>()?;
+    let mut start_addr = maybe_addr(deps.api, start_after)?;
+
+    let mut collections: Vec<Addr> = vec![];
+    while collections.len() < limit {
+        // Skip all remaining asks of the previous collection
+        let next = asks()
+            .prefix_range(
+                deps.storage,
+                start_addr.map(PrefixBound::exclusive),
+                None,
+                Order::Ascending,
+            )
+            .next()
+            .transpose()?;
+        match next {
+            Some(((collection, _), _)) => {
+                start_addr = Some(collection.clone());
+                collections.push(collection);
+            }
+            None => break,
+        }
+    }
 
     Ok(CollectionsResponse { collections })
 }
-- 
2.43.0


From 38fce0585a0d3b139cf47e86e1f2ea12b6391946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 08/13] fix: hold updated ask prices to the maximum price too

---
 contracts/marketplace/src/execute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 7988c89..42f41eb 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -444,6 +444,9 @@ pub fn execute_update_ask_price(
     nonpayable(&info)?;
     only_owner(deps.as_ref(), &info, &collection, token_id)?;
     price_validate(deps.storage, &price)?;
+    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
+        return Err(ContractError::PriceTooHigh(price.amount));
+    }
 
     let key = ask_key(&collection, token_id);
 
-- 
2.43.0


From a347d6121365752e39289f1b1033169ee7a5cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 09/13] fix: leave out payments of nothing from a sale

A bank send of a zero amount fails, and with it the sale, when the royalty
rounds down to zero or the fees take the complete payment.
---
 contracts/marketplace/src/execute.rs | 42 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 42f41eb..7cd5528 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1228,37 +1228,39 @@ fn payout(
             if payment < (network_fee + Uint128::from(finders_fee) + amount.amount) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
-            res.messages.push(SubMsg::new(BankMsg::Send {
-                to_address: royalty.payment_address.to_string(),
-                amount: vec![amount.clone()],
-            }));
+            if !amount.amount.is_zero() {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: royalty.payment_address.to_string(),
+                    amount: vec![amount.clone()],
+                }));
+            }
             let event = Event::new("royalty-payout")
                 .add_attribute("collection", collection.to_string())
                 .add_attribute("amount", amount.to_string())
                 .add_attribute("recipient", royalty.payment_address.to_string());
             res.events.push(event);
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee - amount.amount).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee - amount.amount).u128() - finders_fee;
+            if seller_share > 0 {
+                let seller_share_msg = BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM.to_string())],
+                };
+                res.messages.push(SubMsg::new(seller_share_msg));
+            }
         }
         None => {
             if payment < (network_fee + Uint128::from(finders_fee)) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
             // If token doesn't support royalties, pay seller in full
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee).u128() - finders_fee;
+            if seller_share > 0 {
+                let seller_share_msg = BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM.to_string())],
+                };
+                res.messages.push(SubMsg::new(seller_share_msg));
+            }
         }
     }
 
-- 
2.43.0


From 3d7a599d0c19622affcc098866cefc501d69ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 10/13] fix: leave out payments of nothing when removing a
 stale bid

With a removal reward of zero, or one that rounds down to zero, the bank
send of a zero amount failed and stale bids could not be removed.
---
 contracts/marketplace/src/execute.rs | 56 +++++++++++++++-------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 7cd5528..7bc33d8 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1048,14 +1048,20 @@ pub fn execute_remove_stale_bid(
 
     let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: bid.bidder.to_string(),
-        amount: vec![coin((bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let refund = bid.price - reward;
+    let mut res = Response::new();
+    if !refund.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: bid.bidder.to_string(),
+            amount: vec![coin(refund.u128(), NATIVE_DENOM)],
+        });
+    }
+    if !reward.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: operator.to_string(),
+            amount: vec![coin(reward.u128(), NATIVE_DENOM)],
+        });
+    }
 
     let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
 
@@ -1066,11 +1072,7 @@ pub fn execute_remove_stale_bid(
         .add_attribute("operator", operator.to_string())
         .add_attribute("reward", reward.to_string());
 
-    Ok(Response::new()
-        .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
-        .add_submessages(hook))
+    Ok(res.add_event(event).add_submessages(hook))
 }
 
 /// Privileged operation to remove a stale collection bid. Operators can call this to remove and refund bids that are still in the
@@ -1099,14 +1101,20 @@ pub fn execute_remove_stale_collection_bid(
 
     let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: collection_bid.bidder.to_string(),
-        amount: vec![coin((collection_bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let refund = collection_bid.price - reward;
+    let mut res = Response::new();
+    if !refund.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: collection_bid.bidder.to_string(),
+            amount: vec![coin(refund.u128(), NATIVE_DENOM)],
+        });
+    }
+    if !reward.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: operator.to_string(),
+            amount: vec![coin(reward.u128(), NATIVE_DENOM)],
+        });
+    }
 
     let hook = prepare_collection_bid_hook(deps.as_ref(), &collection_bid, HookAction::Delete)?;
 
@@ -1116,11 +1124,7 @@ pub fn execute_remove_stale_collection_bid(
         .add_attribute("operator", operator.to_string())
         .add_attribute("reward", reward.to_string());
 
-    Ok(Response::new()
-        .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
-        .add_submessages(hook))
+    Ok(res.add_event(event).add_submessages(hook))
 }
 
 /// Transfers funds and NFT, updates bid
-- 
2.43.0


From ddfb9eab9afd78fc6f54579b4734ebb60777e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 11/13] fix: refuse funds with v2 messages that take none

Funds sent along with an accepted bid or an administrator's message stayed in
the contract for good.
---
 contracts/stargaze-marketplace-v2/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 25eed89..87d2b0d 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -154,6 +154,7 @@ pub fn execute_update_config(
     info: MessageInfo,
     config: Config<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
     config.save(deps.storage)?;
 
@@ -175,6 +176,7 @@ pub fn execute_update_collection_denom(
     collection: Addr,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
@@ -197,6 +199,7 @@ pub fn execute_set_listing_fee(
     info: MessageInfo,
     fee: Coin,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
@@ -219,6 +222,7 @@ pub fn execute_remove_listing_fee(
     info: MessageInfo,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.remove(deps.storage, denom.clone());
@@ -692,6 +696,8 @@ pub fn execute_accept_bid(
     id: OrderId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let bid: Bid = bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("bid not found [{}]", id)))?;
@@ -963,6 +969,8 @@ pub fn execute_accept_collection_bid(
     token_id: TokenId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let collection_bid = collection_bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("collection bid not found [{}]", id)))?;
-- 
2.43.0


From b7bb6d9b270355a01961bde8025f895faceb68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 12/13] fix: refuse to act as owner when the owner query fails

---
 packages/sg-marketplace-common/src/nft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/sg-marketplace-common/src/nft.rs b/packages/sg-marketplace-common/src/nft.rs
index 9df7418..955df75 100644
--- a/packages/sg-marketplace-common/src/nft.rs
+++ b/packages/sg-marketplace-common/src/nft.rs
@@ -51,7 +51,7 @@ pub fn only_owner(
             }
             Ok(())
         }
-        Err(_) => Ok(()),
+        Err(err) => Err(err.into()),
     }
 }
 
-- 
2.43.0


From 14378dcb3f01af255663945946b76095c7f836dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 13/13] fix: v2 collection bid at the largest price panics when
 matching asks

---
 contracts/stargaze-marketplace-v2/src/orders.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/contracts/stargaze-marketplace-v2/src/orders.rs b/contracts/stargaze-marketplace-v2/src/orders.rs
index f6edd4a..3ab7d0a 100644
--- a/contracts/stargaze-marketplace-v2/src/orders.rs
+++ b/contracts/stargaze-marketplace-v2/src/orders.rs
@@ -299,13 +299,11 @@ impl CollectionBid {
                 descending: Some(false),
                 limit: Some(1),
                 min: None,
-                max: Some(QueryBound::Exclusive(PriceOffset {
-                    id: "".to_string(),
-                    amount: self.details.price.amount.u128() + 1,
-                })),
+                max: None,
             },
         )?
-        .pop();
+        .pop()
+        .filter(|ask| ask.details.price.amount <= self.details.price.amount);
 
         Ok(top_ask)
     }
-- 
2.43.0

