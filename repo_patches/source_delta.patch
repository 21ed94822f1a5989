From 89b94bb6b90d73223de5a4c8e31a575942bdb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 01/59] fix: market sell orders no longer subtract the traded
 quantity from a bid level twice

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 509c03a..6721c97 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -638,7 +638,7 @@ impl HalfBook {
             if traded_qty > 0 {
                 traded_res.push(*price, traded_qty);
                 self.total_quantity -= traded_qty;
-                level.total_quantity -= traded_qty;
+                //level.total_quantity -= traded_qty;
             }
 
             if level_rem == 0 { remove_prices.push(*price) }
-- 
2.43.0


From 6a7c7be2ee90d68b53088161e0ed2b8fee57c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 02/59] fix: changing an order's quantity to zero removes it
 from the book and the id cache

---
 trading-engine/src/orderbook/half_book.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 6721c97..a95a9d6 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -520,6 +520,10 @@ impl HalfBook {
         order_id: OrderId, 
         new_quantity: BookQuantity,
     ) -> Option<()> {        
+        if new_quantity == 0 && self.cache.contains_key(&order_id) { // nothing is left of the order
+            return self.cancel_order(order_id)
+        }
+
         if let Some(price) = self.cache.get(&order_id) {
             if let Some(level) = self.levels.get_mut(price) {
                 if let Some(original_qty) = level.change_quantity(order_id, new_quantity) {
-- 
2.43.0


From f1f227c74036f6a1d21dda6dbb3ca3ce12f04f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 03/59] fix: zero-quantity padding levels of a depth snapshot
 do not enter the book

---
 trading-engine/src/orderbook/half_book.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index a95a9d6..742785a 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -85,7 +85,11 @@ impl HalfBook {
         level_snapshot: &Vec<LevelSnapshot>,
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
-        let price_vec: Vec<BookPrice> = level_snapshot.iter().map(|x| x.book_price).collect();
+        // levels without quantity are padding of the exchange, not levels of the book
+        let price_vec: Vec<BookPrice> = level_snapshot.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price)
+            .collect();
         // erase existing level where not in the snapshot
         // Collect keys to be removed
         let levels_to_remove: Vec<BookPrice> = self.levels.keys()
@@ -101,6 +105,7 @@ impl HalfBook {
         for level in level_snapshot {
             let price = level.book_price;
             let quantity = level.book_quantity;
+            if quantity == 0 { continue; }
             
             if let Some(level) = self.levels.get_mut(&price) {
                 // there is a level for the price
@@ -137,6 +142,7 @@ impl HalfBook {
         for level_snapshot in level_snapshot_vec {
             let price = level_snapshot.book_price;
             let current_qty = level_snapshot.book_quantity;
+            if current_qty == 0 { continue; } // padding of the exchange, not a level of the book
             if let Some(level) = self.levels.get(&price) { // there is a price so remove or add
                 let prev_qty = level.total_quantity;
                 if prev_qty > current_qty {
@@ -174,7 +180,10 @@ impl HalfBook {
             }
         }
 
-        let new_price_vec = level_snapshot_vec.iter().map(|x| x.book_price).collect::<Vec<BookPrice>>();
+        let new_price_vec = level_snapshot_vec.iter()
+            .filter(|x| x.book_quantity > 0)
+            .map(|x| x.book_price)
+            .collect::<Vec<BookPrice>>();
         for (price, level) in self.levels.iter() { // there may be a disappeared price
             if !new_price_vec.contains(price) {
                 let remove_order_primitive = RemoveAnyOrder {
-- 
2.43.0


From 1b66e82ebf18f86c08348fd10e4f25a797c958d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 04/59] fix: a depth snapshot updates the book from its
 effective levels only

---
 trading-engine/src/orderbook/half_book.rs | 2 +-
 trading-engine/src/orderbook/mod.rs       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 742785a..ffdeb9a 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -82,7 +82,7 @@ impl HalfBook {
     /// So if there is a new order, it will reuse the existing orders
     pub fn update_l2_snapshot(
         &mut self, 
-        level_snapshot: &Vec<LevelSnapshot>,
+        level_snapshot: &[LevelSnapshot],
         mock_counter: &mut VirtualOrderId,
     ) -> Result<()> {
         // levels without quantity are padding of the exchange, not levels of the book
diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 951deef..64a3b3c 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -119,9 +119,9 @@ impl OrderBook {
     #[inline]
     pub fn update_from_quote_snapshot(&mut self, quote: &QuoteSnapshot) -> Result<()> {
         self.check_id(quote.id)?;
-        self.asks.update_l2_snapshot(&quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
@@ -131,9 +131,9 @@ impl OrderBook {
     pub fn update_from_trade_quote_snapshot(&mut self, trade_quote: &TradeQuoteSnapshot) -> Result<()> {
         self.check_id(trade_quote.id)?;
         
-        self.asks.update_l2_snapshot(&trade_quote.ask_quote_data, &mut self.virtual_id_counter)
+        self.asks.update_l2_snapshot(trade_quote.effective_ask_data(), &mut self.virtual_id_counter)
             .context("Failed to update ask side by level snapshot")?;
-        self.bids.update_l2_snapshot(&trade_quote.bid_quote_data, &mut self.virtual_id_counter)
+        self.bids.update_l2_snapshot(trade_quote.effective_bid_data(), &mut self.virtual_id_counter)
             .context("Failed to update bid side by level snapshot")?;
 
         Ok(())
-- 
2.43.0


From 6fdbb44b72282e4dbaa036278fb2ec1fb8720f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 05/59] fix: trade-only messages decode signed and decimal
 trade prices

---
 trading-engine/src/data/krx/derivative_trade.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 6907407..4432e17 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -789,9 +789,8 @@ impl IFMSRPD0036 {
             date_gen,
         )?;
 
-        let trade_price = unsafe { 
-            converter.to_book_price_unchecked(&payload[self.trade_price_slice.start..self.trade_price_slice.end])
-        };
+        let trade_price = converter
+            .to_book_price(&payload[self.trade_price_slice.start..self.trade_price_slice.end]);
 
         let trade_quantity = unsafe {
             converter.to_book_quantity_unchecked(&payload[self.trade_quantity_slice.start..self.trade_quantity_slice.end])
-- 
2.43.0


From 84c5cdafa66908e4aed756fa71ad64b10f0167f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 06/59] fix: unchecked number parsing skips the unused leading
 characters (stock prices)

---
 trading-engine/src/utils/numeric_converter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index f806dcb..b06eab1 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -409,21 +409,21 @@ impl IntegerConverter {
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under16(value, self.parsing_length) as u64
+        parse_under16(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_long_u64_unchecked(&self, value: &[u8]) -> u64 {
-        parse_under32(value, self.parsing_length) as u64
+        parse_under32(&value[self.start_index..], self.parsing_length) as u64
     }
 
     /// # Safety
     /// This function is unsafe because it does not check the input format.
     #[inline(always)]
     pub unsafe fn to_u32_unchecked(&self, value: &[u8]) -> u32 {
-        parse_under8(value, self.parsing_length) as u32
+        parse_under8(&value[self.start_index..], self.parsing_length) as u32
     }
 
     #[inline(always)]
-- 
2.43.0


From 64dd7ff2c085ee97655ff6c9f3f29b8fe00fafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 07/59] fix: checked number parsing takes all digits after the
 sign and unused characters

---
 trading-engine/src/utils/numeric_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index b06eab1..cd50874 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -359,7 +359,7 @@ impl IntegerConverter {
             numcfg.decimal_point_length
         };
 
-        let end_index = all_digit_size;
+        let end_index = start_index + all_digit_size;
 
         let parser = match all_digit_size {
             0..=8 => parse_under8_with_floating_point,
-- 
2.43.0


From 0ad8b52a5d35f95d9edaa191dd3ca4762993e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 08/59] fix: refusing a malformed message no longer panics
 while building the error text

---
 trading-engine/src/data/checker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/data/checker.rs b/trading-engine/src/data/checker.rs
index b9843d3..e847914 100644
--- a/trading-engine/src/data/checker.rs
+++ b/trading-engine/src/data/checker.rs
@@ -25,7 +25,7 @@ pub trait Checker {
                 tr_name,
                 size_checker,
                 payload.len(),
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(size_checker - 1)]),
             );
             return Err(err());
         }
@@ -36,7 +36,7 @@ pub trait Checker {
                 message: {:?}",
                 tr_name,
                 payload[size_checker - 1],
-                std::str::from_utf8(&payload[..(size_checker - 1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(size_checker - 1)]),
             );
             return Err(err());
         }
@@ -53,7 +53,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(self.get_payload_length()-1)]),
             );
             return Err(err());
         }
@@ -70,7 +70,7 @@ pub trait Checker {
                 self.as_str(),
                 self.get_quote_level_cut(),
                 buffer.ask_quote_data.len(),
-                std::str::from_utf8(&payload[..(self.get_payload_length()-1)]).unwrap(),
+                String::from_utf8_lossy(&payload[..payload.len().min(self.get_payload_length()-1)]),
             );
             return Err(err());
         }
-- 
2.43.0


From d5997321b98ed5f54431c73c31fca31dcdb684d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 09/59] fix: decoding into a reused buffer leaves no level cut
 or converter of an earlier message

---
 trading-engine/src/data/krx/derivative_quote.rs |  4 ++++
 trading-engine/src/data/krx/derivative_trade.rs | 11 ++++++++++-
 trading-engine/src/data/krx/stock_quote.rs      |  6 ++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/trading-engine/src/data/krx/derivative_quote.rs b/trading-engine/src/data/krx/derivative_quote.rs
index 58fd109..e41258e 100644
--- a/trading-engine/src/data/krx/derivative_quote.rs
+++ b/trading-engine/src/data/krx/derivative_quote.rs
@@ -210,6 +210,8 @@ impl IFMSRPD0034 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
         buffer.order_counter = order_counter;
 
         let pr_ln = converter.price.get_config().total_length;
@@ -458,6 +460,8 @@ impl IFMSRPD0035 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
         buffer.order_counter = order_counter;
         
         let pr_ln = converter.price.get_config().total_length;
diff --git a/trading-engine/src/data/krx/derivative_trade.rs b/trading-engine/src/data/krx/derivative_trade.rs
index 4432e17..8c5857f 100644
--- a/trading-engine/src/data/krx/derivative_trade.rs
+++ b/trading-engine/src/data/krx/derivative_trade.rs
@@ -283,6 +283,9 @@ impl IFMSRPD0037 {
         //
         //data_buffer.timestamp_converter = timestamp_converter;
         data_buffer.order_converter = converter;
+        data_buffer.quote_level_cut = self.quote_level_cut;
+        data_buffer.all_lp_holdings = None;
+        data_buffer.cumulative_qnt_converter = get_krx_base_cum_qnt_converter();
         data_buffer.order_counter = order_counter;
         //
         let pr_ln = converter.price.get_config().total_length;
@@ -291,7 +294,6 @@ impl IFMSRPD0037 {
         //
         data_buffer.cumulative_trade_quantity = if self.parse_cum_trd_qnt {
             let cum_qnt_converter = get_krx_base_cum_qnt_converter();
-            data_buffer.cumulative_qnt_converter = cum_qnt_converter;
             Some(unsafe {
                 cum_qnt_converter.to_cum_qnt_unchecked(
                     &payload[self.cum_trd_qnt_slice.start..self.cum_trd_qnt_slice.end]
@@ -620,6 +622,12 @@ impl IFMSRPD0038 {
         let order_counter = get_krx_base_order_counter();
         let timestamp_converter = get_krx_timestamp_converter();
 
+        data_buffer.order_converter = converter;
+        data_buffer.order_counter = order_counter;
+        data_buffer.quote_level_cut = self.quote_level_cut;
+        data_buffer.all_lp_holdings = None;
+        data_buffer.cumulative_qnt_converter = get_krx_base_cum_qnt_converter();
+
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         let or_ln = order_counter.order_count.get_config().total_length;
@@ -833,6 +841,7 @@ impl IFMSRPD0036 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         data_buffer.order_converter = converter;
+        data_buffer.cumulative_qnt_converter = get_krx_base_cum_qnt_converter();
         data_buffer.cumulative_trade_quantity = if self.parse_cum_trd_qnt {
             let cum_qnt_converter = get_krx_base_cum_qnt_converter();
             Some(unsafe {
diff --git a/trading-engine/src/data/krx/stock_quote.rs b/trading-engine/src/data/krx/stock_quote.rs
index 02f5d0e..031e1d5 100644
--- a/trading-engine/src/data/krx/stock_quote.rs
+++ b/trading-engine/src/data/krx/stock_quote.rs
@@ -222,6 +222,9 @@ impl IFMSRPD0002 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
+        buffer.order_counter = get_krx_base_order_counter();
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
         
@@ -459,6 +462,9 @@ impl IFMSRPD0003 {
         let timestamp_converter = get_krx_timestamp_converter();
 
         buffer.order_converter = converter;
+        buffer.quote_level_cut = self.quote_level_cut;
+        buffer.all_lp_holdings = None;
+        buffer.order_counter = get_krx_base_order_counter();
         let pr_ln = converter.price.get_config().total_length;
         let qn_ln = converter.quantity.get_config().total_length;
 
-- 
2.43.0


From d33526606d4611d8110ccc7e4834d338461df276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 10/59] fix: an exhausted bounded counter keeps refusing
 instead of wrapping around

---
 trading-engine/src/utils/counter.rs | 48 +++++++++++++----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/trading-engine/src/utils/counter.rs b/trading-engine/src/utils/counter.rs
index 9ee7d5b..f51fe09 100644
--- a/trading-engine/src/utils/counter.rs
+++ b/trading-engine/src/utils/counter.rs
@@ -18,19 +18,17 @@ impl CounterUsize {
     }
 
     pub fn next(&self) -> Result<usize> {
-        let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
-            let lazy_error = || {
-                anyhow!(
-                    "CounterUsize: counter overflow, start: {}, end: {}",
-                    self.start,
-                    self.end
-                )
-            };
-            Err(lazy_error())
-        } else {
-            Ok(res)
-        }
+        // an exhausted counter stays where it is: it must not wrap around
+        let res = self.counter.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| {
+            if x > self.end { None } else { x.checked_add(1) }
+        });
+        res.map_err(|_| {
+            anyhow!(
+                "CounterUsize: counter overflow, start: {}, end: {}",
+                self.start,
+                self.end
+            )
+        })
     }
 }
 
@@ -51,19 +49,17 @@ impl CounterU64 {
     }
 
     pub fn next(&self) -> Result<u64> {
-        let res = self.counter.fetch_add(1, Ordering::SeqCst);
-        if res > self.end {
-            let lazy_error = || {
-                anyhow!(
-                    "CounterU64: counter overflow, start: {}, end: {}",
-                    self.start,
-                    self.end
-                )
-            };
-            Err(lazy_error())
-        } else {
-            Ok(res)
-        }
+        // an exhausted counter stays where it is: it must not wrap around
+        let res = self.counter.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| {
+            if x > self.end { None } else { x.checked_add(1) }
+        });
+        res.map_err(|_| {
+            anyhow!(
+                "CounterU64: counter overflow, start: {}, end: {}",
+                self.start,
+                self.end
+            )
+        })
     }
 }
 
-- 
2.43.0


From d0fabb3eede28de8b9a2c11e37b18425351753bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 11/59] fix: 16-digit strings on the long-number parser no
 longer read past their end

---
 trading-engine/src/utils/numeric_converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index cd50874..c84eb88 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -204,6 +204,7 @@ pub fn parse_under32_with_floating_point(u: &[u8], length: usize, point_length:
     );
 
     match point_length {
+        _ if length == 16 => parse_under16_with_floating_point(u, 16, point_length),
         0 => parse_under32(u, length) as u64,
         1 => parse_under32(&u[..(length - 1)], length - 1) as u64,
         _ => {
@@ -287,6 +288,9 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
         (16..=32).contains(&length),
         "parse_under32: length must be less than or equal to 32"
     );
+    if length == 16 {
+        return parse_under16(u, 16);
+    }
     let (upper, lower) = u.split_at(16);
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
-- 
2.43.0


From 7c7df9a93a28b715d9db3cafc693a74d67943350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 12/59] fix: codes that are not text are refused, also when
 deserialised

---
 trading-engine/src/types/id/isin_code.rs | 17 +++++++++++++++--
 trading-engine/src/types/id/ticker.rs    | 21 +++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/types/id/isin_code.rs b/trading-engine/src/types/id/isin_code.rs
index 60c9794..c0529f0 100644
--- a/trading-engine/src/types/id/isin_code.rs
+++ b/trading-engine/src/types/id/isin_code.rs
@@ -1,13 +1,26 @@
 use crate::utils::checkers;
 use anyhow::{anyhow, Result};
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 use std::hash::Hash;
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize)]
 pub struct IsinCode {
     isin: [u8; 12],
 }
 
+impl<'de> Deserialize<'de> for IsinCode {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "IsinCode")]
+        struct Raw {
+            isin: [u8; 12],
+        }
+        let raw = Raw::deserialize(deserializer)?;
+        // as_str relies on the bytes having passed the same check as in new
+        IsinCode::new(&raw.isin).map_err(D::Error::custom)
+    }
+}
+
 impl Default for IsinCode {
     fn default() -> Self {
         IsinCode { isin: [0u8; 12] }
diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 2b95568..68dc6e1 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -1,4 +1,4 @@
-use serde::{Serialize, Deserialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 use anyhow::{anyhow, Result};
 use std::str::{
     from_utf8,
@@ -13,11 +13,24 @@ use std::hash::{Hash, Hasher};
 /// If we encounter a situation where the code length is longer than 32 bytes, we will have to change the code.
 /// In the end, the Ticker will dwell on only in data area. Ultimately, we will use ID struct that is basically a pointer to
 /// { (Symbol, Venue) }, where Symbol is an Enum type of IsinCode and Ticker.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize)]
 pub struct Ticker {
     ticker: [u8; 32],
 }
 
+impl<'de> Deserialize<'de> for Ticker {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "Ticker")]
+        struct Raw {
+            ticker: [u8; 32],
+        }
+        let raw = Raw::deserialize(deserializer)?;
+        // as_str relies on the bytes having passed the same check as in new
+        Ticker::new(&raw.ticker).map_err(D::Error::custom)
+    }
+}
+
 impl Default for Ticker {
     fn default() -> Self {
         Ticker { ticker: [0u8; 32] }
@@ -30,6 +43,10 @@ impl Ticker {
             let err = || anyhow!("Ticker(={:?}) length should be less than 32", from_utf8(bytes));
             return Err(err());
         }
+        if from_utf8(bytes).is_err() {
+            let err = || anyhow!("Ticker(={:?}) is not valid UTF-8", bytes);
+            return Err(err());
+        }
         let mut ticker = [0u8; 32];
         ticker[..bytes.len()].copy_from_slice(bytes);
         Ok(Ticker { ticker })
-- 
2.43.0


From c9c7b5f87cd288a52ff9214c3dcf2ef661823dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 13/59] fix: a ticker's text is without the zero padding

---
 trading-engine/src/types/id/ticker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trading-engine/src/types/id/ticker.rs b/trading-engine/src/types/id/ticker.rs
index 68dc6e1..9fae2a5 100644
--- a/trading-engine/src/types/id/ticker.rs
+++ b/trading-engine/src/types/id/ticker.rs
@@ -53,8 +53,10 @@ impl Ticker {
     }
 
     pub fn as_str(&self) -> &str {
+        // the unused right side is filled with zeros and is not part of the text
+        let len = self.ticker.iter().rposition(|&x| x != 0).map_or(0, |i| i + 1);
         // This is safe because we know Tickers are always valid UTF-8
-        unsafe { from_utf8_unchecked(self.ticker.as_ref()) }
+        unsafe { from_utf8_unchecked(&self.ticker[..len]) }
     }
 }
 
-- 
2.43.0


From 68cffde1117372f04131f0106e6636275876edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 14/59] fix: dropping a default shared queue does not free a
 null pointer

---
 trading-engine/src/spinqueue.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/spinqueue.rs b/trading-engine/src/spinqueue.rs
index acaeb98..136b6c7 100644
--- a/trading-engine/src/spinqueue.rs
+++ b/trading-engine/src/spinqueue.rs
@@ -53,8 +53,11 @@ where
     T: Clone + Debug + Default
 {
     fn drop(&mut self) {
-        unsafe {
-            let _= Box::from_raw(self.data_buffer.load(Ordering::Relaxed));
+        let data = self.data_buffer.load(Ordering::Relaxed);
+        if !data.is_null() { // a default queue has no data
+            unsafe {
+                let _= Box::from_raw(data);
+            }
         }
     }
 }
-- 
2.43.0


From 8ee754f0720391b9c88e6e939337742a84535cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 15/59] fix: running weighted averages and sums decay by the
 time since the last update

---
 trading-engine/src/feature/weighted_valuation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/weighted_valuation.rs b/trading-engine/src/feature/weighted_valuation.rs
index eed74cc..f5a00d5 100644
--- a/trading-engine/src/feature/weighted_valuation.rs
+++ b/trading-engine/src/feature/weighted_valuation.rs
@@ -33,6 +33,7 @@ impl EWMA {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.value = TimeSeriesWeight::previous_weight(interval_weight) * self.value
             + TimeSeriesWeight::current_weight(interval_weight) * new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
@@ -73,6 +74,7 @@ impl EWMS {
     pub fn update(&mut self, new_value: Real, new_timestamp: TimeStamp) {
         let interval_weight = self.weight.apply(self.timestamp, new_timestamp);
         self.summation = TimeSeriesWeight::previous_weight(interval_weight) * self.summation + new_value;
+        self.timestamp = new_timestamp;
     }
 
     #[inline]
-- 
2.43.0


From bc355efb9782b959bc332405fbffaba579d09302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 16/59] fix: the logging macros for structs refer to the
 existing severity setting

---
 trading-engine/src/logger.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index 285b582..e866636 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -336,7 +336,7 @@ macro_rules! log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
@@ -436,7 +436,7 @@ macro_rules! flushing_log_fn_json {
 
     // In case of structs
     ($level:expr, $topic:expr, $struct:expr) => {{
-        let current_level = $crate::LogLevel::from_usize($crate::LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
+        let current_level = $crate::LogLevel::from_usize($crate::MAX_LOG_LEVEL.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
         if $level <= current_level {
             let timestamp = $crate::get_unix_nano();
             let func = move || {
-- 
2.43.0


From 2d87f51b25d0128f822e6a47e4e84e858f03a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 17/59] fix: log order flow of an empty level is zero instead
 of infinite

---
 trading-engine/src/feature/tick.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 5d4d7e9..872ca14 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -408,7 +408,7 @@ impl SimpleQuotes {
         let current_ask = &arriving_quotes.asks[level - 1];
 
         let res = if current_ask.price > previous_ask.price {
-            if current_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 {
                 - previous_ask.quantity.ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -419,7 +419,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_ask.price == previous_ask.price {
-            if previous_ask.quantity > 0.0 {
+            if previous_ask.quantity > 0.0 && current_ask.quantity > 0.0 {
                 (current_ask.quantity / previous_ask.quantity).ln()
             } else { 
                 let current_ask_clone = current_ask.clone();
@@ -489,7 +489,7 @@ impl SimpleQuotes {
                 0.0 
             }
         } else if current_bid.price == previous_bid.price {
-            if previous_bid.quantity > 0.0 {
+            if previous_bid.quantity > 0.0 && current_bid.quantity > 0.0 {
                 (current_bid.quantity / previous_bid.quantity).ln()
             } else { 
                 let current_bid_clone = current_bid.clone();
@@ -499,7 +499,7 @@ impl SimpleQuotes {
                 );
                 0.0 
             }
-        } else if current_bid.quantity > 0.0 {
+        } else if previous_bid.quantity > 0.0 {
             - previous_bid.quantity.ln()
         } else { 
             let current_bid_clone = current_bid.clone();
-- 
2.43.0


From 6ade9dbb2ccb27d68453d99d47b4e9371fef58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 18/59] fix: quotes made with a capacity can be updated

---
 trading-engine/src/feature/tick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index 872ca14..d707511 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -91,8 +91,8 @@ impl SimpleQuotes {
     pub fn with_capacity(capacity: usize) -> Self {
         let converter = get_default_order_converter();
         Self {
-            bids: Vec::with_capacity(capacity),
-            asks: Vec::with_capacity(capacity),
+            bids: vec![SimpleSnapshot::default(); capacity],
+            asks: vec![SimpleSnapshot::default(); capacity],
             level_cut: capacity,
             timestamp: TimeStamp::default(),
             system_time: TimeStamp::default(),
-- 
2.43.0


From 554c6da9532be25812f074e9c0d240baecccfde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 19/59] fix: updating quotes takes the system time of the
 observation

---
 trading-engine/src/feature/tick.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading-engine/src/feature/tick.rs b/trading-engine/src/feature/tick.rs
index d707511..df21696 100644
--- a/trading-engine/src/feature/tick.rs
+++ b/trading-engine/src/feature/tick.rs
@@ -237,6 +237,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
@@ -271,6 +272,7 @@ impl SimpleQuotes {
         }
         self.order_converter = data.order_converter;
         self.timestamp = data.timestamp;
+        self.system_time = data.system_timestamp;
 
         for i in 0..self.level_cut {
             self.bids[i].price = self.order_converter.price.normalized_real_from_i64(
-- 
2.43.0


From ccae3821ae262199e960a8231f7a8990e294b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 20/59] fix: actual/actual and street day counts at year and
 month ends

---
 quantlib/src/time/calendar_trait.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 9930ad2..90eba1d 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -211,16 +211,15 @@ pub trait CalendarTrait {
                         let days = if end_year == start_year {
                             (*end_date - *start_date).whole_days() as Time
                         } else {
-                            let last_day_of_year =
-                                Date::from_calendar_date(year, Month::December, 31).unwrap();
-                            (last_day_of_year - start_date.date()).whole_days() as Time
+                            let first_day_of_next_year =
+                                Date::from_calendar_date(year + 1, Month::January, 1).unwrap();
+                            (first_day_of_next_year - start_date.date()).whole_days() as Time
                         };
                         frac += days / days_in_year;
                     } else if year == end_year {
-                        let last_day_of_previous_year =
-                            Date::from_calendar_date(year - 1, Month::December, 31).unwrap();
-                        let days =
-                            (end_date.date() - last_day_of_previous_year).whole_days() as Time;
+                        let first_day_of_year =
+                            Date::from_calendar_date(year, Month::January, 1).unwrap();
+                        let days = (end_date.date() - first_day_of_year).whole_days() as Time;
                         frac += days / days_in_year;
                     } else {
                         frac += 1.0; // Full year
@@ -237,11 +236,10 @@ pub trait CalendarTrait {
                 days += 30 * (month_upto as i32 - month_from as i32);
                 days += day_upto as i32 - day_from as i32;
                 if day_from == 31 {
-                    if day_upto == 31 {
-                        days -= 30;
-                    } else {
-                        days += 1;
-                    }
+                    days += 1;
+                }
+                if day_upto == 31 && day_from >= 30 {
+                    days -= 1;
                 }
                 days as Time / 360.0
             }
-- 
2.43.0


From c6dd1baae6107377fa1d19d33758996c27b981c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 21/59] fix: elapsed time of a reversed span over a year end is
 not zero; one time zone decides the years

---
 quantlib/src/time/calendar_trait.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantlib/src/time/calendar_trait.rs b/quantlib/src/time/calendar_trait.rs
index 90eba1d..d2d3b58 100644
--- a/quantlib/src/time/calendar_trait.rs
+++ b/quantlib/src/time/calendar_trait.rs
@@ -290,8 +290,13 @@ pub trait CalendarTrait {
     /// then, sum up the two times
     fn get_time_difference(&self, start_date: &OffsetDateTime, end_date: &OffsetDateTime) -> Time {
         //let midnight_last_day_of_year_start = OffsetDateTime::new_in_offset(last_day_of_year_start, time::Time::MIDNIGHT, start_date_offset);
+        if end_date < start_date {
+            return -self.get_time_difference(end_date, start_date);
+        }
         let mut frac: Time = 0.0;
         let start_year = start_date.year();
+        // years are counted in the time zone of start_date
+        let end_date = &end_date.to_offset(start_date.offset());
         let end_year = end_date.year();
 
         for year in start_year..=end_year {
-- 
2.43.0


From 7323703f11228ee37cdbb6b70677788f364f9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 22/59] fix: tenor arithmetic over several years of months and
 after time units

---
 quantlib/src/utils/string_arithmetic.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantlib/src/utils/string_arithmetic.rs b/quantlib/src/utils/string_arithmetic.rs
index 32ed152..4cc3f7c 100644
--- a/quantlib/src/utils/string_arithmetic.rs
+++ b/quantlib/src/utils/string_arithmetic.rs
@@ -117,7 +117,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -136,7 +136,7 @@ pub fn add_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
@@ -187,15 +187,15 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
             "M" => {
                 let month_i32 = from_month_to_i32(new_datetime.month());
                 let year = new_datetime.year();
-                let new_month = from_i32_to_month((month_i32 - value as i32 + 120000000) % 12);
-                let new_year = year - 1 + (month_i32 - value as i32 + 12) / 12;
+                let new_month = from_i32_to_month((month_i32 - value as i32).rem_euclid(12));
+                let new_year = year + (month_i32 - value as i32).div_euclid(12);
                 let eom_new = NullCalendar::default()
                     .last_day_of_month(new_year, new_month)
                     .day();
@@ -206,7 +206,7 @@ pub fn sub_period(datetime: &OffsetDateTime, duration: &str) -> OffsetDateTime {
                 new_datetime = OffsetDateTime::new_in_offset(
                     Date::from_calendar_date(new_year, new_month, new_day)
                         .expect("Failed to create Date"),
-                    datetime.time(),
+                    new_datetime.time(),
                     datetime.offset(),
                 );
             }
-- 
2.43.0


From 9fadba2bdebcb7c01a77f41387ece792eaa9447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 23/59] fix: Good Friday comes from the western Easter table

---
 quantlib/src/time/holiday.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/time/holiday.rs b/quantlib/src/time/holiday.rs
index ff4f9bc..20a9b86 100644
--- a/quantlib/src/time/holiday.rs
+++ b/quantlib/src/time/holiday.rs
@@ -28,9 +28,9 @@ pub trait Holidays {
         }
 
         if is_orthodox {
-            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
-        } else {
             dd == EASTER_MONDAYS[1][year as usize - FIRST_EASTER_MONDAY] - 3
+        } else {
+            dd == EASTER_MONDAYS[0][year as usize - FIRST_EASTER_MONDAY] - 3
         }
     }
 }
-- 
2.43.0


From 1f24d1afc31d1f20c03613546b907a72ee09664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 24/59] fix: linear interpolators give the value of their last
 node and refuse node sets they cannot use

---
 .../src/math/interpolators/bilinear_interpolator.rs   |  2 ++
 .../src/math/interpolators/linear_interpolator.rs     | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 91c1c22..1a92e84 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -165,6 +165,8 @@ impl BilinearInterpolator {
                     self.t_domain
                 ))
             }
+        } else if t == self.t_domain[n - 1] {
+            self.x_interpolator[n - 1].interpolate(x)
         } else if t >= self.t_domain[n - 1] {
             if self.t_domain_allow_extrapolation {
                 match self.t_domain_extrapolation_type {
diff --git a/quantlib/src/math/interpolators/linear_interpolator.rs b/quantlib/src/math/interpolators/linear_interpolator.rs
index 4eb1b54..8511555 100644
--- a/quantlib/src/math/interpolators/linear_interpolator.rs
+++ b/quantlib/src/math/interpolators/linear_interpolator.rs
@@ -44,9 +44,15 @@ impl LinearInterpolator1D {
             return Err(anyhow!(message));
         }
         // the domain must be sorted
+        if n == 0 {
+            return Err(anyhow!("domain and value must not be empty"));
+        }
         if !is_ndarray_sorted(&domain) {
             return Err(anyhow!("domain must be sorted: \n{:?}", &domain));
         }
+        if n == 1 && allow_extrapolation && extrapolation_type == ExtraPolationType::Linear {
+            return Err(anyhow!("linear extrapolation needs at least two nodes"));
+        }
 
         // first initialize the derivatives with n-1 elements
         let mut derivatives = Array1::zeros(n - 1);
@@ -92,6 +98,9 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                 ));
             }
         }
+        if x == self.domain[n - 1] {
+            return Ok(self.value[n - 1]);
+        }
         if x >= self.domain[n - 1] {
             if self.allow_extrapolation {
                 if self.extrapolation_type == ExtraPolationType::Flat {
@@ -154,6 +163,8 @@ impl InterpolatorReal1D for LinearInterpolator1D {
                         x[i]
                     ));
                 }
+            } else if x[i] == self.domain[domain_n - 1] {
+                result[i] = self.value[domain_n - 1];
             } else if x[i] >= self.domain[domain_n - 1] {
                 if self.allow_extrapolation {
                     if self.extrapolation_type == ExtraPolationType::Flat {
-- 
2.43.0


From c99dde6891786b45123b058914adeb354f84e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 25/59] fix: stepwise interpolation of many points uses the
 extrapolation values

---
 quantlib/src/math/interpolators/stepwise_interpolatior.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/math/interpolators/stepwise_interpolatior.rs b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
index 47bc822..ddad4d5 100644
--- a/quantlib/src/math/interpolators/stepwise_interpolatior.rs
+++ b/quantlib/src/math/interpolators/stepwise_interpolatior.rs
@@ -117,7 +117,11 @@ where
                         x[{}] = {}, domain = [{}, {}]",
                         i, x[i], left_bound, right_bound));
                 }
-                result[i] = self.value[index[i]];
+                result[i] = if x[i] < left_bound || x[i] > right_bound {
+                    self.interpolate(x[i])?
+                } else {
+                    self.value[index[i]]
+                };
             }
         }
         Ok(result)
-- 
2.43.0


From 27df3615839aed1f6b9bd91ea61c04e443d5da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 26/59] fix: the forward rate over a vanishing period is finite

---
 quantlib/src/parameters/zero_curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/parameters/zero_curve.rs b/quantlib/src/parameters/zero_curve.rs
index 723a18e..04ce399 100644
--- a/quantlib/src/parameters/zero_curve.rs
+++ b/quantlib/src/parameters/zero_curve.rs
@@ -334,7 +334,7 @@ impl ZeroCurve {
     ) -> Result<Real> {
         match t1 <= t2 {
             true => {
-                let tau = t2 - t1;
+                let mut tau = t2 - t1;
 
                 let disc: Real = if tau.abs() > 1e-6 {
                     match self.get_discount_factor_between_times(t1, t2) {
@@ -342,7 +342,9 @@ impl ZeroCurve {
                         Err(e) => return Err(e),
                     }
                 } else {
-                    match self.get_discount_factor_between_times(t1, t2 + 1e-5) {
+                    // the rate over a vanishing period is taken over one day, as for the short rate
+                    tau = 0.002737;
+                    match self.get_discount_factor_between_times(t1, t1 + tau) {
                         Ok(d) => d,
                         Err(e) => return Err(e),
                     }
-- 
2.43.0


From 4d25e51bbbae92c1087506721dc835cee4fb4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 27/59] fix: dividends that are all in the past no longer panic

---
 .../src/parameters/discrete_ratio_dividend.rs | 30 +++++++------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index c4f5c98..e98130b 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -86,17 +86,12 @@ impl DiscreteRatioDividend {
         let mut div_yields_vec = dividend_yields.to_vec();
         let mut date_integers_for_interpolator_vec = date_integers.to_vec();
 
-        let mut i = 0;
         let mut checker = 0;
-        while i < ex_dividend_dates.len() {
-            if ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
-            }
+        while checker < ex_dividend_dates.len() && ex_dividend_dates[checker] < eval_dt {
+            ex_dividend_dates_for_interpolator.remove(0);
+            div_yields_vec.remove(0);
+            date_integers_for_interpolator_vec.remove(0);
+            checker += 1;
         }
 
         let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
@@ -250,17 +245,12 @@ impl DiscreteRatioDividend {
         let mut div_yields_vec = self.dividend_yields.to_vec();
         let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
 
-        let mut i = 0;
         let mut checker = 0;
-        while i < self.ex_dividend_dates.len() {
-            if self.ex_dividend_dates[checker] < eval_dt {
-                ex_dividend_dates_for_interpolator.remove(i);
-                div_yields_vec.remove(i);
-                date_integers_for_interpolator_vec.remove(i);
-                checker += 1;
-            } else {
-                i += 1;
-            }
+        while checker < self.ex_dividend_dates.len() && self.ex_dividend_dates[checker] < eval_dt {
+            ex_dividend_dates_for_interpolator.remove(0);
+            div_yields_vec.remove(0);
+            date_integers_for_interpolator_vec.remove(0);
+            checker += 1;
         }
 
         let dividend_yields_for_interpolator = Array1::from(div_yields_vec);
-- 
2.43.0


From e4fe31861df54a118fdf7e053fd1cc8f0e9e4d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 28/59] fix: bumping dividends does not bring past dividends
 back into the deduction

---
 .../src/parameters/discrete_ratio_dividend.rs | 31 +++----------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index e98130b..f203efd 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -209,33 +209,12 @@ impl DiscreteRatioDividend {
 
         // update self.dividend_amounts
         self.dividend_amounts = &self.dividend_amounts + bump_mask * bump_val;
-        // update self.dividend_yields and remake a incremental_deduction_ratio
+        // update self.dividend_yields and remake the deduction_interpolator
         self.dividend_yields = &self.dividend_amounts / self.spot;
-        let mut incremental_deduction_ratio = Array1::zeros(self.dividend_yields.len());
-        let mut temp: Real = 1.0;
-        for (i, &yield_value) in self.dividend_yields.iter().enumerate() {
-            temp *= 1.0 - yield_value;
-            incremental_deduction_ratio[i] = temp;
-        }
-
-        // update self.deduction_interpolator
-
-        self.deduction_interpolator = match incremental_deduction_ratio.len() {
-            0 => DividendInterpolator::Constant(ConstantInterpolator1D::new(1.0)?),
-            _ => {
-                let right_extrapolation_value =
-                    Some(incremental_deduction_ratio[incremental_deduction_ratio.len() - 1]);
-                let interp = StepwiseInterpolator1D::new(
-                    self.date_integers.clone(),
-                    incremental_deduction_ratio,
-                    true,
-                    Some(1.0),
-                    right_extrapolation_value,
-                )?;
-                DividendInterpolator::Stepwise(interp)
-            }
-        };
-        Ok(())
+        // the dividends which are past at the evaluation date stay out of the deduction
+        let evaluation_date = self.evaluation_date.clone();
+        let evaluation_date = evaluation_date.borrow();
+        self.update_evaluation_date(&evaluation_date)
     }
 
     pub fn update_evaluation_date(&mut self, date: &EvaluationDate) -> Result<()> {
-- 
2.43.0


From 246d8132b13d9c0e17e7093eac158d195055845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 29/59] fix: a dividend whose ex-date is the evaluation instant
 is deducted once, from the spot

---
 quantlib/src/parameters/discrete_ratio_dividend.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/parameters/discrete_ratio_dividend.rs b/quantlib/src/parameters/discrete_ratio_dividend.rs
index f203efd..1eb9aea 100644
--- a/quantlib/src/parameters/discrete_ratio_dividend.rs
+++ b/quantlib/src/parameters/discrete_ratio_dividend.rs
@@ -87,7 +87,7 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = date_integers.to_vec();
 
         let mut checker = 0;
-        while checker < ex_dividend_dates.len() && ex_dividend_dates[checker] < eval_dt {
+        while checker < ex_dividend_dates.len() && ex_dividend_dates[checker] <= eval_dt {
             ex_dividend_dates_for_interpolator.remove(0);
             div_yields_vec.remove(0);
             date_integers_for_interpolator_vec.remove(0);
@@ -225,7 +225,7 @@ impl DiscreteRatioDividend {
         let mut date_integers_for_interpolator_vec = self.date_integers.clone().to_vec();
 
         let mut checker = 0;
-        while checker < self.ex_dividend_dates.len() && self.ex_dividend_dates[checker] < eval_dt {
+        while checker < self.ex_dividend_dates.len() && self.ex_dividend_dates[checker] <= eval_dt {
             ex_dividend_dates_for_interpolator.remove(0);
             div_yields_vec.remove(0);
             date_integers_for_interpolator_vec.remove(0);
-- 
2.43.0


From 447f907833737911af67a40f35405b5b5fdb1462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 30/59] fix: a schedule of one period ends and pays at maturity

---
 quantlib/src/instruments/schedule.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/instruments/schedule.rs b/quantlib/src/instruments/schedule.rs
index 2418c74..bebfb6e 100644
--- a/quantlib/src/instruments/schedule.rs
+++ b/quantlib/src/instruments/schedule.rs
@@ -164,7 +164,15 @@ pub fn build_schedule(
     let mut calc_end_date: OffsetDateTime;
     let mut payment_date: OffsetDateTime;
     for i in 0..schedule_length {
-        if i == 0 {
+        if schedule_length == 1 {
+            calc_start_date = *effective_date;
+            calc_end_date = *maturity;
+            fixing_date = calendar.adjust(
+                &(calc_start_date - Duration::days(fixing_gap_days)),
+                &BusinessDayConvention::Preceding,
+            )?;
+            payment_date = *maturity;
+        } else if i == 0 {
             calc_start_date = *effective_date;
             calc_end_date = calc_start_date_vec[i + 1];
             fixing_date = calendar.adjust(
-- 
2.43.0


From 98a7d7c915ced0f1a308e78866f9e9902e9b4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 31/59] fix: floating coupons keep their notional after the
 effective date

---
 quantlib/src/instruments/plain_swap.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 3701570..8e5bdd9 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -501,11 +501,10 @@ impl InstrumentTrait for PlainSwap {
         past_fixing_data: Option<Rc<DailyClosePrice>>,
     ) -> Result<HashMap<OffsetDateTime, Real>> {
         let mut res = HashMap::new();
-        let mut initial_value = 1.0;
+        let initial_value = self.initial_floating_side_payment.unwrap_or(1.0);
         if self.effective_date.date() >= pricing_date.date()
             && self.initial_floating_side_payment.is_some()
         {
-            initial_value = self.initial_floating_side_payment.unwrap();
             res.insert(self.effective_date, -initial_value);
         }
         if self.maturity.date() >= pricing_date.date()
-- 
2.43.0


From 4e65a18d8681c4549556f2d995545230cb7d2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 32/59] fix: an interest rate swap built from conventions has
 one currency

---
 quantlib/src/instruments/plain_swap.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantlib/src/instruments/plain_swap.rs b/quantlib/src/instruments/plain_swap.rs
index 8e5bdd9..1947a47 100644
--- a/quantlib/src/instruments/plain_swap.rs
+++ b/quantlib/src/instruments/plain_swap.rs
@@ -335,6 +335,7 @@ impl PlainSwap {
             && last_floating_side_endorsement.is_none()
             && rate_index.is_some()
             && fixed_rate.is_some()
+            && fixed_leg_currency == floating_leg_currency
         {
             specific_type = PlainSwapType::IRS;
         }
-- 
2.43.0


From 9d12b867590cfa9951f4b617fd2b804417737656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 33/59] fix: a bond built from conventions needs exactly one
 kind of coupon

---
 quantlib/src/instruments/bond.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 525127d..09acbce 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -175,6 +175,17 @@ impl Bond {
         name: String,
         code: String,
     ) -> Result<Bond> {
+        // exactly one of fixed_coupon_rate and rate_index must be given
+        if fixed_coupon_rate.is_some() == rate_index.is_some() {
+            return Err(anyhow!(
+                "{}:{} name = {}, code = {}\n\
+                Exactly one of fixed_coupon_rate and rate_index must be given",
+                file!(),
+                line!(),
+                &name,
+                &code
+            ));
+        }
         let schedule = build_schedule(
             forward_generation,
             &effective_date,
-- 
2.43.0


From bb78e19051cc1189357f0ef4466355af1e5b3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 34/59] fix: the code of a cash position is its code, not its
 name

---
 quantlib/src/instruments/cash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instruments/cash.rs b/quantlib/src/instruments/cash.rs
index d31dce1..b3223f2 100644
--- a/quantlib/src/instruments/cash.rs
+++ b/quantlib/src/instruments/cash.rs
@@ -30,7 +30,7 @@ impl InstrumentTrait for Cash {
         1.0
     }
     fn get_code(&self) -> &String {
-        &self.name
+        &self.code
     }
 
     fn get_currency(&self) -> &Currency {
-- 
2.43.0


From 07f70612bf5308eed6458da5fb9e6864d2432f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 35/59] fix: include the floating leg currency of swaps in the
 currencies of a portfolio

---
 quantlib/src/instrument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 215d1c9..2f1325f 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -361,7 +361,7 @@ impl Instruments {
                         currencies.push(currency);
                     }
                 }
-                "PlainSwap" => {
+                "IRS" | "CRS" | "FxSwap" | "FxForward" | "FxSpot" => {
                     let currency = instrument.get_floating_leg_currency().with_context(|| {
                         anyhow!(
                             "({}:{}) get_floating_leg_currency failed for {} ({})",
-- 
2.43.0


From 52770c92e5e588e15158a37c0f2dfe151e2e8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 36/59] fix: list an instrument once per curve even if the
 curve has several roles for it

---
 quantlib/src/instrument.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/quantlib/src/instrument.rs b/quantlib/src/instrument.rs
index 2f1325f..4293ce4 100644
--- a/quantlib/src/instrument.rs
+++ b/quantlib/src/instrument.rs
@@ -435,27 +435,22 @@ impl Instruments {
             if exclude_type.contains(&instrument.get_type_name()) {
                 continue;
             }
+            // the same curve can have several roles (e.g., discount and forward of IRS),
+            // but the instrument must be listed only once
             // 1)
-            if match_parameter.get_discount_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
+            let mut is_using = match_parameter.get_discount_curve_name(instrument)? == curve_name;
             // 2)
-            if match_parameter
+            is_using |= match_parameter
                 .get_collateral_curve_names(instrument)?
-                .contains(&curve_name)
-            {
-                res.push(instrument.clone());
-            }
+                .contains(&curve_name);
             // 3) forward curve
-            if match_parameter.get_rate_index_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
+            is_using |= match_parameter.get_rate_index_curve_name(instrument)? == curve_name;
             // 4) crs curve
-            if match_parameter.get_crs_curve_name(instrument)? == curve_name {
-                res.push(instrument.clone());
-            }
+            is_using |= match_parameter.get_crs_curve_name(instrument)? == curve_name;
             // 5) floating crs curve
-            if match_parameter.get_floating_crs_curve_name(instrument)? == curve_name {
+            is_using |= match_parameter.get_floating_crs_curve_name(instrument)? == curve_name;
+
+            if is_using {
                 res.push(instrument.clone());
             }
         }
-- 
2.43.0


From 4d9d01a7f07262713041ba0ab6265ef970da0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 37/59] fix: bonds return their rank

---
 quantlib/src/instruments/bond.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantlib/src/instruments/bond.rs b/quantlib/src/instruments/bond.rs
index 09acbce..2a4c363 100644
--- a/quantlib/src/instruments/bond.rs
+++ b/quantlib/src/instruments/bond.rs
@@ -278,6 +278,10 @@ impl InstrumentTrait for Bond {
         Ok(&self.credit_rating)
     }
 
+    fn get_rank_type(&self) -> Result<&RankType> {
+        Ok(&self.rank)
+    }
+
     fn get_issuer_type(&self) -> Result<&IssuerType> {
         Ok(&self.issuer_type)
     }
-- 
2.43.0


From 4ab92fbc23e5f6f9ca6effb8c9b81b518194f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 38/59] fix: sum the expected cashflows which are paid on the
 same date

---
 quantlib/src/pricing_engines/npv_result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/npv_result.rs b/quantlib/src/pricing_engines/npv_result.rs
index c668575..50759ea 100644
--- a/quantlib/src/pricing_engines/npv_result.rs
+++ b/quantlib/src/pricing_engines/npv_result.rs
@@ -81,7 +81,7 @@ impl NpvResult {
                 .cashflow_probabilities
                 .get(id)
                 .ok_or_else(|| anyhow::anyhow!("No probability found for coupon id {}", id))?;
-            res.insert(*datetime, *amount * prob.1);
+            *res.entry(*datetime).or_insert(0.0) += *amount * prob.1;
         }
         Ok(res)
     }
-- 
2.43.0


From d64659a564953edd03d789f428e942b395552b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 39/59] fix: an fx code can be read back from its serialized
 form

---
 quantlib/src/currency.rs | 42 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/currency.rs b/quantlib/src/currency.rs
index 77cd966..9876dbe 100644
--- a/quantlib/src/currency.rs
+++ b/quantlib/src/currency.rs
@@ -1,4 +1,5 @@
-use serde::{Deserialize, Serialize, Serializer};
+use serde::de::{Error, IntoDeserializer};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -173,7 +174,7 @@ impl Currency {
     }
 }
 
-#[derive(Debug, Clone, Deserialize, PartialEq, Eq, Hash, Copy)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash, Copy)]
 pub struct FxCode {
     currency1: Currency,
     currency2: Currency,
@@ -189,6 +190,43 @@ impl Serialize for FxCode {
     }
 }
 
+/// reads what Serialize writes (e.g., "USD_KRW") as well as the struct form
+impl<'de> Deserialize<'de> for FxCode {
+    fn deserialize<D>(deserializer: D) -> Result<FxCode, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        enum Form {
+            Text(String),
+            Struct {
+                currency1: Currency,
+                currency2: Currency,
+            },
+        }
+
+        match Form::deserialize(deserializer)? {
+            Form::Text(text) => {
+                let (code1, code2) = text
+                    .split_once('_')
+                    .ok_or_else(|| D::Error::custom(format!("invalid fx code: {}", text)))?;
+                Ok(FxCode {
+                    currency1: Currency::deserialize(code1.into_deserializer())?,
+                    currency2: Currency::deserialize(code2.into_deserializer())?,
+                })
+            }
+            Form::Struct {
+                currency1,
+                currency2,
+            } => Ok(FxCode {
+                currency1,
+                currency2,
+            }),
+        }
+    }
+}
+
 impl FxCode {
     pub fn new(currency1: Currency, currency2: Currency) -> FxCode {
         FxCode {
-- 
2.43.0


From 00d27ce9923f694bcb82bd1b489573e538a36d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 40/59] fix: pay quanto options on the drift-adjusted forward

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index 6ca92d0..d686706 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -102,9 +102,12 @@ impl PricerTrait for OptionAnalyticPricer {
         let nd1 = normal.cdf(d1 as f64) as Real;
         let nd2 = normal.cdf(d2 as f64) as Real;
 
+        // the forward under the measure of the payoff currency
+        let quanto_fwd = fwd * (-quanto_adjustment).exp();
+
         match option_type {
-            OptionType::Call => Ok(dsc * (fwd * nd1 - strike * nd2)),
-            OptionType::Put => Ok(dsc * (strike * (1.0 - nd2) - fwd * (1.0 - nd1))),
+            OptionType::Call => Ok(dsc * (quanto_fwd * nd1 - strike * nd2)),
+            OptionType::Put => Ok(dsc * (strike * (1.0 - nd2) - quanto_fwd * (1.0 - nd1))),
         }
     }
 
-- 
2.43.0


From de3459349c6b1a09ac957bc9c5bc172c31bcbc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 41/59] fix: find bond yields by Newton's method instead of a
 diverging gradient descent

---
 .../src/pricing_engines/krx_yield_pricer.rs   | 77 ++++++-------------
 1 file changed, 23 insertions(+), 54 deletions(-)

diff --git a/quantlib/src/pricing_engines/krx_yield_pricer.rs b/quantlib/src/pricing_engines/krx_yield_pricer.rs
index 127e53d..1c5b643 100644
--- a/quantlib/src/pricing_engines/krx_yield_pricer.rs
+++ b/quantlib/src/pricing_engines/krx_yield_pricer.rs
@@ -8,9 +8,6 @@ use crate::pricing_engines::pricer::PricerTrait;
 use crate::time::{calendar_trait::CalendarTrait, conventions::DayCountConvention};
 //
 use anyhow::{anyhow, Context, Result};
-use argmin::core::{CostFunction, Error, Executor, Gradient};
-use argmin::solver::gradientdescent::SteepestDescent;
-use argmin::solver::linesearch::MoreThuenteLineSearch;
 use std::{cell::RefCell, rc::Rc};
 
 /// 금융투자회사의 영업 및 업무에 관한 규정 별표 14
@@ -48,61 +45,33 @@ impl KrxYieldPricer {
         self.bond_yield = bond_yield;
     }
 
+    /// Newton's method on the logarithm of the price, which is close to linear in the yield,
+    /// so that it converges even if the initial guess is far from the solution
     pub fn find_bond_yield(&self, bond: Bond, npv: Real, init_guess: Option<Real>) -> Result<Real> {
-        let pricer = self.clone();
-        let problem = KrxYieldPricerCostFunction::new(bond, npv, pricer);
-        let linesearch = MoreThuenteLineSearch::new();
-
-        let solver = SteepestDescent::new(linesearch);
-        let init_param = init_guess.unwrap_or(0.02);
-        let executor = Executor::new(problem, solver)
-            .configure(|state| state.param(init_param).max_iters(30).target_cost(1.0e-9));
-
-        let res = executor.run()?;
-        match res.state.best_param {
-            Some(param) => Ok(param),
-            None => Err(anyhow!("Failed to find bond yield")),
-        }
-    }
-}
-
-pub struct KrxYieldPricerCostFunction {
-    bond: Instrument,
-    npv: Real,
-    pricer: RefCell<KrxYieldPricer>,
-}
-
-impl KrxYieldPricerCostFunction {
-    pub fn new(bond: Bond, npv: Real, pricer: KrxYieldPricer) -> KrxYieldPricerCostFunction {
-        KrxYieldPricerCostFunction {
-            bond: Instrument::Bond(bond),
-            npv,
-            pricer: RefCell::new(pricer),
-        }
-    }
-}
-
-impl CostFunction for KrxYieldPricerCostFunction {
-    type Param = Real;
-    type Output = Real;
+        let h = 5.0e-5;
+        let max_iters = 30;
+        let target_cost = 1.0e-9;
+
+        let bond = Instrument::Bond(bond);
+        let mut pricer = self.clone();
+        let mut bond_yield = init_guess.unwrap_or(0.02);
+
+        for _ in 0..max_iters {
+            pricer.set_bond_yield(bond_yield);
+            let price = pricer.npv(&bond)?;
+            if (price - npv).powi(2) < target_cost {
+                return Ok(bond_yield);
+            }
+            pricer.set_bond_yield(bond_yield + h);
+            let price_up = pricer.npv(&bond)?;
+            pricer.set_bond_yield(bond_yield - h);
+            let price_down = pricer.npv(&bond)?;
 
-    fn cost(&self, param: &Self::Param) -> Result<Self::Output, Error> {
-        {
-            self.pricer.borrow_mut().set_bond_yield(*param);
+            let log_slope = (price_up - price_down) / (2.0 * h) / price;
+            bond_yield -= (price / npv).ln() / log_slope;
         }
-        let npv = self.pricer.borrow().npv(&self.bond)?;
-        Ok((npv - self.npv).powf(2.0))
-    }
-}
 
-impl Gradient for KrxYieldPricerCostFunction {
-    type Param = Real;
-    type Gradient = Real;
-
-    fn gradient(&self, param: &Self::Param) -> Result<Self::Gradient, Error> {
-        let h = 5.0e-5;
-        let grad = (self.cost(&(param + h))? - self.cost(&(param - h))?) / (2.0 * h);
-        Ok(grad)
+        Err(anyhow!("Failed to find bond yield"))
     }
 }
 
-- 
2.43.0


From 214b75635eb268651f3cffe1a8c7215c757f99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 42/59] fix: KTBF pricer takes the borrowing curve its tag is
 mapped to

---
 quantlib/src/pricing_engines/pricer_factory.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 5bd8205..d610391 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -287,23 +287,22 @@ impl PricerFactory {
             )
             })?
             .clone();
-        let collateral_curve_name = self
-            .match_parameter
-            .get_collateral_curve_names(instrument)?[0];
-        let collateral_curve = self
+        // the repo curve of KTBF is mapped through its borrowing curve tag
+        let borrowing_curve_name = self.match_parameter.get_borrowing_curve_names(instrument)?[0];
+        let borrowing_curve = self
             .zero_curves
-            .get(collateral_curve_name)
+            .get(borrowing_curve_name)
             .ok_or_else(|| {
                 anyhow::anyhow!(
-                "({}:{}) failed to get collateral curve of {}.\nself.zero_curves does not have {}",
-                file!(), line!(), instrument.get_code(), collateral_curve_name,
+                "({}:{}) failed to get borrowing curve of {}.\nself.zero_curves does not have {}",
+                file!(), line!(), instrument.get_code(), borrowing_curve_name,
             )
             })?
             .clone();
         let core = KtbfPricer::new(
             self.evaluation_date.clone(),
             discount_curve,
-            collateral_curve,
+            borrowing_curve,
         );
 
         Ok(Pricer::KtbfPricer(core))
-- 
2.43.0


From e079544e264c9f0e113fd46c5bf4238a9273566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 43/59] fix: IRS pricer is made with the curve that discounts
 it

---
 quantlib/src/pricing_engines/pricer_factory.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index d610391..dc913dc 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -2,6 +2,7 @@ use crate::currency::FxCode;
 use crate::enums::VanillaOptionCalculationMethod;
 use crate::evaluation_date::EvaluationDate;
 use crate::instrument::{Instrument, InstrumentTrait};
+use crate::instruments::plain_swap::PlainSwapType;
 use crate::parameters::{market_price::MarketPrice, past_price::DailyClosePrice};
 use crate::parameters::{
     quanto::Quanto, rate_index::RateIndex, volatility::Volatility, zero_curve::ZeroCurve,
@@ -349,16 +350,24 @@ impl PricerFactory {
     }
 
     fn get_plain_swap_pricer(&self, instrument: &Rc<Instrument>) -> Result<Pricer> {
-        let fixed_leg_discount_curve_name = self.match_parameter.get_crs_curve_name(instrument)?;
+        // IRS has no crs curves: both legs are discounted by the rate index forward curve
+        let is_irs = instrument.get_specific_plain_swap_type()? == PlainSwapType::IRS;
+        let fixed_leg_discount_curve_name = match is_irs {
+            true => self.match_parameter.get_discount_curve_name(instrument)?,
+            false => self.match_parameter.get_crs_curve_name(instrument)?,
+        };
         let fixed_leg_discount_curve = self.zero_curves.get(fixed_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get fixed leg discount curve of {}.\nself.zero_curves does not have {}",
                 file!(), line!(), instrument.get_code(), fixed_leg_discount_curve_name,
             ))?.clone();
 
-        let floating_leg_discount_curve_name = self
-            .match_parameter
-            .get_floating_crs_curve_name(instrument)?;
+        let floating_leg_discount_curve_name = match is_irs {
+            true => fixed_leg_discount_curve_name,
+            false => self
+                .match_parameter
+                .get_floating_crs_curve_name(instrument)?,
+        };
         let floating_leg_discount_curve = self.zero_curves.get(floating_leg_discount_curve_name)
             .ok_or_else(|| anyhow::anyhow!(
                 "({}:{}) failed to get floating leg discount curve of {}.\nself.zero_curves does not have {}",
-- 
2.43.0


From 059d74d996776556f8754231178bb20047e56e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 44/59] fix: options settled daily are priced without
 discounting

---
 .../src/pricing_engines/pricer_factory.rs     | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index dc913dc..8a6a286 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -1,5 +1,5 @@
 use crate::currency::FxCode;
-use crate::enums::VanillaOptionCalculationMethod;
+use crate::enums::{OptionDailySettlementType, VanillaOptionCalculationMethod};
 use crate::evaluation_date::EvaluationDate;
 use crate::instrument::{Instrument, InstrumentTrait};
 use crate::instruments::plain_swap::PlainSwapType;
@@ -201,16 +201,20 @@ impl PricerFactory {
                 file!(), line!(), instrument.get_code(), instrument.get_underlying_codes()[0],
             ))?.clone();
         let discount_curve_name = self.match_parameter.get_discount_curve_name(instrument)?;
-        let discount_curve = self
-            .zero_curves
-            .get(discount_curve_name)
-            .ok_or_else(|| {
-                anyhow::anyhow!(
-                "({}:{}) failed to get discount curve of {}.\nself.zero_curves does not have {}",
-                file!(), line!(), instrument.get_code(), discount_curve_name,
-            )
-            })?
-            .clone();
+        // an option settled daily is not discounted
+        let discount_curve = match instrument.get_option_daily_settlement_type()? {
+            OptionDailySettlementType::Settled => Rc::new(RefCell::new(ZeroCurve::dummy_curve()?)),
+            OptionDailySettlementType::NotSettled => self
+                .zero_curves
+                .get(discount_curve_name)
+                .ok_or_else(|| {
+                    anyhow::anyhow!(
+                    "({}:{}) failed to get discount curve of {}.\nself.zero_curves does not have {}",
+                    file!(), line!(), instrument.get_code(), discount_curve_name,
+                )
+                })?
+                .clone(),
+        };
 
         let collateral_curve_name = self
             .match_parameter
-- 
2.43.0


From def382cf44b3ce747f41e1fdb1ce8c97f9d42b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 45/59] fix: vega matrices are reported under their own
 underlying only

---
 quantlib/src/pricing_engines/engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e118ac9..a3a295d 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1396,6 +1396,8 @@ impl Engine {
                 .instruments
                 .get_all_inst_code_clone(Some(&self.instruments_in_action));
 
+            // matrices of the previous underlying are not of this one
+            single_vega_matrix.clear();
             for inst_code in inst_codes_in_action.iter() {
                 let init = Array2::zeros((calc_times.len(), spot_moneyness.len()));
                 single_vega_matrix.insert(inst_code.clone(), init);
-- 
2.43.0


From e0a2518e51228c2b2292bdc4c55048c2c1a74fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 46/59] fix: dividend delta skips underlyings without dividend
 data

---
 quantlib/src/pricing_engines/engine.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index a3a295d..30f600e 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1543,13 +1543,14 @@ impl Engine {
             if self.instruments_in_action.is_empty() {
                 continue;
             }
+            // an underlying without dividend data has no dividend delta
+            let dividend = match self.dividends.get(div_code) {
+                Some(Some(dividend)) => dividend.clone(),
+                _ => continue,
+            };
             // bump dividend but limit the scope that is mutably borrowed
             {
-                self.dividends
-                    .get(div_code)
-                    .unwrap()
-                    .clone()
-                    .unwrap()
+                dividend
                     .borrow_mut()
                     .bump_date_interval(None, None, bump_val)?;
             }
@@ -1582,11 +1583,7 @@ impl Engine {
             }
             // put back the bump
             {
-                self.dividends
-                    .get(div_code)
-                    .unwrap()
-                    .clone()
-                    .unwrap()
+                dividend
                     .borrow_mut()
                     .bump_date_interval(None, None, -bump_val)?;
             }
-- 
2.43.0


From eda083eaeeaeffff073ed61dd9b812b2c773b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 47/59] fix: vega matrix is bumped by the configured
 vega_matrix_bump_value

---
 quantlib/src/pricing_engines/calculation_configuration.rs | 4 ++++
 quantlib/src/pricing_engines/engine.rs                    | 4 +---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantlib/src/pricing_engines/calculation_configuration.rs b/quantlib/src/pricing_engines/calculation_configuration.rs
index a9395c5..e0d5d79 100644
--- a/quantlib/src/pricing_engines/calculation_configuration.rs
+++ b/quantlib/src/pricing_engines/calculation_configuration.rs
@@ -417,6 +417,10 @@ impl CalculationConfiguration {
         self.vega_structure_bump_value
     }
 
+    pub fn get_vega_matrix_bump_value(&self) -> Real {
+        self.vega_matrix_bump_value
+    }
+
     pub fn get_delta_bump_ratio(&self) -> Real {
         self.delta_bump_ratio
     }
diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 30f600e..e79da83 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1351,9 +1351,7 @@ impl Engine {
     pub fn set_vega_matrix(&mut self) -> Result<()> {
         let all_underlying_codes = self.instruments.get_all_underlying_codes();
         let eval_dt = self.evaluation_date.borrow().get_date_clone();
-        let bump_val = self
-            .calculation_configuration
-            .get_vega_structure_bump_value();
+        let bump_val = self.calculation_configuration.get_vega_matrix_bump_value();
         let calc_tenors = self.calculation_configuration.get_vega_structure_tenors();
 
         let time_calculator = NullCalendar::default();
-- 
2.43.0


From 5caee94df36501592e0d308025d2924d7e2d9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 48/59] fix: an engine can be calculated again

---
 quantlib/src/pricing_engines/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index e79da83..55c3f60 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -1960,6 +1960,9 @@ impl Engine {
         let mut timer = std::time::Instant::now();
         let start_time = std::time::Instant::now();
 
+        // a previous calculation leaves only the instruments it ended with
+        self.reset_instruments_in_action();
+
         if !self.instruments_in_action.is_empty() {
             warn!(
                 "* no instruments to calculate in engine-{}\n",
-- 
2.43.0


From a3ccb528895045a3ebf8935b1b0a0f76f9c44fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 49/59] fix: a futures pricer without its equity is refused,
 not a panic

---
 quantlib/src/pricing_engines/pricer_factory.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/quantlib/src/pricing_engines/pricer_factory.rs b/quantlib/src/pricing_engines/pricer_factory.rs
index 8a6a286..59ea937 100644
--- a/quantlib/src/pricing_engines/pricer_factory.rs
+++ b/quantlib/src/pricing_engines/pricer_factory.rs
@@ -149,7 +149,19 @@ impl PricerFactory {
     }
     fn get_futures_pricer(&self, instrument: &Rc<Instrument>) -> Result<Pricer> {
         let underlying_codes = instrument.get_underlying_codes();
-        let equity = self.equities.get(underlying_codes[0]).unwrap().clone();
+        let equity = self
+            .equities
+            .get(underlying_codes[0])
+            .ok_or_else(|| {
+                anyhow::anyhow!(
+                    "({}:{}) failed to get equity of {}.\nself.equities does not have {}",
+                    file!(),
+                    line!(),
+                    instrument.get_code(),
+                    underlying_codes[0],
+                )
+            })?
+            .clone();
         let collatral_curve_name = self
             .match_parameter
             .get_collateral_curve_names(instrument)?[0];
-- 
2.43.0


From 7ff36a62b36093a9484bd673a6d6fc64bcc92a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 50/59] fix: load the government bond and repo curves a KTBF is
 valued with

---
 quantlib/src/pricing_engines/engine.rs | 28 ++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/quantlib/src/pricing_engines/engine.rs b/quantlib/src/pricing_engines/engine.rs
index 55c3f60..98a85b0 100644
--- a/quantlib/src/pricing_engines/engine.rs
+++ b/quantlib/src/pricing_engines/engine.rs
@@ -259,6 +259,34 @@ impl Engine {
                 );
             }
         }
+        // KTBF is valued with the government bond curve and the curve its borrowing tag maps to,
+        // neither of which is listed by get_all_curve_names
+        for instrument in self.instruments.instruments_with_types(vec!["KTBF"]) {
+            let borrowing_curve_names =
+                self.match_parameter.get_borrowing_curve_names(&instrument)?;
+            let krwgov = String::from("KRWGOV");
+            for curve_name in borrowing_curve_names.into_iter().chain(Some(&krwgov)) {
+                if zero_curves.contains_key(curve_name) {
+                    continue;
+                }
+                let data = curve_data.get(curve_name).with_context(|| {
+                    anyhow!(
+                        "({}:{}) failed to get curve data {} for {}",
+                        file!(),
+                        line!(),
+                        curve_name,
+                        instrument.get_code()
+                    )
+                })?;
+                let zero_curve = Rc::new(RefCell::new(ZeroCurve::new(
+                    self.evaluation_date.clone(),
+                    data,
+                    curve_name.clone(),
+                    curve_name.clone(),
+                )?));
+                zero_curves.insert(curve_name.clone(), zero_curve);
+            }
+        }
         //
         // equity parameters
         let mut equities = HashMap::new();
-- 
2.43.0


From c6d533526815adfafb7c99ba326561f5bd649268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 51/59] fix: print the best levels of a half book when the
 depth is limited

---
 trading-engine/src/orderbook/half_book.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index ffdeb9a..97e25c8 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -229,7 +229,8 @@ impl HalfBook {
         output.push_str(&"-".repeat(header.len()));
         output.push('\n');
     
-        for (price, level) in half_book.levels.iter().rev().take(depth) {
+        let skip = self.levels.len().saturating_sub(depth);
+        for (price, level) in half_book.levels.iter().rev().skip(skip) {
             output.push_str(&format!(
                 "{:<15} | {:<8} | {:<12}\n",
                 price, level.orders.len(), level.total_quantity
@@ -255,7 +256,8 @@ impl HalfBook {
         output.push_str(&"-".repeat(header.len()));
         output.push('\n');
     
-        for (price, level) in half_book.levels.iter().take(depth) {
+        let skip = self.levels.len().saturating_sub(depth);
+        for (price, level) in half_book.levels.iter().skip(skip) {
             output.push_str(&format!(
                 "{:>12} | {:>8} | {:>15}\n",
                 level.total_quantity, level.orders.len(), price
-- 
2.43.0


From 0396c8cd7d3a48f3327ce6d63a18be0f1ec82bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 52/59] fix: write number converters as the layout they are
 read from

---
 trading-engine/src/utils/numeric_converter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index c84eb88..2ec50f6 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -19,7 +19,7 @@ use crate::types::timestamp::{
     FIFTEEN_HOURS_NANOSCALE,
 };
 use anyhow::{anyhow, Result};
-use serde::{de::Deserializer, Deserialize, Serialize};
+use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 use std::ptr::read_unaligned;
 
 /// decimal_point_length includes the decimal point itself
@@ -295,7 +295,7 @@ pub fn parse_under32(u: &[u8], length: usize) -> u128 {
     parse_under16(upper, 16) * 10u128.pow((length - 16) as u32) + parse_under16(lower, length - 16)
 }
 
-#[derive(Debug, Serialize)]
+#[derive(Debug)]
 pub struct IntegerConverter {
     numcfg: NumReprCfg,
     is_signed: bool,
@@ -304,10 +304,19 @@ pub struct IntegerConverter {
     decimal_point_length: usize,
     decimal_number_point_length_i32: i32,
     parsing_length: usize,
-    #[serde(skip)]
     parser: fn(&[u8], usize, usize) -> u64,
 }
 
+impl Serialize for IntegerConverter {
+    // written as the NumReprCfg from which Deserialize makes the converter
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        self.numcfg.serialize(serializer)
+    }
+}
+
 impl<'de> Deserialize<'de> for IntegerConverter {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
-- 
2.43.0


From 63620ca5375932fad08c68c67fa974c4f07be422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 53/59] fix: refuse empty, unsorted or too small time grids of
 the bilinear interpolator

---
 .../interpolators/bilinear_interpolator.rs    | 51 ++++++++++++++++---
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/quantlib/src/math/interpolators/bilinear_interpolator.rs b/quantlib/src/math/interpolators/bilinear_interpolator.rs
index 1a92e84..6be50cf 100644
--- a/quantlib/src/math/interpolators/bilinear_interpolator.rs
+++ b/quantlib/src/math/interpolators/bilinear_interpolator.rs
@@ -28,6 +28,39 @@ impl Default for BilinearInterpolator {
 }
 
 impl BilinearInterpolator {
+    fn check_t_domain(
+        t_domain: &Array1<Real>,
+        allow_extrapolation: bool,
+        extrapolation_type: ExtraPolationType,
+    ) -> Result<()> {
+        if t_domain.is_empty() {
+            return Err(anyhow!(
+                "({}:{}) t_domain must not be empty",
+                file!(),
+                line!()
+            ));
+        }
+        if !is_ndarray_sorted(t_domain) {
+            return Err(anyhow!(
+                "({}:{}) t_domain must be sorted: \n{:?}",
+                file!(),
+                line!(),
+                t_domain
+            ));
+        }
+        if t_domain.len() == 1
+            && allow_extrapolation
+            && extrapolation_type == ExtraPolationType::Linear
+        {
+            return Err(anyhow!(
+                "({}:{}) linear extrapolation needs at least two elements in t_domain",
+                file!(),
+                line!()
+            ));
+        }
+        Ok(())
+    }
+
     pub fn new(
         t_domain: Array1<Real>,
         x_interpolator: Vec<LinearInterpolator1D>,
@@ -46,14 +79,11 @@ impl BilinearInterpolator {
                 x_interpolator
             ));
         }
-        if !is_ndarray_sorted(&t_domain) {
-            return Err(anyhow!(
-                "({}:{}) t_domain must be sorted: \n{:?}",
-                file!(),
-                line!(),
-                &t_domain
-            ));
-        }
+        Self::check_t_domain(
+            &t_domain,
+            t_domain_allow_extrapolation,
+            t_domain_extrapolation_type,
+        )?;
         Ok(BilinearInterpolator {
             t_domain,
             x_interpolator,
@@ -108,6 +138,11 @@ impl BilinearInterpolator {
                 values
             ));
         }
+        Self::check_t_domain(
+            &t_domain,
+            t_domain_allow_extrapolation,
+            t_domain_extrapolation_type,
+        )?;
         let mut x_interpolator: Vec<LinearInterpolator1D> = Vec::new();
         for i in 0..n {
             /*
-- 
2.43.0


From 106b8dd7d1759862b366a9a3f8a438c2afaa756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 54/59] fix: an order at the extreme price against an empty
 side is added to the book

---
 trading-engine/src/orderbook/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/orderbook/mod.rs b/trading-engine/src/orderbook/mod.rs
index 64a3b3c..1e7a06b 100644
--- a/trading-engine/src/orderbook/mod.rs
+++ b/trading-engine/src/orderbook/mod.rs
@@ -326,7 +326,8 @@ impl OrderBook {
                             self.asks.add_limit_order(order).expect("Failed to add limit order to ask half book");
                         }
                         Some((traded_history, rem))
-                    } else {
+                    } else { // there is no bid, the order price equals the best price of an empty side
+                        self.asks.add_limit_order(order).expect("Failed to add limit order to ask half book");
                         None
                     }
                 }
@@ -342,7 +343,8 @@ impl OrderBook {
                             self.bids.add_limit_order(order).expect("Failed to add limit order to bid half book");
                         }
                         Some((traded_history, rem))
-                    } else {
+                    } else { // there is no ask, the order price equals the best price of an empty side
+                        self.bids.add_limit_order(order).expect("Failed to add limit order to bid half book");
                         None
                     }
                 }
-- 
2.43.0


From 826a1469c86f8d93c47bd5b7b67e7debb04d81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 55/59] fix: a half book ignores an order without quantity

---
 trading-engine/src/orderbook/half_book.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trading-engine/src/orderbook/half_book.rs b/trading-engine/src/orderbook/half_book.rs
index 97e25c8..762589d 100644
--- a/trading-engine/src/orderbook/half_book.rs
+++ b/trading-engine/src/orderbook/half_book.rs
@@ -359,6 +359,10 @@ impl HalfBook {
             return Err(lazy_err());
         }
 
+        if order.quantity == 0 { // nothing to rest in the book
+            return Ok(());
+        }
+
         self.update_best_price(order.price);
 
         self.cache.insert(order.order_id, order.price);
-- 
2.43.0


From 0c823209ebf39e84b12b929786161f223449ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 56/59] fix: average trade price does not overflow

---
 trading-engine/src/types/base.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading-engine/src/types/base.rs b/trading-engine/src/types/base.rs
index fc54ea5..2e928c7 100644
--- a/trading-engine/src/types/base.rs
+++ b/trading-engine/src/types/base.rs
@@ -98,10 +98,10 @@ impl TradeHistory {
     #[inline]
     #[must_use]
     pub fn average_trade_price(&self) -> Real {
-        let mut sum = 0;
+        let mut sum: i128 = 0; // price times quantity may exceed 64 bits
         let mut total_quantity = 0;
         for (price, quantity) in self.history.iter() {
-            sum += price * (*quantity) as BookPrice;
+            sum += *price as i128 * *quantity as i128;
             total_quantity += quantity;
         }
         sum as Real / total_quantity as Real
-- 
2.43.0


From aca395a11daecebf97341ea3c17e2bf5668eca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 57/59] fix: the numeric parsers never read beyond the field
 they are given

---
 trading-engine/src/utils/numeric_converter.rs | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/trading-engine/src/utils/numeric_converter.rs b/trading-engine/src/utils/numeric_converter.rs
index 2ec50f6..eaaca8e 100644
--- a/trading-engine/src/utils/numeric_converter.rs
+++ b/trading-engine/src/utils/numeric_converter.rs
@@ -20,7 +20,6 @@ use crate::types::timestamp::{
 };
 use anyhow::{anyhow, Result};
 use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
-use std::ptr::read_unaligned;
 
 /// decimal_point_length includes the decimal point itself
 /// ex) 123.45 => digit_length: 3, decimal_point_length: 3, total_length: 6
@@ -65,6 +64,21 @@ impl NumReprCfg {
     }
 }
 
+/// The first bytes of the text as a little endian word.
+/// A text shorter than the word must not be read beyond its end: the missing bytes are zero.
+macro_rules! load_word {
+    ($u:expr, $word:ty) => {
+        match $u.first_chunk::<{ std::mem::size_of::<$word>() }>() {
+            Some(chunk) => <$word>::from_le_bytes(*chunk),
+            None => {
+                let mut chunk = [0u8; std::mem::size_of::<$word>()];
+                chunk[..$u.len()].copy_from_slice($u);
+                <$word>::from_le_bytes(chunk)
+            }
+        }
+    };
+}
+
 #[inline(always)]
 fn div_rem(dividend: i64, divisor: i64) -> (i64, i64) {
     let quotient = dividend / divisor;
@@ -82,7 +96,7 @@ fn div_rem_u64(u: u64, v: u64) -> (u64, u64) {
 #[inline(always)]
 pub fn parse_hhmmss_to_nanos(u: &[u8]) -> u64 {
     // "123456" => [?, ?, "6", "5", "4", "3", "2", "1"]
-    let mut seconds: u64 = unsafe { read_unaligned(u.as_ptr() as *const u64) };
+    let mut seconds: u64 = load_word!(u, u64);
     // [?, ?, "6", "5", "4", "3", "2", "1"] => ["6", "5", "4", "3", "2", "1", 0, 0] = b"00123456"
     seconds <<= 16;
     // lower_digits = [6, 0, 4, 0, 2, 0, 0, 0] => [0, 6, 0, 4, 0, 2, 0, 0]
@@ -163,7 +177,7 @@ pub fn parse_under8_with_floating_point(u: &[u8], length: usize, point_length: u
         _ => {
             // ex) u = "123.45", length = 6, point_length = 3,
             // "123.45" => "??123.45"
-            let mut chunk: u64 = unsafe { read_unaligned(u.as_ptr() as *const u64) };
+            let mut chunk: u64 = load_word!(u, u64);
             // "??123.45" => "123.4500"
             chunk <<= 64 - (length * 8);
             // "123.4500" => "12345000"
@@ -186,7 +200,7 @@ pub fn parse_under16_with_floating_point(u: &[u8], length: usize, point_length:
         0 => parse_under16(u, length) as u64,
         1 => parse_under16(&u[..(length - 1)], length - 1) as u64,
         _ => {
-            let mut chunk: u128 = unsafe { read_unaligned(u.as_ptr() as *const u128) };
+            let mut chunk: u128 = load_word!(u, u128);
             chunk <<= 128 - (length * 8);
             let point_mask = 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff << ((17 - point_length) * 8);
             let decimal_mask = !point_mask;
@@ -234,7 +248,7 @@ pub fn parse_under32_with_floating_point(u: &[u8], length: usize, point_length:
 }
 #[inline(always)]
 pub fn parse_2digits(u: &[u8]) -> u16 {
-    let chunk: u16 = unsafe { read_unaligned(u.as_ptr() as *const u16) };
+    let chunk: u16 = load_word!(u, u16);
     let lower = (chunk & 0x0f00) >> 8;
     let upper = (chunk & 0x000f) * 10;
     lower + upper
@@ -242,7 +256,7 @@ pub fn parse_2digits(u: &[u8]) -> u16 {
 
 #[inline(always)]
 pub fn parse_3digits(u: &[u8]) -> u32 {
-    let mut chunk: u32 = unsafe { read_unaligned(u.as_ptr() as *const u32) };
+    let mut chunk: u32 = load_word!(u, u32);
     chunk <<= 8;
 
     let lower: u32 = (chunk & 0x0f000f00) >> 8; 
@@ -266,7 +280,7 @@ pub fn parse_under8(u: &[u8], length: usize) -> u64 {
         length <= 8,
         "parse_under8: length must be less than or equal to 8"
     );
-    let mut chunk: u64 = unsafe { read_unaligned(u.as_ptr() as *const u64) };
+    let mut chunk: u64 = load_word!(u, u64);
     chunk <<= 64 - (length * 8);
     u8_chunk_to_u64_decimal(chunk)
 }
@@ -277,7 +291,7 @@ pub fn parse_under16(u: &[u8], length: usize) -> u128 {
         length <= 16,
         "parse_under16: length must be less than or equal to 16"
     );
-    let mut chunk: u128 = unsafe { read_unaligned(u.as_ptr() as *const u128) };
+    let mut chunk: u128 = load_word!(u, u128);
     chunk <<= 128 - (length * 8);
     u8_chunk_to_u128_decimal(chunk)
 }
-- 
2.43.0


From e98dfa3ecfbd497f694342b7b85be6d70c677d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 58/59] fix: logging after shutdown is ignored instead of
 panicking

---
 trading-engine/src/logger.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading-engine/src/logger.rs b/trading-engine/src/logger.rs
index e866636..d0f0c2d 100644
--- a/trading-engine/src/logger.rs
+++ b/trading-engine/src/logger.rs
@@ -330,7 +330,7 @@ macro_rules! log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func)));
         }
     }};
 
@@ -358,7 +358,7 @@ macro_rules! log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::LazyMessage($crate::LazyMessage::new(func)));
         }
     }};
 }
@@ -430,7 +430,7 @@ macro_rules! flushing_log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func)));
         }
     }};
 
@@ -458,7 +458,7 @@ macro_rules! flushing_log_fn_json {
                 json_msg.to_string() + "\n"
             };
 
-            $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func))).unwrap();
+            let _ = $crate::LOG_SENDER.try_send($crate::LogMessage::FlushingMessage($crate::LazyMessage::new(func)));
         }
     }};
 }
-- 
2.43.0


From 47fc1dbca0e8c0f155cadfac485f394f0515fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:42 +0000
Subject: [PATCH 59/59] fix: an option struck at the forward was worth NaN at
 the moment it expires

---
 quantlib/src/pricing_engines/option_analytic_pricer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantlib/src/pricing_engines/option_analytic_pricer.rs b/quantlib/src/pricing_engines/option_analytic_pricer.rs
index d686706..e5ad5c9 100644
--- a/quantlib/src/pricing_engines/option_analytic_pricer.rs
+++ b/quantlib/src/pricing_engines/option_analytic_pricer.rs
@@ -95,6 +95,15 @@ impl PricerTrait for OptionAnalyticPricer {
 
         let dsc = self.discount_curve.borrow().get_discount_factor(t)?;
 
+        // nothing is left to deviate (e.g., at the maturity):
+        // the formula below would be 0 / 0 for the strike at the forward
+        if total_deviation == 0.0 {
+            return match option_type {
+                OptionType::Call => Ok(dsc * (fwd - strike).max(0.0)),
+                OptionType::Put => Ok(dsc * (strike - fwd).max(0.0)),
+            };
+        }
+
         let d1 = (-y + total_variance / 2.0 - quanto_adjustment) / total_deviation;
         let d2 = d1 - total_deviation;
 
-- 
2.43.0

