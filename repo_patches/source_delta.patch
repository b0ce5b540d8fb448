From 29755dd10a71a10324c0c1065cfdea277dece80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 1/8] fix: mass_cancel_orders builds a MassCancelOrders
 instruction, not CloseMarket

---
 program/src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index 4861b63..d31c959 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -215,7 +215,7 @@ pub fn mass_cancel_orders(
 ) -> Instruction {
     let mut i = accounts.get_instruction(
         crate::id(),
-        AgnosticOrderbookInstruction::CloseMarket as u8,
+        AgnosticOrderbookInstruction::MassCancelOrders as u8,
         params,
     );
     i.accounts.push(AccountMeta {
-- 
2.43.0


From d00faa4d4d4a3bd2240ccf7c98a7ecc27053f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 2/8] fix: removing an absent order from a single-order slab
 returns None

---
 program/src/state/critbit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 336b0a0..81bb06d 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -351,6 +351,10 @@ impl<'a, C> Slab<'a, C> {
                     if leaf.order_id() == search_key {
                         remove_root = Some(*leaf);
                     }
+                    if remove_root.is_none() {
+                        // The tree holds a single order, and it isn't the one we're looking for
+                        return None;
+                    }
                 }
                 Node::Inner => {
                     let node = self.inner_nodes[(!parent_h) as usize];
-- 
2.43.0


From a5032cf56e5f4cff5ed28d622b075bc10818e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 3/8] fix: round_price does not overflow when the rounded ask
 price is representable

---
 program/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/utils.rs b/program/src/utils.rs
index 753c0db..c73cbb0 100644
--- a/program/src/utils.rs
+++ b/program/src/utils.rs
@@ -56,7 +56,7 @@ pub fn round_price(tick_size: u64, limit_price: u64, side: Side) -> u64 {
         // Round down
         Side::Bid => tick_size * (limit_price / tick_size),
         // Round up
-        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),
+        Side::Ask => tick_size * (limit_price / tick_size + (limit_price % tick_size != 0) as u64),
     }
 }
 
-- 
2.43.0


From 7aabb69ba343adbfb97927d5ed8662d9edfb13a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 4/8] fix: find_l2_depth counts every order of the last price
 level

---
 js/wasm/src/critbit.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index adc7beb..c12d661 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -385,12 +385,8 @@ impl<'a> Slab<'a> {
         }
         let mut result = Vec::with_capacity(2 * depth);
         let mut search_stack = vec![root.unwrap()];
-        while result.len() != 2 * depth {
-            let current = search_stack.pop();
-            if current.is_none() {
-                break;
-            }
-            let node = self.get_node(current.unwrap()).unwrap();
+        while let Some(current) = search_stack.pop() {
+            let node = self.get_node(current).unwrap();
             match node {
                 Node::Inner(ref inner) => {
                     search_stack.push(inner.children[increasing as usize]);
@@ -401,6 +397,9 @@ impl<'a> Slab<'a> {
                     if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                         let idx = result.len() - 2;
                         result[idx] += leaf.base_quantity;
+                    } else if result.len() == 2 * depth {
+                        // The last requested level is complete
+                        break;
                     } else {
                         result.push(leaf.base_quantity);
                         result.push(leaf_price);
-- 
2.43.0


From edb648b473f9e83498e06f3438868598bcf6f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 5/8] fix: create_market refuses book accounts of a size that
 cannot be opened

A bids or asks account too small for a single order, or leaving a partial
callback info at its end, was accepted and tagged, after which every instruction
on the market, closing included, panicked.
---
 program/src/processor/create_market.rs |  2 ++
 program/src/state/critbit.rs           | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 4df4a09..29bd573 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -91,6 +91,8 @@ pub fn process<'a, 'b: 'a, C: Pod>(
     }
 
     EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow()).unwrap();
+    Slab::<C>::check_buffer_size(&accounts.bids.data.borrow())?;
+    Slab::<C>::check_buffer_size(&accounts.asks.data.borrow())?;
 
     let mut market_data = accounts.market.data.borrow_mut();
 
diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 81bb06d..c90a3a8 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -3,7 +3,7 @@ use crate::error::AoError;
 use crate::state::AccountTag;
 use borsh::{BorshDeserialize, BorshSerialize};
 use bytemuck::{Pod, Zeroable};
-use solana_program::program_error::ProgramError;
+use solana_program::{entrypoint::ProgramResult, msg, program_error::ProgramError};
 // A Slab contains the data for a slab header and two type-split arrays of inner nodes and leaves arranger in a critbit tree
 // whose leaves contain data referencing an order of the orderbook.
 
@@ -135,6 +135,25 @@ impl<'slab, C> Slab<'slab, C> {
 }
 
 impl<'a, C: Pod> Slab<'a, C> {
+    /// Checks that a buffer of this size can be opened by [`from_buffer`][`Slab::from_buffer`]
+    pub(crate) fn check_buffer_size(buffer: &[u8]) -> ProgramResult {
+        let callback_info_len = std::mem::size_of::<C>();
+        let slot_size = LeafNode::LEN + InnerNode::LEN + callback_info_len;
+        let extra_len = match buffer.len().checked_sub(Self::compute_allocation_size(1)) {
+            Some(l) => l % slot_size,
+            None => {
+                msg!("The slab account is too small!");
+                return Err(ProgramError::InvalidAccountData);
+            }
+        };
+        // What is left over after the last slot is part of the callback infos
+        if extra_len % callback_info_len != 0 {
+            msg!("Slab account size is invalid!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        Ok(())
+    }
+
     pub fn from_buffer(buf: &'a mut [u8], expected_tag: AccountTag) -> Result<Self, ProgramError> {
         let callback_info_len = std::mem::size_of::<C>();
         let leaf_size = LeafNode::LEN + callback_info_len;
-- 
2.43.0


From d7eb1ca4d25f6d022668395f6fd68f9b1b3aa234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:15 +0000
Subject: [PATCH 6/8] fix: parseFill reads the queued events, from the head of
 the queue

---
 js/src/event_queue.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index 396195a..b91d8e9 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -266,7 +266,7 @@ export class EventQueue {
       ? Math.min(limit, this.header.count.toNumber())
       : this.header.count.toNumber();
     return [...Array(n).keys()]
-      .map((e) => this.parseEvent(e))
+      .map((e) => this.peekAt(e))
       .filter((e) => e instanceof EventFill);
   }
 
-- 
2.43.0


From c98b806c82feb9752d2ddc7db5db8f64d93a4312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:15 +0000
Subject: [PATCH 7/8] fix: the client's account tags are those the program
 writes

---
 js/src/event_queue.ts  | 4 ++--
 js/src/market_state.ts | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index b91d8e9..9e557dc 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -41,8 +41,8 @@ export class EventQueueHeader {
     ],
   ]);
 
-  constructor(arg: { tag: number; head: BN; count: BN; seqNum: BN }) {
-    this.tag = arg.tag as AccountTag;
+  constructor(arg: { tag: BN; head: BN; count: BN; seqNum: BN }) {
+    this.tag = arg.tag.toNumber() as AccountTag;
     this.head = arg.head;
     this.count = arg.count;
     this.seqNum = arg.seqNum;
diff --git a/js/src/market_state.ts b/js/src/market_state.ts
index f6cc42e..3ff75d7 100644
--- a/js/src/market_state.ts
+++ b/js/src/market_state.ts
@@ -10,10 +10,11 @@ import BN from "bn.js";
 /** @enum {number} */
 export enum AccountTag {
   Initialized = 0,
-  Market = 1,
-  EventQueue = 2,
-  Bids = 3,
-  Asks = 4,
+  Market = 128,
+  EventQueue = 129,
+  Bids = 130,
+  Asks = 131,
+  Disabled = 132,
 }
 
 /** @enum {number} */
-- 
2.43.0


From 7d8db0e13217d8aac8485fe1efbdc3a616b9a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:15 +0000
Subject: [PATCH 8/8] fix: the slab reader takes whole slots where the program
 does

---
 js/src/slab.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/js/src/slab.ts b/js/src/slab.ts
index c416a06..7d60858 100644
--- a/js/src/slab.ts
+++ b/js/src/slab.ts
@@ -160,9 +160,10 @@ export class Slab {
     this.callBackInfoLen = arg.callBackInfoLen;
     const leafSize = LeafNode.LEN + arg.callBackInfoLen;
 
-    const capacity =
+    const capacity = Math.floor(
       (arg.buffer.length - SlabHeader.LEN - leafSize) /
-      (leafSize + InnerNode.LEN);
+        (leafSize + InnerNode.LEN)
+    );
     let innerNodesBufferOffset = SlabHeader.LEN + (capacity + 1) * LeafNode.LEN;
     let leavesBuffer = arg.buffer.slice(SlabHeader.LEN, innerNodesBufferOffset);
     let callbackInfoBufferOffset =
@@ -172,7 +173,7 @@ export class Slab {
       callbackInfoBufferOffset
     );
     let callbackInfoBuffer = arg.buffer.slice(callbackInfoBufferOffset);
-    this.orderCapacity = Math.floor(capacity);
+    this.orderCapacity = capacity;
     this.leafBuffer = leavesBuffer;
     this.innerNodeBuffer = innerNodeBuffer;
     this.callbackInfoBuffer = callbackInfoBuffer;
-- 
2.43.0

