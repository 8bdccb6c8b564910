From 880ba1d938c07e50004f4789a0a6c7518c8d3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:40 +0000
Subject: [PATCH 01/41] fix: validate fork candidates against their own branch,
 not the active chain

The median time past, the difficulty adjustment period and the minimum-difficulty
walk-back of a header on a fork were computed from the active chain.
---
 chain/src/block/cache.rs | 71 +++++++++++++++++++++++++++++++++-------
 common/src/block/tree.rs | 29 +++++++++++++---
 2 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 1631e48..b87ba6a 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -196,15 +196,24 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     /// Panics if height is `0`.
     ///
     pub fn median_time_past(&self, height: Height) -> BlockTime {
+        self.branch_median_time_past(height, &[])
+    }
+
+    /// Get the median time past for the blocks leading up to the given height, when the last
+    /// `branch.len()` of these blocks are those of the given branch.
+    fn branch_median_time_past(&self, height: Height, branch: &[BlockHeader]) -> BlockTime {
         assert!(height != 0, "height must be > 0");
 
         let mut times = [0; time::MEDIAN_TIME_SPAN as usize];
 
         let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);
         let end = height;
+        let fork = end - branch.len() as Height;
 
-        for (i, blk) in self.range(start..end).enumerate() {
-            times[i] = blk.time;
+        for (i, height) in (start..end).enumerate() {
+            if let Some(header) = self.branch_header(height, fork, branch) {
+                times[i] = header.time;
+            }
         }
 
         // Gracefully handle the case where `height` < `MEDIUM_TIME_SPAN`.
@@ -214,6 +223,21 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         available[available.len() / 2]
     }
 
+    /// Get the header at the given height, on a branch of which `branch[0]` is at height `start`,
+    /// and which is the active chain below that height.
+    fn branch_header<'a>(
+        &'a self,
+        height: Height,
+        start: Height,
+        branch: &'a [BlockHeader],
+    ) -> Option<&'a BlockHeader> {
+        if height >= start {
+            branch.get((height - start) as usize)
+        } else {
+            self.get_block_by_height(height)
+        }
+    }
+
     /// Import a block into the tree. Performs header validation. This function may trigger
     /// a chain re-org.
     fn import_block(
@@ -232,7 +256,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // Block extends the active chain. We can fully validate it before proceeding.
         // Instead of adding the block to the main chain, we let chain selection do the job.
         if header.prev_blockhash == best {
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
         }
 
         // Validate that the block's PoW is valid against its difficulty target, and
@@ -425,8 +449,8 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             header: candidate.fork_header,
         };
 
-        for header in candidate.headers.iter() {
-            self.validate(&tip, header, clock)?;
+        for (i, header) in candidate.headers.iter().enumerate() {
+            self.validate(&tip, &candidate.headers[..i], header, clock)?;
 
             tip = CachedBlock {
                 height: tip.height + 1,
@@ -437,9 +461,13 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Validate a block header as a potential new tip. This performs full header validation.
+    ///
+    /// If the tip is not on the active chain, `branch` has the headers after the fork, up to
+    /// and including the tip. Otherwise, it is empty.
     fn validate(
         &self,
         tip: &CachedBlock,
+        branch: &[BlockHeader],
         header: &BlockHeader,
         clock: &impl Clock,
     ) -> Result<(), Error> {
@@ -451,10 +479,22 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             if header.time > tip.time + self.params.pow_target_spacing as BlockTime * 2 {
                 block::pow_limit_bits(&self.params.network)
             } else {
-                self.next_min_difficulty_target(&self.params)
+                self.next_min_difficulty_target(tip.height, branch, &self.params)
             }
         } else {
-            self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
+            let start = tip.height + 1 - branch.len() as Height;
+            let interval = self.params.difficulty_adjustment_interval();
+            let last_adjustment_block = self
+                .branch_header(tip.height.saturating_sub(interval - 1), start, branch)
+                .unwrap_or_else(|| self.genesis());
+
+            self.next_branch_difficulty_target(
+                tip.height,
+                tip.time,
+                tip.target(),
+                last_adjustment_block,
+                &self.params,
+            )
         };
 
         let target = BlockHeader::u256_from_compact_target(compact_target);
@@ -484,7 +524,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // A timestamp is accepted as valid if it is greater than the median timestamp of
         // the previous MEDIAN_TIME_SPAN blocks, and less than the network-adjusted
         // time + MAX_FUTURE_BLOCK_TIME.
-        if header.time <= self.median_time_past(height) {
+        if header.time <= self.branch_median_time_past(height, branch) {
             return Err(Error::InvalidBlockTime(header.time, Ordering::Less));
         }
         if header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME {
@@ -495,12 +535,21 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Get the next minimum-difficulty target. Only valid in testnet and regtest networks.
-    fn next_min_difficulty_target(&self, params: &Params) -> Bits {
+    fn next_min_difficulty_target(
+        &self,
+        tip: Height,
+        branch: &[BlockHeader],
+        params: &Params,
+    ) -> Bits {
         assert!(params.allow_min_difficulty_blocks);
 
         let pow_limit_bits = block::pow_limit_bits(&params.network);
+        let start = tip + 1 - branch.len() as Height;
 
-        for (height, header) in self.iter().rev() {
+        for (height, header) in (0..=tip)
+            .rev()
+            .filter_map(|h| self.branch_header(h, start, branch).map(|b| (h, b)))
+        {
             if header.bits != pow_limit_bits
                 || height % self.params.difficulty_adjustment_interval() == 0
             {
@@ -633,7 +682,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         if header.prev_blockhash == tip.hash() {
             let height = tip.height + 1;
 
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
             self.extend_chain(height, hash, header);
             self.store.put(std::iter::once(header))?;
 
diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index f02f2ed..ef8b99c 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -207,6 +207,30 @@ pub trait BlockReader {
         last_time: BlockTime,
         last_target: Target,
         params: &Params,
+    ) -> Bits {
+        let last_adjustment_height =
+            last_height.saturating_sub(params.difficulty_adjustment_interval() - 1);
+        let last_adjustment_block = self
+            .get_block_by_height(last_adjustment_height)
+            .unwrap_or_else(|| self.genesis());
+
+        self.next_branch_difficulty_target(
+            last_height,
+            last_time,
+            last_target,
+            last_adjustment_block,
+            params,
+        )
+    }
+    /// Get the next difficulty given a block height, time and bits, and the block that started
+    /// the difficulty period, which may not be on the active chain.
+    fn next_branch_difficulty_target(
+        &self,
+        last_height: Height,
+        last_time: BlockTime,
+        last_target: Target,
+        last_adjustment_block: &BlockHeader,
+        params: &Params,
     ) -> Bits {
         // Only adjust on set intervals. Otherwise return current target.
         // Since the height is 0-indexed, we add `1` to check it against the interval.
@@ -214,11 +238,6 @@ pub trait BlockReader {
             return BlockHeader::compact_target_from_u256(&last_target);
         }
 
-        let last_adjustment_height =
-            last_height.saturating_sub(params.difficulty_adjustment_interval() - 1);
-        let last_adjustment_block = self
-            .get_block_by_height(last_adjustment_height)
-            .unwrap_or_else(|| self.genesis());
         let last_adjustment_time = last_adjustment_block.time;
 
         if params.no_pow_retargeting {
-- 
2.43.0


From ade88cdd899fd59d55a38df2eda19363dfbe912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:33 +0000
Subject: [PATCH 02/41] fix: report the net effect of an import that re-orgs
 more than once

---
 chain/src/block/cache.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index b87ba6a..e7cb06a 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -8,7 +8,7 @@
 pub mod test;
 
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::ops::ControlFlow;
 
 use nakamoto_common as common;
@@ -614,7 +614,6 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         chain: I,
         context: &C,
     ) -> Result<ImportResult, Error> {
-        let mut seen = BTreeSet::new();
         let mut reverted = BTreeMap::new();
         let mut connected = BTreeMap::new();
         let mut best_height = self.height();
@@ -630,9 +629,23 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     reverted: r,
                     connected: c,
                 }) => {
-                    seen.extend(c.iter().map(|(_, h)| h.block_hash()));
-                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));
-                    connected.extend(c);
+                    // There may be more than one re-org during the import. We only want to return
+                    // the difference with the chain we started with, so a block that is connected
+                    // and then reverted, or the other way around, is left out.
+                    for (i, h) in r {
+                        let key = (i, h.block_hash());
+
+                        if connected.remove(&key).is_none() {
+                            reverted.insert(key, h);
+                        }
+                    }
+                    for (i, h) in c {
+                        let key = (i, h.block_hash());
+
+                        if reverted.remove(&key).is_none() {
+                            connected.insert(key, h);
+                        }
+                    }
 
                     best_hash = hash;
                     best_height = height;
@@ -645,13 +658,9 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
             }
         }
 
-        if !connected.is_empty() {
-            // Don't return reverted blocks if they were seen as connected at some point, since
-            // we only want to include blocks reverted from the main chain.
-            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
-            // Don't return connected blocks if they are not in the main chain.
-            connected.retain(|_, h| self.contains(&h.block_hash()));
+        let connected = connected.into_iter().map(|((i, _), h)| (i, h)).collect();
 
+        if let Some(connected) = NonEmpty::from_vec(connected) {
             Ok(ImportResult::TipChanged {
                 header: best_header,
                 hash: best_hash,
@@ -661,9 +670,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     .rev()
                     .map(|((i, _), h)| (i, h))
                     .collect(),
-                connected: NonEmpty::from_vec(connected.into_iter().collect()).expect(
-                    "BlockCache::import_blocks: there is always at least one connected block",
-                ),
+                connected,
             })
         } else {
             Ok(ImportResult::TipUnchanged)
-- 
2.43.0


From 1bc54ce7772f55484cf52b73d97b4d2bb45df71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:33 +0000
Subject: [PATCH 03/41] fix: don't underflow on a difficulty period of negative
 duration

---
 common/src/block/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index ef8b99c..cb01b5f 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -244,7 +244,7 @@ pub trait BlockReader {
             return last_adjustment_block.bits;
         }
 
-        let actual_timespan = last_time - last_adjustment_time;
+        let actual_timespan = last_time.saturating_sub(last_adjustment_time);
         let mut adjusted_timespan = actual_timespan;
 
         if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-- 
2.43.0


From a7d93ae0553adff85f167913ce8666f768ee409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:16 +0000
Subject: [PATCH 04/41] fix: don't overflow on a peer clock that is i64::MIN
 seconds off

The median of the samples may be any 64-bit value, and i64::MIN has no
absolute value, so AdjustedTime::record_offset panicked on it.
---
 common/src/block/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..255d5ee 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if median_offset.unsigned_abs() <= MAX_TIME_ADJUSTMENT as u64 {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
-- 
2.43.0


From 62a69b28c793fea3c1b76afc3d118bedfd183931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:06 +0000
Subject: [PATCH 05/41] fix: an empty range of filter headers is not an
 underflow

A `getcfheaders` message whose start height is above the height of its stop
block made the node panic.
---
 chain/src/filter/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chain/src/filter/cache.rs b/chain/src/filter/cache.rs
index 8f62ac8..483141b 100644
--- a/chain/src/filter/cache.rs
+++ b/chain/src/filter/cache.rs
@@ -144,7 +144,7 @@ impl<S: Store<Header = StoredHeader>> Filters for FilterCache<S> {
         self.headers
             .iter()
             .skip(start as usize)
-            .take(end as usize - start as usize + 1)
+            .take((end as usize).saturating_add(1).saturating_sub(start as usize))
             .map(|h| (h.hash, h.header))
             .collect()
     }
-- 
2.43.0


From 7776661e5ea5286224a244d702263a890af0cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:46 +0000
Subject: [PATCH 06/41] fix: don't overflow on the timestamp of a version
 message

---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..cd59143 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -521,7 +521,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     peer: Some(PeerInfo {
                         nonce,
                         height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From 05a7bac4689de66e649508cc518b907025a4bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:46 +0000
Subject: [PATCH 07/41] fix: don't take a negative start height for a huge one

---
 p2p/src/fsm/peermgr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index cd59143..6450560 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -444,6 +444,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 relay,
                 ..
             } = msg.clone();
+            // A negative height is not an astronomically large one.
+            let start_height = Height::try_from(start_height).unwrap_or_default();
 
             let target = self.config.target_outbound_peers;
             let preferred = self.config.preferred_services;
@@ -464,10 +466,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             // If the peer is too far behind, there's no use connecting to it, we'll
             // have to wait for it to catch up.
             if conn.link.is_outbound()
-                && height.saturating_sub(start_height as Height) > MAX_STALE_HEIGHT_DIFFERENCE
+                && height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE
                 && !trusted
             {
-                return Err(DisconnectReason::PeerHeight(start_height as Height));
+                return Err(DisconnectReason::PeerHeight(start_height));
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
@@ -520,7 +522,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     conn,
                     peer: Some(PeerInfo {
                         nonce,
-                        height: start_height as Height,
+                        height: start_height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
-- 
2.43.0


From 5aab21d014e8f643620596b8a5f1d9b74ebec2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:46 +0000
Subject: [PATCH 08/41] fix: allow as many inbound peers as configured, not one
 less

---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 6450560..54c1eac 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -328,7 +328,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         match link {
             Link::Inbound => {
                 if self.connected().filter(|c| c.link.is_inbound()).count()
-                    >= self.config.max_inbound_peers
+                    > self.config.max_inbound_peers
                 {
                     // TODO: Test this branch.
                     // Don't allow inbound connections beyond the configured limit.
-- 
2.43.0


From 0c0172f052c7e8dc7cbbc91e9df7c064bc6b8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 09/41] fix: don't let a second version message restart the
 handshake

---
 p2p/src/fsm/peermgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 54c1eac..394de44 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -424,7 +424,13 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        if let Some(Peer::Connected { conn, peer }) = self.peers.get(addr) {
+            // The handshake happens once per connection.
+            if peer.is_some() {
+                return Err(DisconnectReason::PeerMisbehaving(
+                    "unexpected `version` message received",
+                ));
+            }
             let VersionMessage {
                 // Peer's best height.
                 start_height,
-- 
2.43.0


From a705e219f8da18f77072a2f38c986d8f5a5dca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 10/41] fix: detect connections to self

---
 p2p/src/fsm/peermgr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 394de44..95ab976 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -477,9 +477,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             {
                 return Err(DisconnectReason::PeerHeight(start_height));
             }
-            // Check for self-connections. We only need to check one link direction,
-            // since in the case of a self-connection, we will see both link directions.
-            for (peer, conn) in self.peers() {
+            // Check for self-connections. We will see both link directions: the inbound one
+            // first, whose nonce is the one we sent, and then the reply on the outbound one,
+            // which has the same nonce.
+            for (peer, _) in self.peers() {
                 if conn.link.is_outbound() && peer.nonce == nonce {
                     return Err(DisconnectReason::SelfConnection);
                 }
-- 
2.43.0


From ced3b18076dce3a396ff776af1332f6c2c34b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:47 +0000
Subject: [PATCH 11/41] fix: don't count inbound peers towards the outbound
 target

---
 p2p/src/fsm/peermgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 95ab976..886cc4a 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -785,8 +785,10 @@ impl<C: Clock> PeerManager<C> {
         // Peers only with required services, which we'd eventually want to drop in favor of peers
         // that have all services.
         let secondary = self.negotiated(Link::Outbound).count() - primary;
-        // Connected peers that have not yet completed handshake.
-        let connected = self.connected().count() - primary - secondary;
+        // Connected outbound peers that have not yet completed handshake.
+        let connected = self.connected().filter(|c| c.link.is_outbound()).count()
+            - primary
+            - secondary;
         // Connecting peers.
         let connecting = self.connecting().count();
 
-- 
2.43.0


From 7ff2dd14d1bfc6634d65c058ee5aca25c0f46efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 12/41] fix: report failed dials as failed connections

---
 p2p/src/fsm/peermgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 886cc4a..0a5590c 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -373,8 +373,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             });
         } else if self.is_connecting(addr) {
             // If we haven't yet established a connection, the disconnect reason
-            // should always be a `ConnectionError`.
-            if let network::Disconnect::ConnectionError(error) = reason {
+            // should always be a `DialError` or a `ConnectionError`.
+            if let network::Disconnect::DialError(error)
+            | network::Disconnect::ConnectionError(error) = reason
+            {
                 self.outbox
                     .event(Event::PeerConnectionFailed { addr: *addr, error });
             }
-- 
2.43.0


From 846047b49dd785f00c7a79e9d678e5fefd50ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 13/41] fix: don't ignore imported addresses

---
 p2p/src/fsm/addrmgr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..b0e9dfd 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -368,8 +368,8 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time, unless imported by the user.
+            if last_active == 0 && source != Source::Imported {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -403,7 +403,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From 8efae370aa70a965973c2cdf6945af77e73807ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:06 +0000
Subject: [PATCH 14/41] fix: ban addresses that are not in the address book as
 well

---
 p2p/src/fsm/addrmgr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index b0e9dfd..62e77ef 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -554,12 +554,12 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
-
-            // TODO: Persist bans.
             self.peers.remove(addr);
-            self.bans.insert(*addr);
 
             if range.is_empty() {
                 self.address_ranges.remove(&key);
-- 
2.43.0


From 216ce4a6612dd9a756c3ca1aad53cdb3a79f0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:05 +0000
Subject: [PATCH 15/41] fix: sync headers with peers that serve filters if
 there are no others

---
 p2p/src/fsm/syncmgr.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..c589320 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -576,6 +576,13 @@ impl<C: Clock> SyncManager<C> {
             .iter()
             .filter(|(a, p)| self.is_request_candidate(a, p, locators))
             .find(|(_, p)| p.preferred && p.height > height)
+            .or_else(|| {
+                // If there is no preferred peer to ask, any other will do.
+                peers
+                    .iter()
+                    .filter(|(a, p)| self.is_request_candidate(a, p, locators))
+                    .find(|(_, p)| p.height > height)
+            })
             .or_else(|| peers.iter().find(|(_, p)| p.preferred))
             .map(|(a, _)| **a)
     }
-- 
2.43.0


From 41cb47975ed0f309c30d77a0432634b161ca7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:05 +0000
Subject: [PATCH 16/41] fix: a peer may have to be asked again for the same
 headers

---
 p2p/src/fsm/syncmgr.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index c589320..373ec09 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -386,8 +386,6 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
         if let Some(peer) = self.peers.get_mut(&addr) {
-            debug_assert!(peer.last_asked.as_ref() != Some(&locators));
-
             peer.last_asked = Some(locators.clone());
 
             let sent_at = self.clock.local_time();
-- 
2.43.0


From 66fa9f75fba3849256891b914e771386ef2a89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:05 +0000
Subject: [PATCH 17/41] fix: drop peers that send invalid headers

---
 p2p/src/fsm/syncmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 373ec09..2b78fd4 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -314,7 +314,13 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
 
-        match self.import_blocks(headers.into_iter(), tree) {
+        let result = match self.import_blocks(headers.into_iter(), tree) {
+            // It's the header that aborted the import that matters here.
+            Err(Error::BlockImportAborted(err, _, _)) => Err(*err),
+            result => result,
+        };
+
+        match result {
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
-- 
2.43.0


From 5d3865d4a9b1a21033d0a7d88eb5c9ecca4abd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:09 +0000
Subject: [PATCH 18/41] fix: don't panic on an invalid address in the peer
 store

---
 common/src/p2p/peer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/p2p/peer.rs b/common/src/p2p/peer.rs
index 37bf3ef..f2e0d0d 100644
--- a/common/src/p2p/peer.rs
+++ b/common/src/p2p/peer.rs
@@ -288,7 +288,7 @@ impl KnownAddress {
         };
 
         let addr = match obj.get("address") {
-            Some(Value::String(addr)) => addr.parse().unwrap(),
+            Some(Value::String(addr)) => addr.parse().map_err(|_| serde::Error)?,
             _ => return Err(serde::Error),
         };
         let services = match obj.get("services") {
-- 
2.43.0


From 8cc26380a5ab1e87ba62f5555cad770e5c27e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:09 +0000
Subject: [PATCH 19/41] verif: expose the peer cache and the service under
 cfg(nk_hooks)

---
 client/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index e326948..08e4793 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -6,8 +6,14 @@ mod client;
 mod error;
 #[allow(hidden_glob_reexports)]
 mod event;
+#[cfg(not(nk_hooks))]
 mod peer;
+#[cfg(nk_hooks)]
+pub mod peer;
+#[cfg(not(nk_hooks))]
 mod service;
+#[cfg(nk_hooks)]
+pub mod service;
 
 pub use client::*;
 pub mod handle;
-- 
2.43.0


From 09a3e634b9fdc65179e48fcffd734bf9e6cd49c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 20/41] fix: scan a bounded rescan up to and including its last
 block

The rescan stopped as soon as it reached its inclusive end height, before
the filter at that height was matched, and since the check was for equality
it missed the end entirely when several filters were processed at once, and
carried on past it.
---
 p2p/src/fsm/cbfmgr.rs        | 39 ++++++++++++++++++------------------
 p2p/src/fsm/cbfmgr/rescan.rs |  8 ++++++--
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..ccf010b 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -352,7 +352,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {
             if self.rescan.active {
                 self.rescan.reset(); // Clear pending request queue.
-                self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
+                self.get_cfilters(self.rescan.current..=self.scan_height(), tree)
                     .ok();
             }
         }
@@ -402,25 +402,16 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             return vec![];
         }
 
-        let height = self.filters.height();
-        let start = self.rescan.start;
-        let stop = self
-            .rescan
-            .end
-            // Don't request further than the filter chain height.
-            .map(|h| Height::min(h, height))
-            .unwrap_or(height);
-        let range = start..=stop;
-
-        if range.is_empty() {
-            return vec![];
-        }
+        // Don't request further than the filter chain height.
+        let range = self.rescan.start..=self.scan_height();
 
-        // Start fetching the filters we can.
-        match self.get_cfilters(range, tree) {
-            Ok(()) => {}
-            Err(GetFiltersError::NotConnected) => {}
-            Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+        if !range.is_empty() {
+            // Start fetching the filters we can.
+            match self.get_cfilters(range, tree) {
+                Ok(()) => {}
+                Err(GetFiltersError::NotConnected) => {}
+                Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+            }
         }
         // When we reset the rescan range, there is the possibility of getting immediate cache
         // hits from `get_cfilters`. Hence, process the filter queue.
@@ -594,11 +585,19 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if self.rescan.active {
             // TODO: Don't do this too often.
-            self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
+            self.get_cfilters(self.rescan.current..=self.scan_height(), tree)
                 .ok();
         }
     }
 
+    /// The last height we are able to scan: the filter chain height, unless the rescan
+    /// ends before it.
+    fn scan_height(&self) -> Height {
+        let height = self.filters.height();
+
+        self.rescan.end.map_or(height, |end| height.min(end))
+    }
+
     /// Remove transaction from list of transactions being watch.
     fn unwatch_transaction(&mut self, txid: &Txid) -> bool {
         self.rescan.transactions.remove(txid).is_some()
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..f9b42ac 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -110,7 +110,11 @@ impl Rescan {
         let mut current = self.current;
         let old = current;
 
-        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {
+        // Nb. The end height is inclusive, and nothing past it is part of the rescan.
+        while self.end.map_or(true, |end| current <= end) {
+            let Some((filter, block_hash, cached)) = self.received.remove(&current) else {
+                break;
+            };
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
@@ -132,7 +136,7 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
-- 
2.43.0


From 693ac99e0c8544262a002c41a311ad937f71b294 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:47:18 +0000
Subject: [PATCH 21/41] fix: accept any bounds for a rescan

An exclusive end of zero underflowed, which panicked or, without overflow
checks, rescanned everything. An exclusive start of `Height::MAX` overflowed.
---
 p2p/src/fsm/cbfmgr.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index ccf010b..f8f070a 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -379,19 +379,19 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         watch: Vec<Script>,
         tree: &T,
     ) -> Vec<(Height, BlockHash)> {
-        self.rescan.restart(
-            match start {
-                Bound::Unbounded => tree.height() + 1,
-                Bound::Included(h) => h,
-                Bound::Excluded(h) => h + 1,
-            },
-            match end {
-                Bound::Unbounded => None,
-                Bound::Included(h) => Some(h),
-                Bound::Excluded(h) => Some(h - 1),
-            },
-            watch,
-        );
+        let start = match start {
+            Bound::Unbounded => tree.height() + 1,
+            Bound::Included(h) => h,
+            Bound::Excluded(h) => h.saturating_add(1),
+        };
+        let (start, end) = match end {
+            Bound::Unbounded => (start, None),
+            Bound::Included(h) => (start, Some(h)),
+            // There is nothing before the genesis block: the range is empty.
+            Bound::Excluded(0) => (start.max(1), Some(0)),
+            Bound::Excluded(h) => (start, Some(h - 1)),
+        };
+        self.rescan.restart(start, end, watch);
 
         self.outbox.event(Event::FilterRescanStarted {
             start: self.rescan.start,
-- 
2.43.0


From ccb858c61d23d078539d6bbf8089b58c7b1a1b38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:47:24 +0000
Subject: [PATCH 22/41] fix: return an error when filters past the tip are
 requested

`Command::RequestFilters` with a range that ends past the filter header chain
failed an assertion and took the node down, instead of replying with
`GetFiltersError::InvalidRange`.
---
 p2p/src/fsm/cbfmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index f8f070a..8a4deb0 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -437,7 +437,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if range.is_empty() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
+        if *range.end() > self.filters.height() {
+            return Err(GetFiltersError::InvalidRange);
+        }
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
-- 
2.43.0


From 685d574e97cc877e4baa02bc756382089dfdb9f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:47:29 +0000
Subject: [PATCH 23/41] fix: drop queued filters of reverted blocks

A filter that was received out of order and was still in the queue when its
block was reverted was matched in place of the filter of the new block at
that height, which was never requested.
---
 p2p/src/fsm/cbfmgr/rescan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f9b42ac..9299987 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -83,7 +83,9 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        // Filters of reverted blocks that are still waiting to be matched are stale too.
+        self.received.retain(|height, _| *height <= to);
     }
 
     /// A filter was received.
-- 
2.43.0


From 6c2b93f24a48dd178d3e2960ff60310cb7439719 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 24/41] fix: don't serve partial `cfheaders`

While the filter header chain was behind the block header chain, a
`getcfheaders` was answered with fewer filter hashes than there are blocks up
to the stop hash, which peers consider invalid.
---
 p2p/src/fsm/cbfmgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 8a4deb0..ce5675b 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -750,7 +750,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         };
 
         let headers = self.filters.get_headers(start_height..=stop_height);
-        if !headers.is_empty() {
+        // Don't answer with only a part of the range while our filter headers are still syncing.
+        if !headers.is_empty() && stop_height <= self.filters.height() {
             let hashes = headers.iter().map(|(hash, _)| *hash);
             let prev_header = self.filters.get_prev_header(start_height).expect(
                 "FilterManager::received_getcfheaders: all headers up to the tip must exist",
-- 
2.43.0


From 7bbc09f695998d3b0db69998298ae9b1ca951372 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:47:45 +0000
Subject: [PATCH 25/41] fix: forget `getcfheaders` requests for reverted blocks

They were retried forever, disconnecting a peer on each timeout, since peers
don't answer requests for stale blocks. A late answer was considered
misbehavior.
---
 p2p/src/fsm/cbfmgr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index ce5675b..ee806be 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -216,6 +216,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     // and the tallest block we are keeping.
                     let fork_height = height - 1;
 
+                    // Nobody is going to answer requests for blocks that were reverted.
+                    for (_, header) in &reverted {
+                        self.inflight.remove(&header.block_hash());
+                    }
                     if let Err(e) = self.rollback(fork_height) {
                         self.outbox.error(e);
                     }
-- 
2.43.0


From bf4aae8b2bd9a052366deeedb56741424072f649 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:47:51 +0000
Subject: [PATCH 26/41] fix: don't disconnect persistent peers on
 `getcfheaders` timeouts

It was the peer the request was retried with that was checked for being
persistent, not the one that timed out.
---
 p2p/src/fsm/cbfmgr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index ee806be..93a80c3 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -333,11 +333,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
                 // Nb. Purposefully allow re-sampling the same peer, for cases where we are only
                 // connected to one peer.
-                if let Some((a, peer)) = self.peers.sample() {
+                if let Some((a, _)) = self.peers.sample() {
                     let a = *a;
                     // Disconnect only if we found a different peer, and this isn't
                     // a persistent peer.
-                    if a != *addr && !peer.persistent {
+                    if a != *addr && self.peers.get(addr).map_or(false, |p| !p.persistent) {
                         self.peers.remove(addr);
                         self.outbox
                             .disconnect(*addr, DisconnectReason::PeerTimeout("getcfheaders"));
-- 
2.43.0


From e2cff0cd3f7bce8b31b8e9b4e95acf27c19d5282 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 27/41] fix: report matches found in the filter cache

Blocks that matched a cached filter at the start of a rescan were downloaded,
but no `BlockMatched` event was ever emitted for them.
---
 p2p/src/fsm/cbfmgr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 93a80c3..253e225 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -423,6 +423,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         for event in events {
             self.outbox.event(event);
         }
+        // These blocks are reported as matches once they are processed.
+        self.pending_blocks
+            .extend(matches.iter().map(|(height, _)| *height));
         matches
     }
 
-- 
2.43.0


From fbd7f03915f5f552e0b7339fc3cfa8342a65fe94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:48:04 +0000
Subject: [PATCH 28/41] fix: scan cached filters when not connected

A rescan started while there were no peers never looked at its cached
filters: they were queued once a peer connected, but not processed until
another filter happened to be received.
---
 p2p/src/fsm/cbfmgr.rs        |  5 +++--
 p2p/src/fsm/cbfmgr/rescan.rs | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 253e225..23a3819 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -411,9 +411,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if !range.is_empty() {
             // Start fetching the filters we can.
-            match self.get_cfilters(range, tree) {
+            match self.get_cfilters(range.clone(), tree) {
                 Ok(()) => {}
-                Err(GetFiltersError::NotConnected) => {}
+                // There may still be cached filters to process.
+                Err(GetFiltersError::NotConnected) => self.rescan.cached(range, tree),
                 Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
             }
         }
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 9299987..d0f281a 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -169,6 +169,20 @@ impl Rescan {
         Ok(matched)
     }
 
+    /// Queue the cached filters in the given range for processing.
+    pub fn cached<T: BlockReader>(&mut self, range: RangeInclusive<Height>, tree: &T) {
+        for height in range {
+            if let Some(filter) = self.cache.get(&height) {
+                if let Some(header) = tree.get_block_by_height(height) {
+                    let block_hash = header.block_hash();
+                    // Insert the cached filters into the processing queue.
+                    self.received
+                        .insert(height, (filter.clone(), block_hash, true));
+                }
+            }
+        }
+    }
+
     /// Given a range of filter heights, return the ranges that are missing.
     /// This is useful to figure out which ranges to fetch while ensuring we don't request
     /// the same heights more than once.
@@ -180,17 +194,7 @@ impl Rescan {
         if range.is_empty() {
             return vec![];
         }
-
-        for height in range.clone() {
-            if let Some(filter) = self.cache.get(&height) {
-                if let Some(header) = tree.get_block_by_height(height) {
-                    let block_hash = header.block_hash();
-                    // Insert the cached filters into the processing queue.
-                    self.received
-                        .insert(height, (filter.clone(), block_hash, true));
-                }
-            }
-        }
+        self.cached(range.clone(), tree);
 
         // Heights to skip.
         // Note that cached heights will have been added to the `received` list.
-- 
2.43.0


From 159b2ed9a9cec6cfa52517caaf70eef9a9299203 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:48:10 +0000
Subject: [PATCH 29/41] fix: match submitted transactions that have an
 `OP_RETURN` output

All outputs of a transaction have to match a filter, but filters don't
contain `OP_RETURN` outputs, so that such a transaction was never seen to be
confirmed.
---
 p2p/src/fsm/cbfmgr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 23a3819..baea05b 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -371,7 +371,12 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
     pub fn watch_transaction(&mut self, tx: &Transaction) {
         self.rescan.transactions.insert(
             tx.txid(),
-            tx.output.iter().map(|o| o.script_pubkey.clone()).collect(),
+            tx.output
+                .iter()
+                // Nb. `OP_RETURN` outputs are not part of BIP 158 filters.
+                .filter(|o| !o.script_pubkey.is_op_return())
+                .map(|o| o.script_pubkey.clone())
+                .collect(),
         );
     }
 
-- 
2.43.0


From 86b0425b26c9e7ada758d728b574ff4af9c51a92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:48:52 +0000
Subject: [PATCH 30/41] fix: account for replaced filters in the filter cache

When a filter was pushed at a height that was already cached, the size of the
filter it replaced kept counting towards the capacity of the cache.
---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..14f1e76 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(old) = self.cache.insert(height, filter) {
+            self.size -= old.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From d113eb7e3afaa9e8f1619e497d75d0d9bad53055 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:48:58 +0000
Subject: [PATCH 31/41] fix: check the merkle root of received blocks

Any transactions were accepted as part of a block we requested, as long as its
header was the right one, so that peers could have transactions reported as
confirmed, or hide them.
---
 p2p/src/fsm/invmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..531c6ae 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -396,12 +396,18 @@ impl<C: Clock> InventoryManager<C> {
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
-        if self.remaining.remove(&hash).is_none() {
+        if !self.remaining.contains_key(&hash) {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
             // have already received this block once.
             return vec![];
         }
+        // The transactions have to be the ones the block header commits to. Otherwise,
+        // keep waiting for the real block.
+        if !block.check_merkle_root() {
+            return vec![];
+        }
+        self.remaining.remove(&hash);
 
         // We're done requesting this block.
         for peer in self.peers.values_mut() {
-- 
2.43.0


From 96d2fc996a75eef8661c8b54caf42a1030795101 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:49:04 +0000
Subject: [PATCH 32/41] fix: forget requested and queued blocks that are
 reverted

A downloaded block that was reverted while it was waiting to be processed was
still processed. A requested block that was reverted was waited for, which no
peer may be able to send, and held up all other blocks.
---
 p2p/src/fsm/invmgr.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 531c6ae..84a0e22 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -171,9 +171,13 @@ impl<C: Clock> InventoryManager<C> {
                 self.peers.remove(&addr);
             }
             Event::BlockHeadersImported { reverted, .. } => {
-                for (height, _) in reverted {
+                for (height, header) in reverted {
+                    // Don't wait for, or process blocks that are no longer part of the chain.
+                    self.remaining.remove(&header.block_hash());
+                    self.received.remove(&height);
                     self.block_reverted(height);
                 }
+                self.process_blocks();
             }
             Event::MessageReceived { from, message } => match message.as_ref() {
                 NetworkMessage::Block(block) => {
@@ -420,12 +424,17 @@ impl<C: Clock> InventoryManager<C> {
         let height = if let Some((height, _)) = tree.get_block(&hash) {
             height
         } else {
-            return vec![];
+            return self.process_blocks();
         };
 
         // Add to processing queue. Blocks are processed in-order only.
         self.received.insert(height, block);
+        self.process_blocks()
+    }
 
+    /// Process the received blocks, if there are none left to download.
+    /// Returns the list of confirmed [`Txid`].
+    fn process_blocks(&mut self) -> Vec<Txid> {
         // If there are still blocks remaining to download, don't process any of the
         // received queue yet.
         if !self.remaining.is_empty() {
-- 
2.43.0


From 4e36744d37d7958efa983a07e1081022409afd30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:49:10 +0000
Subject: [PATCH 33/41] fix: don't announce transactions to peers that don't
 relay them

The mempool was announced to all new peers, including the ones that asked us
not to relay transactions. These never requested them, and were disconnected.
---
 p2p/src/fsm/invmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 84a0e22..21caad5 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -203,8 +203,10 @@ impl<C: Clock> InventoryManager<C> {
     ) {
         // Add existing inventories to this peer's outbox so that they are announced.
         let mut outbox = HashMap::with_hasher(self.rng.clone().into());
-        for (wtxid, tx) in self.mempool.iter() {
-            outbox.insert(*wtxid, tx.txid());
+        if relay {
+            for (wtxid, tx) in self.mempool.iter() {
+                outbox.insert(*wtxid, tx.txid());
+            }
         }
         self.schedule_tick();
         self.peers.insert(
-- 
2.43.0


From 4bd85c8423518d88c6f985182e67e85e84c70d92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:49:16 +0000
Subject: [PATCH 34/41] fix: start over with announcements once there is
 nothing left to announce

The attempts at announcing a transaction that ended up confirmed counted
towards the next one, which was announced fewer times, or not at all before
the peer was disconnected.
---
 p2p/src/fsm/invmgr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 21caad5..5b9cb20 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -465,7 +465,10 @@ impl<C: Clock> InventoryManager<C> {
 
                     // Transactions that have been confirmed no longer need to be announced.
                     for peer in self.peers.values_mut() {
-                        peer.outbox.remove(&wtxid);
+                        if peer.outbox.remove(&wtxid).is_some() && peer.outbox.is_empty() {
+                            // Reset retry state.
+                            peer.reset();
+                        }
                     }
 
                     self.confirmed
-- 
2.43.0


From 600a53e727ffdf3f15553dd000ca3378d6b5c752 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:49:21 +0000
Subject: [PATCH 35/41] fix: don't panic on blocks with invalid transactions

We don't validate transactions: a block in which a transaction spends more
than its inputs took the node down.
---
 p2p/src/fsm/fees.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 4ec322a..5ac7eba 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -138,8 +138,8 @@ impl FeeEstimator {
     /// Apply the transaction to the UTXO set and calculate the fee rate.
     fn apply(&mut self, tx: &Transaction) -> Option<FeeRate> {
         let txid = tx.txid();
-        let mut received = 0;
-        let mut sent = 0;
+        let mut received = 0u64;
+        let mut sent = 0u64;
 
         // Look for outputs.
         for (vout, output) in tx.output.iter().enumerate() {
@@ -148,7 +148,7 @@ impl FeeEstimator {
                 vout: vout as u32,
             };
             self.utxos.insert(outpoint, output.clone());
-            sent += output.value;
+            sent = sent.saturating_add(output.value);
         }
         // Since coinbase transactions have no inputs, we only process the outputs.
         if tx.is_coin_base() {
@@ -161,14 +161,13 @@ impl FeeEstimator {
         // the transaction fee. If one is missing, we have to bail.
         for input in tx.input.iter() {
             if let Some(out) = self.utxos.remove(&input.previous_output) {
-                received += out.value;
+                received = received.saturating_add(out.value);
             } else {
                 return None;
             }
         }
-        assert!(received >= sent, "you can't spend what you don't have",);
-
-        let fee = received - sent;
+        // Nb. You can't spend what you don't have, but we don't validate transactions.
+        let fee = received.checked_sub(sent)?;
         let weight = tx.weight();
         let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64);
 
-- 
2.43.0


From e41744d04af04815ca1c884f18760ef2fb29380c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:49:27 +0000
Subject: [PATCH 36/41] fix: only rollback the fee estimator when it is past
 the height

Rolling back to a height the estimator had not gone past discarded the outputs
of the last processed block.
---
 p2p/src/fsm/fees.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 5ac7eba..2343587 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -125,6 +125,9 @@ impl FeeEstimator {
 
     /// Rollback to a certain height.
     pub fn rollback(&mut self, height: Height) {
+        if height >= self.height {
+            return;
+        }
         self.snapshots.retain(|(h, _)| h <= &height);
 
         if let Some((h, snapshot)) = self.snapshots.pop_back() {
-- 
2.43.0


From e4bb9ffe22f7c8b8b532eb4dd0aede1130ef2031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 37/41] fix: drop filter headers of blocks that were lost in a
 crash

A crash during a re-org can leave the filter header store longer than the
block header store, which failed an assertion on every start.
---
 p2p/src/fsm/cbfmgr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index baea05b..df00eac 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -164,6 +164,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
     /// Initialize the manager. Should only be called once.
     pub fn initialize<T: BlockReader>(&mut self, tree: &T) {
+        // If we were interrupted during a re-org, there may be filter headers in our store
+        // for blocks that are no longer in the block store.
+        if let Err(e) = self.rollback(tree.height()) {
+            self.outbox.error(e);
+        }
         self.idle(tree);
     }
 
-- 
2.43.0


From a8027350b36d3b0e6b6cf323fcb5075ca399c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 38/41] fix: handle messages that arrive in one read one after
 the other

The state machine propagates its events when its outputs are consumed. A ping
that arrived along with the verack was handled before the peer was known to be
negotiated, and never answered.
---
 client/src/service.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/client/src/service.rs b/client/src/service.rs
index efe652a..b4ca324 100644
--- a/client/src/service.rs
+++ b/client/src/service.rs
@@ -1,6 +1,6 @@
 //! TODO
 use std::borrow::{Borrow, Cow};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::net;
 use std::sync::Arc;
 
@@ -19,6 +19,8 @@ use nakamoto_common::block::filter::Filters;
 pub struct Service<T, F, P, C> {
     inboxes: HashMap<net::SocketAddr, p2p::stream::Decoder>,
     machine: p2p::StateMachine<T, F, P, C>,
+    /// Outputs of the state machine that are yet to be picked up.
+    outbox: VecDeque<p2p::fsm::Io>,
 }
 
 impl<T: BlockTree, F: filter::Filters, P: peer::Store, C: AdjustedClock<net::SocketAddr>>
@@ -35,6 +37,7 @@ impl<T: BlockTree, F: filter::Filters, P: peer::Store, C: AdjustedClock<net::Soc
     ) -> Self {
         Self {
             inboxes: HashMap::new(),
+            outbox: VecDeque::new(),
             machine: p2p::StateMachine::new(
                 tree,
                 filters,
@@ -101,7 +104,12 @@ where
 
             loop {
                 match inbox.decode_next() {
-                    Ok(Some(msg)) => self.machine.message_received(addr, Cow::Owned(msg)),
+                    Ok(Some(msg)) => {
+                        self.machine.message_received(addr, Cow::Owned(msg));
+                        // Nb. The state machine propagates its own events as its outputs are
+                        // consumed, so this has to happen before it gets the next message.
+                        self.outbox.extend(&mut self.machine);
+                    }
                     Ok(None) => break,
 
                     Err(err) => {
@@ -140,7 +148,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<p2p::PeerId>> It
     type Item = Io<Vec<u8>, p2p::Event, p2p::DisconnectReason>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.machine.next() {
+        match self.outbox.pop_front().or_else(|| self.machine.next()) {
             Some(Io::Write(addr, msg)) => {
                 log::trace!(target: "client", "Write {:?} to {}", &msg, addr.ip());
                 let mut buf = Vec::new();
-- 
2.43.0


From 0089c8c5bc4d666aaecb9cf7e61a03d0a1057e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 39/41] fix: report refused connections as failed, not as
 connected

---
 net/poll/src/reactor.rs | 8 ++++++++
 net/poll/src/socket.rs  | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..2a548e7 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -421,6 +421,14 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         // Since we perform a non-blocking connect, we're only really connected once the socket
         // is writable.
         if self.connecting.remove(&addr) {
+            // It is also writable if the connection could not be established.
+            if let Some(err) = socket.take_error()? {
+                trace!("{}: Connection failed: {}", socket_addr, err.to_string());
+
+                self.unregister_peer(addr, Disconnect::DialError(Arc::new(err)), service);
+
+                return Ok(());
+            }
             let local_addr = socket.local_address()?;
 
             service.connected(addr.clone(), &local_addr, socket.link);
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..9d99b4e 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Take the pending error of the socket, if any.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0


From 24db3a0ea4f6a774cd0cf90ed6229dd017fd40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 40/41] fix: keep the reactor running when a signal interrupts
 its wait

---
 net/poll/src/reactor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 2a548e7..e360c24 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -268,6 +268,9 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         service.timer_expired();
                     }
                 }
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {
+                    // A signal was handled. Nothing is ready, we simply wait again.
+                }
                 Err(err) => return Err(err.into()),
             }
             self.process(&mut service, &mut publisher, local_time);
-- 
2.43.0


From 43e0f85e5fe49744a8df8c259f12236c0ff82a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 41/41] fix: let timers expire while sockets are busy

---
 net/poll/src/reactor.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index e360c24..619b4b2 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -258,21 +258,21 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         }
                     }
                 }
-                Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
-                }
+                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
                 Err(err) if err.kind() == io::ErrorKind::Interrupted => {
                     // A signal was handled. Nothing is ready, we simply wait again.
                 }
                 Err(err) => return Err(err.into()),
             }
+            // Nb. The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service.
+            // This has to happen even if there's always something to read or write.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0

