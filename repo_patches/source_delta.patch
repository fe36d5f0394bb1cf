From 335931cf70becc32ac79468fd41887f940aae76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 01/24] fix: merge delta snapshots into the receiver's own
 decided log

---
 omnipaxos/src/storage/internal_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..60282d3 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -317,7 +317,6 @@ where
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
         self.state_cache.accepted_round = accepted_round;
-        self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
@@ -355,6 +354,8 @@ where
                 None => (),
             }
         }
+        // The old decided index is needed to create the snapshot that a delta is merged into
+        self.state_cache.decided_idx = decided_idx;
         self.storage.write_atomically(sync_txn)?;
         Ok(self.state_cache.accepted_idx)
     }
-- 
2.43.0


From bcc2f19f08d73a6fdd0aacd82b0da980f0e3ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 02/24] fix: never move the decided index backwards when
 syncing the log

---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 60282d3..691d00d 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -317,6 +317,8 @@ where
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
         self.state_cache.accepted_round = accepted_round;
+        // A leader can have decided less than the server that syncs with it
+        let decided_idx = decided_idx.max(self.state_cache.decided_idx);
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
-- 
2.43.0


From 953f1f4f27e53e7dd0a6a22577071677a2e763ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 03/24] fix: start a new AcceptDecide after an AcceptSync

---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..ddd9df3 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -174,6 +174,8 @@ where
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
         self.leader_state.increment_seq_num_session(to);
+        // Entries accepted from now on must not be added to an AcceptDecide queued before this message
+        self.leader_state.set_latest_accept_meta(to, None);
         let acc_sync = AcceptSync {
             n: current_n,
             seq_num: self.leader_state.next_seq_num(to),
-- 
2.43.0


From 76ab0e5aab9c701ac3d2189162e24ee2c85af415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 04/24] fix: do not count the stopsign as part of the common
 log prefix

---
 omnipaxos/src/sequence_paxos/mod.rs       | 7 +++++--
 omnipaxos/src/storage/internal_storage.rs | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..2b44668 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -417,11 +417,14 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
+                // A StopSign is sent separately and is not part of the common prefix
+                let prefix_idx = common_prefix_idx
+                    .min(self.internal_storage.get_accepted_idx_without_stopsign());
                 let suffix = self
                     .internal_storage
-                    .get_suffix(common_prefix_idx)
+                    .get_suffix(prefix_idx)
                     .expect(READ_ERROR_MSG);
-                (None, suffix, common_prefix_idx)
+                (None, suffix, prefix_idx)
             };
         LogSync {
             decided_snapshot,
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 691d00d..a13f79d 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -489,6 +489,14 @@ where
         self.state_cache.accepted_idx
     }
 
+    /// The length of the replicated log without counting an accepted stopsign.
+    pub(crate) fn get_accepted_idx_without_stopsign(&self) -> usize {
+        match self.state_cache.stopsign {
+            Some(_) => self.get_accepted_idx() - 1,
+            None => self.get_accepted_idx(),
+        }
+    }
+
     pub(crate) fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
         self.storage.get_suffix(from)
     }
-- 
2.43.0


From d4b1de1c1816960fedbf5ee0de2fe4e0b977980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:43 +0000
Subject: [PATCH 05/24] fix: sync a log with a server that has not decided all
 trimmed entries

---
 omnipaxos/src/sequence_paxos/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 2b44668..bd7cb10 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -417,9 +417,11 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
-                // A StopSign is sent separately and is not part of the common prefix
+                // A StopSign is sent separately and is not part of the common prefix. Entries are only
+                // trimmed when all servers have them, so trimmed entries are part of it.
                 let prefix_idx = common_prefix_idx
-                    .min(self.internal_storage.get_accepted_idx_without_stopsign());
+                    .min(self.internal_storage.get_accepted_idx_without_stopsign())
+                    .max(self.internal_storage.get_compacted_idx());
                 let suffix = self
                     .internal_storage
                     .get_suffix(prefix_idx)
-- 
2.43.0


From 86592162ec052aea7507403d52a29f1d235c3549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 06/24] fix: only consider the servers of the configuration
 when trimming

---
 omnipaxos/src/sequence_paxos/mod.rs | 8 ++++----
 omnipaxos/src/util.rs               | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index bd7cb10..777422c 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -141,9 +141,9 @@ where
     pub(crate) fn trim(&mut self, trim_idx: Option<usize>) -> Result<(), CompactionErr> {
         match self.state {
             (Role::Leader, _) => {
-                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx();
+                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx(&self.peers);
                 let trimmed_idx = match trim_idx {
-                    Some(idx) if idx <= *min_all_accepted_idx => idx,
+                    Some(idx) if idx <= min_all_accepted_idx => idx,
                     None => {
                         #[cfg(feature = "logging")]
                         trace!(
@@ -151,10 +151,10 @@ where
                             "No trim index provided, using min_las_idx: {:?}",
                             min_all_accepted_idx
                         );
-                        *min_all_accepted_idx
+                        min_all_accepted_idx
                     }
                     _ => {
-                        return Err(CompactionErr::NotAllDecided(*min_all_accepted_idx));
+                        return Err(CompactionErr::NotAllDecided(min_all_accepted_idx));
                     }
                 };
                 let result = self.internal_storage.try_trim(trimmed_idx);
diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 561c349..bd0703b 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -183,9 +183,11 @@ where
         }
     }
 
-    pub fn get_min_all_accepted_idx(&self) -> &usize {
-        self.accepted_indexes
+    pub fn get_min_all_accepted_idx(&self, peers: &[NodeId]) -> usize {
+        peers
             .iter()
+            .map(|pid| self.get_accepted_idx(*pid))
+            .chain(std::iter::once(self.get_accepted_idx(self.n_leader.pid)))
             .min()
             .expect("Should be all initialised to 0!")
     }
-- 
2.43.0


From 2874c03501aa6a655bb86d3d5ea23b0b8145b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 07/24] fix: forward a buffered stopsign to a new leader

---
 omnipaxos/src/sequence_paxos/follower.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index e363e33..95d7d8e 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -59,6 +59,9 @@ where
                 .expect(WRITE_ERROR_MSG);
             if self.internal_storage.get_stopsign().is_none() {
                 self.forward_buffered_proposals();
+                if let Some(ss) = self.buffered_stopsign.take() {
+                    self.forward_stopsign(ss);
+                }
             }
             let accepted = Accepted {
                 n: accsync.n,
-- 
2.43.0


From 988b8b0c3819992f356dd0bd1715c77b20d8ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 08/24] fix: reading an empty range or an out of bounds index
 must not panic

---
 omnipaxos/src/omni_paxos.rs               |  2 +-
 omnipaxos/src/storage/internal_storage.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..d5f9005 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -300,7 +300,7 @@ where
         match self
             .seq_paxos
             .internal_storage
-            .read(idx..idx + 1)
+            .read(idx..=idx)
             .expect("storage error while trying to read log entries")
         {
             Some(mut v) => v.pop(),
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index a13f79d..8d47c8a 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -93,11 +93,11 @@ where
     {
         let from_idx = match r.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(e) => *e + 1,
+            Bound::Excluded(e) => e.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let to_idx = match r.end_bound() {
-            Bound::Included(i) => *i + 1,
+            Bound::Included(i) => i.saturating_add(1),
             Bound::Excluded(e) => *e,
             Bound::Unbounded => self.get_accepted_idx(),
         };
@@ -150,6 +150,8 @@ where
                     self.stopsign_is_decided(),
                 )]))
             }
+            // Empty range that starts at the StopSign
+            (IndexEntry::StopSign(_), _) => Ok(Some(vec![])),
             e => {
                 unimplemented!("{}", format!("Unexpected read combination: {:?}", e))
             }
@@ -164,9 +166,9 @@ where
     ) -> StorageResult<Option<IndexEntry>> {
         if idx < compacted_idx {
             Ok(Some(IndexEntry::Compacted))
-        } else if idx + 1 < accepted_idx {
+        } else if idx.saturating_add(1) < accepted_idx {
             Ok(Some(IndexEntry::Entry))
-        } else if idx + 1 == accepted_idx {
+        } else if idx.saturating_add(1) == accepted_idx {
             match self.get_stopsign() {
                 Some(ss) => Ok(Some(IndexEntry::StopSign(ss))),
                 _ => Ok(Some(IndexEntry::Entry)),
-- 
2.43.0


From f633cdafca86f14b7095dab3bc782d7b6e6b55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 09/24] fix: elect a server that has the highest ballot due to
 an increased priority

---
 omnipaxos/src/ballot_leader_election.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 1a9c677..31f43a9 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -220,11 +220,14 @@ impl BallotLeaderElection {
     }
 
     fn update_leader(&mut self) {
-        let max_reply_ballot = self.heartbeat_replies.iter().map(|r| r.ballot).max();
-        if let Some(max) = max_reply_ballot {
-            if max > self.leader {
-                self.leader = max;
-            }
+        // Includes our own ballot as it is greater than the leader's if our priority was increased
+        let max_ballot = self
+            .heartbeat_replies
+            .iter()
+            .map(|r| r.ballot)
+            .fold(self.current_ballot, Ballot::max);
+        if max_ballot > self.leader {
+            self.leader = max_ballot;
         }
     }
 
-- 
2.43.0


From 1c1624e0e5dbe09a20c7eb16ea0610427b06973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 10/24] fix: rejoin after recovering with an own ballot that no
 other server knows of

---
 omnipaxos/src/ballot_leader_election.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 31f43a9..1a98171 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -262,7 +262,14 @@ impl BallotLeaderElection {
 
     fn check_takeover(&mut self) {
         if !self.happy {
-            let all_neighbors_unhappy = self.heartbeat_replies.iter().all(|r| !r.happy);
+            // If we recovered with a ballot of our own then we can't follow a leader with a lower
+            // ballot, and no one else can increment past it.
+            let recovered_own_ballot =
+                self.leader.pid == self.pid && self.current_ballot.n < self.leader.n;
+            let all_neighbors_unhappy = self
+                .heartbeat_replies
+                .iter()
+                .all(|r| !r.happy || (recovered_own_ballot && r.leader < self.leader));
             let im_quorum_connected = self
                 .quorum
                 .is_prepare_quorum(self.heartbeat_replies.len() + 1);
-- 
2.43.0


From 7400d7d1d10e4a87e3c47614e11b704d84e31c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:08 +0000
Subject: [PATCH 11/24] fix: do not send a delta snapshot for a promise that
 can be outdated

---
 omnipaxos/src/sequence_paxos/leader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index ddd9df3..8ac71f7 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -172,7 +172,13 @@ where
         } else {
             followers_decided_idx
         };
-        let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
+        // If we already synced with the follower in this round then its log can be ahead of this
+        // promise (e.g., if it was resent). A delta snapshot might not fit, so use a complete one.
+        let snapshot_from_idx = match self.leader_state.get_seq_num(to).session {
+            0 => followers_decided_idx,
+            _ => 0,
+        };
+        let log_sync = self.create_log_sync(followers_valid_entries_idx, snapshot_from_idx);
         self.leader_state.increment_seq_num_session(to);
         // Entries accepted from now on must not be added to an AcceptDecide queued before this message
         self.leader_state.set_latest_accept_meta(to, None);
-- 
2.43.0


From 6b5f50634602a0054f01154c9aaf60e52fe66eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:25 +0000
Subject: [PATCH 12/24] fix: adopt the decided index together with the log of a
 lost promise

---
 omnipaxos/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index bd0703b..3aa3524 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -174,6 +174,8 @@ where
             })
             .max()
             .unwrap_or_default()
+            // The log we adopt might be from a server that has not promised us anymore
+            .max(self.max_promise_meta.decided_idx)
     }
 
     pub fn get_promise_meta(&self, pid: NodeId) -> &PromiseMetaData {
-- 
2.43.0


From a78ca5dd50f46aa3611bd54c5031ce0ccfb86044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:53 +0000
Subject: [PATCH 13/24] fix: promise again if the leader does not know of our
 promise anymore

---
 omnipaxos/src/sequence_paxos/follower.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index 95d7d8e..bfb2e9b 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -12,7 +12,12 @@ where
     /*** Follower ***/
     pub(crate) fn handle_prepare(&mut self, prep: Prepare, from: NodeId) {
         let old_promise = self.internal_storage.get_promise();
-        if old_promise < prep.n || (old_promise == prep.n && self.state.1 == Phase::Recover) {
+        // A leader that is done preparing only sends Prepare if it does not know of our promise (anymore)
+        let lost_promise =
+            prep.n_accepted == prep.n && self.state == (Role::Follower, Phase::Accept);
+        if old_promise < prep.n
+            || (old_promise == prep.n && (self.state.1 == Phase::Recover || lost_promise))
+        {
             // Flush any pending writes
             // Don't have to handle flushed entries here because we will sync with followers
             let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
-- 
2.43.0


From ff4d9ef04f1a5e4b4d409e06ef37603ec3b0d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 14/24] fix: refuse configurations with pid 0 or duplicate pids

---
 omnipaxos/src/omni_paxos.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index d5f9005..522bc9b 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -104,6 +104,11 @@ impl ClusterConfig {
     pub fn validate(&self) -> Result<(), ConfigError> {
         let num_nodes = self.nodes.len();
         valid_config!(num_nodes > 1, "Need more than 1 node");
+        valid_config!(!self.nodes.contains(&0), "Server pid cannot be 0");
+        valid_config!(
+            (1..num_nodes).all(|i| !self.nodes[..i].contains(&self.nodes[i])),
+            "Nodes must not contain duplicates"
+        );
         valid_config!(self.configuration_id != 0, "Configuration ID cannot be 0");
         if let Some(FlexibleQuorum {
             read_quorum_size,
-- 
2.43.0


From f61e11858d3c4d79783061d2cfe37fca98efeb5b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 15/24] fix: restore the LRU cache for encoding with its
 capacity when it is deserialized

The capacity was taken from the number of serialized items: a cache without items, such as
the encoder of every cache sent in an AcceptSync, panicked, and others silently evicted items.
---
 omnipaxos/src/unicache/lru_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..0db6867 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -206,8 +206,8 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // The number of serialized items is not the capacity, which `LRUniCache` enforces itself
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From dd7c7f0c022cc8ed34c2a73b868b5fc355c40fd4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 16/24] fix: a cloned LFU cache evicts in the same order as the
 original

The frequencies were lost and the items put in arbitrary order, so that the decoder of a
synchronised follower evicted other items than the encoder of the leader.
---
 omnipaxos/src/unicache/lfu/mod.rs   | 24 ++++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..751aeab 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -138,6 +138,30 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// Returns a cache with keys and values swapped that will evict the items in the same order.
+    pub fn invert(&self) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        let values = self.values.iter().map(|(key, counter)| {
+            let inverted = ValueCounter {
+                value: key.clone(),
+                count: counter.count,
+            };
+            (counter.value.clone(), inverted)
+        });
+        let frequency_bin = self.frequency_bin.iter().map(|(count, keys)| {
+            let inverted = keys.0.iter().map(|key| self.values[key].value.clone());
+            (*count, LinkedHashSetWrapper(inverted.collect()))
+        });
+        LFUCache {
+            values: values.collect(),
+            frequency_bin: frequency_bin.collect(),
+            capacity: self.capacity,
+            min_frequency: self.min_frequency,
+        }
+    }
+
     pub fn iter(&self) -> LfuIterator<K, V> {
         LfuIterator {
             values: self.values.iter(),
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..78712d6 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -22,15 +22,9 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(1),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.invert(),
             encoding: self.encoding.clone(),
             size: self.size,
         }
-- 
2.43.0


From f6f9ff76eb3f5135bb6fda9fd68973183057dbd1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 17/24] fix: send batched entries with the AcceptSync that has
 them in its UniCache

The cache of the leader has the encodings of entries that are still batched. A follower that
got the cache and then the encoded entries themselves had a cache that differs from the leader's.
---
 omnipaxos/src/sequence_paxos/leader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 8ac71f7..01ca135 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -316,6 +316,9 @@ where
             );
         }
         if prom.n == self.leader_state.n_leader {
+            // The cache sent in the AcceptSync already includes the batched entries
+            #[cfg(feature = "unicache")]
+            self.flush_batch_leader();
             self.leader_state.set_promise(prom, from, false);
             self.send_accsync(from);
         }
-- 
2.43.0


From 3172b86a46a563ca24c2b775d8ac49b024ed48c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:01:10 +0000
Subject: [PATCH 18/24] fix: a new leader encodes with a fresh UniCache

A server that got its cache from an earlier leader encoded with room for one item, but let
the followers decode with the configured size: they panicked on unknown encodings.
---
 omnipaxos/src/sequence_paxos/leader.rs    | 3 +++
 omnipaxos/src/storage/internal_storage.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 01ca135..d9b0de7 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -284,6 +284,9 @@ where
                 new_accepted_idx = self.internal_storage.get_accepted_idx();
             }
         }
+        // Caches received from earlier leaders are made for decoding only
+        #[cfg(feature = "unicache")]
+        self.internal_storage.reset_unicache();
         self.state = (Role::Leader, Phase::Accept);
         self.leader_state
             .set_accepted_idx(self.pid, new_accepted_idx);
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 8d47c8a..1103aff 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -544,4 +544,9 @@ where
     pub(crate) fn set_unicache(&mut self, unicache: T::UniCache) {
         self.state_cache.unicache = unicache;
     }
+
+    #[cfg(feature = "unicache")]
+    pub(crate) fn reset_unicache(&mut self) {
+        self.state_cache.unicache = T::UniCache::new();
+    }
 }
-- 
2.43.0


From 5bc9a9e739cd2405a1293c9c3f05a40d49942e3a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:02:20 +0000
Subject: [PATCH 19/24] fix: cloning a UniCache used for decoding keeps its
 items

The clone of a message with a cache had an empty cache, and the follower that received it
panicked on the first encoded entry.
---
 omnipaxos/src/unicache/lfu_cache.rs | 8 +++++++-
 omnipaxos/src/unicache/lru_cache.rs | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index 78712d6..062cd5b 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -22,9 +22,15 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
+        let lfu_cache_decoder = if self.lfu_cache_encoder.is_empty() {
+            // this cache is used for decoding
+            self.lfu_cache_decoder.clone()
+        } else {
+            self.lfu_cache_encoder.invert()
+        };
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(1),
-            lfu_cache_decoder: self.lfu_cache_encoder.invert(),
+            lfu_cache_decoder,
             encoding: self.encoding.clone(),
             size: self.size,
         }
diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 0db6867..f225db3 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -56,6 +56,12 @@ where
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
         let mut cloned_decoder = LruCache::new(NonZeroUsize::new(self.size).unwrap());
+        if self.lru_cache_encoder.is_empty() {
+            // this cache is used for decoding
+            for (encoded, encodable) in self.lru_cache_decoder.0.iter().rev() {
+                cloned_decoder.push(encoded.clone(), encodable.clone());
+            }
+        }
         self.lru_cache_encoder
             .0
             .iter()
-- 
2.43.0


From 987b44113f1c48480887c763436391704775af22 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 20/24] fix: PersistentStorage rolls back a write that failed

If an entry of a group could not be serialized then the operations before it stayed in the
write batch, to be written by the next write, and the next entries left a gap in the log.
---
 omnipaxos_storage/src/persistent_storage.rs | 67 +++++++++------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a117f46..e5c1cf8 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -180,6 +180,26 @@ where
             .expect("Couldn't find RocksDB log column family")
     }
 
+    fn batch_ops(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
+        for op in ops {
+            match op {
+                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
+                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
+                StorageOp::AppendOnPrefix(from_idx, entries) => {
+                    self.batch_append_on_prefix(from_idx, entries)?
+                }
+                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
+                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
+                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
+                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
+                StorageOp::Trim(idx) => self.batch_trim(idx)?,
+                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
+                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
+            }
+        }
+        Ok(())
+    }
+
     fn batch_append_entry(&mut self, entry: T) -> StorageResult<()> {
         self.write_batch.put_cf(
             self.db.cf_handle(LOG).unwrap(),
@@ -276,23 +296,15 @@ where
     T::Snapshot: Serialize + for<'a> Deserialize<'a>,
 {
     fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
-        for op in ops {
-            match op {
-                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
-                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
-                StorageOp::AppendOnPrefix(from_idx, entries) => {
-                    self.batch_append_on_prefix(from_idx, entries)?
-                }
-                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
-                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
-                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
-                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
-                StorageOp::Trim(idx) => self.batch_trim(idx)?,
-                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
-                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
-            }
+        let next_log_key = self.next_log_key;
+        let batched = self.batch_ops(ops);
+        let write_batch = std::mem::take(&mut self.write_batch);
+        let written = batched.and_then(|_| Ok(self.db.write(write_batch)?));
+        if written.is_err() {
+            // Nothing was written
+            self.next_log_key = next_log_key;
         }
-        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+        written
     }
 
     fn append_entry(&mut self, entry: T) -> StorageResult<()> {
@@ -307,30 +319,11 @@ where
     }
 
     fn append_entries(&mut self, entries: Vec<T>) -> StorageResult<()> {
-        let mut batch = WriteBatchWithTransaction::<false>::default();
-        for entry in entries {
-            batch.put_cf(
-                self.get_log_handle(),
-                self.next_log_key.to_be_bytes(),
-                bincode::serialize(&entry)?,
-            );
-            self.next_log_key += 1;
-        }
-        self.db.write(batch)?;
-        Ok(())
+        self.write_atomically(vec![StorageOp::AppendEntries(entries)])
     }
 
     fn append_on_prefix(&mut self, from_idx: usize, entries: Vec<T>) -> StorageResult<()> {
-        // Don't need to delete entries that will be overwritten.
-        let delete_idx = from_idx + entries.len();
-        if delete_idx < self.next_log_key {
-            let from_key = delete_idx.to_be_bytes();
-            let to_key = self.next_log_key.to_be_bytes();
-            self.db
-                .delete_range_cf(self.get_log_handle(), from_key, to_key)?;
-        }
-        self.next_log_key = from_idx;
-        self.append_entries(entries)
+        self.write_atomically(vec![StorageOp::AppendOnPrefix(from_idx, entries)])
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
-- 
2.43.0


From 038887d9160316c9ccdd17ccfb8cc01a32e0d005 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:03:20 +0000
Subject: [PATCH 21/24] fix: storage returns no entries for an interval that is
 partly trimmed

PersistentStorage returned the entries after the trimmed ones instead or an error, and
MemoryStorage panicked, where the storage contract asks for an empty vector.
---
 omnipaxos_storage/src/memory_storage.rs     | 6 ++++++
 omnipaxos_storage/src/persistent_storage.rs | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/omnipaxos_storage/src/memory_storage.rs b/omnipaxos_storage/src/memory_storage.rs
index 48e451e..44327cd 100644
--- a/omnipaxos_storage/src/memory_storage.rs
+++ b/omnipaxos_storage/src/memory_storage.rs
@@ -90,6 +90,9 @@ where
     }
 
     fn get_entries(&self, from: usize, to: usize) -> StorageResult<Vec<T>> {
+        if from < self.trimmed_idx || to < from {
+            return Ok(vec![]);
+        }
         let from = from - self.trimmed_idx;
         let to = to - self.trimmed_idx;
         Ok(self.log.get(from..to).unwrap_or(&[]).to_vec())
@@ -100,6 +103,9 @@ where
     }
 
     fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
+        if from < self.trimmed_idx {
+            return Ok(vec![]);
+        }
         Ok(match self.log.get((from - self.trimmed_idx)..) {
             Some(s) => s.to_vec(),
             None => vec![],
diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index e5c1cf8..a11b2dc 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -335,6 +335,9 @@ where
         let mut iter = self.db.raw_iterator_cf(self.get_log_handle());
         let mut entries = Vec::with_capacity(to - from);
         iter.seek(from.to_be_bytes());
+        if iter.key() != Some(&from.to_be_bytes()[..]) {
+            return Ok(vec![]); // The first entries have been trimmed
+        }
         for _ in from..to {
             let entry_bytes = iter.value().ok_or(ErrHelper {})?;
             entries.push(bincode::deserialize(entry_bytes)?);
-- 
2.43.0


From c4bfe497710878d9dc2199d61f1f9d815ff2c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:52 +0000
Subject: [PATCH 22/24] fix: refuse oversized quorums without overflowing

---
 omnipaxos/src/omni_paxos.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index 522bc9b..3b48a48 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -115,10 +115,6 @@ impl ClusterConfig {
             write_quorum_size,
         }) = self.flexible_quorum
         {
-            valid_config!(
-                read_quorum_size + write_quorum_size > num_nodes,
-                "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
-            );
             valid_config!(
                 read_quorum_size >= 2 && read_quorum_size <= num_nodes,
                 "Read quorum must be in range 2 to # of nodes in the cluster"
@@ -127,6 +123,10 @@ impl ClusterConfig {
                 write_quorum_size >= 2 && write_quorum_size <= num_nodes,
                 "Write quorum must be in range 2 to # of nodes in the cluster"
             );
+            valid_config!(
+                read_quorum_size + write_quorum_size > num_nodes,
+                "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
+            );
             valid_config!(
                 read_quorum_size >= write_quorum_size,
                 "Read quorum size must be >= the write quorum size."
-- 
2.43.0


From 2b31a19120a1528793bd46762266efe7926fb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:56 +0000
Subject: [PATCH 23/24] fix: count every server only once in a heartbeat round

---
 omnipaxos/src/ballot_leader_election.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 1a98171..d5b1f6e 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -299,6 +299,9 @@ impl BallotLeaderElection {
 
     fn handle_reply(&mut self, rep: HeartbeatReply) {
         if rep.round == self.hb_round && rep.ballot.config_id == self.configuration_id {
+            // A request sent before we restarted is answered too: count every server only once
+            self.heartbeat_replies
+                .retain(|r| r.ballot.pid != rep.ballot.pid);
             self.heartbeat_replies.push(rep);
         }
     }
-- 
2.43.0


From aa1498f179c158fd20a679fa9ff0d0456abfb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:56 +0000
Subject: [PATCH 24/24] fix: acknowledge a resent stopsign again

---
 omnipaxos/src/sequence_paxos/follower.rs | 31 +++++++++++++++---------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index bfb2e9b..698ba92 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -118,18 +118,25 @@ where
     }
 
     pub(crate) fn handle_accept_stopsign(&mut self, acc_ss: AcceptStopSign) {
-        if self.check_valid_ballot(acc_ss.n)
-            && self.state == (Role::Follower, Phase::Accept)
-            && self.handle_sequence_num(acc_ss.seq_num, acc_ss.n.pid) == MessageStatus::Expected
-        {
-            // Flush entries before appending stopsign. The accepted index is ignored here as
-            // it will be updated when appending stopsign.
-            let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
-            let new_accepted_idx = self
-                .internal_storage
-                .set_stopsign(Some(acc_ss.ss))
-                .expect(WRITE_ERROR_MSG);
-            self.reply_accepted(acc_ss.n, new_accepted_idx);
+        if self.check_valid_ballot(acc_ss.n) && self.state == (Role::Follower, Phase::Accept) {
+            match self.handle_sequence_num(acc_ss.seq_num, acc_ss.n.pid) {
+                MessageStatus::Expected => {
+                    // Flush entries before appending stopsign. The accepted index is ignored here as
+                    // it will be updated when appending stopsign.
+                    let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
+                    let new_accepted_idx = self
+                        .internal_storage
+                        .set_stopsign(Some(acc_ss.ss))
+                        .expect(WRITE_ERROR_MSG);
+                    self.reply_accepted(acc_ss.n, new_accepted_idx);
+                }
+                // Resent by a leader that did not get our reply. Nothing else will make us reply again.
+                MessageStatus::Outdated if self.internal_storage.get_stopsign().is_some() => {
+                    let accepted_idx = self.internal_storage.get_accepted_idx();
+                    self.reply_accepted(acc_ss.n, accepted_idx);
+                }
+                _ => (),
+            }
         }
     }
 
-- 
2.43.0

