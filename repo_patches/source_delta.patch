From a2bc81d53627a3e5523b94771dd20bdce979c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 01/40] fix: advance multipart offset to the end of the written
 part

---
 src/adnl/node/sender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index ebbb43a..af03dcb 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -157,7 +157,7 @@ impl Node {
                     },
                 };
 
-                *offset += len;
+                *offset = len;
                 result
             }
 
-- 
2.43.0


From 09ff086fe6cdf2f63963a9e28ee240d69863de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 02/40] fix: ignore empty and repeated parts of a multipart
 transfer

---
 src/adnl/transfer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 46bff45..acd3920 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -48,11 +48,19 @@ impl Transfer {
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
+        use dashmap::mapref::entry::Entry;
+
+        // Empty parts carry nothing and would never advance the assembly
         let len = data.len();
-        if self.parts.insert(offset, data).is_some() {
+        if len == 0 {
             return Ok(None);
         }
 
+        match self.parts.entry(offset) {
+            Entry::Vacant(entry) => entry.insert(data),
+            Entry::Occupied(_) => return Ok(None),
+        };
+
         // Increase received length.
         // This part heavily relies on ordering, so hope that it works as expected
         self.received_len.fetch_add(len, Ordering::Release);
-- 
2.43.0


From 5155dc92b2cb346f3a77059f37e916f7eebe32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 03/40] fix: expired clean-up removes only the multipart
 transfer it was started for

---
 src/adnl/node/receiver.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 6945295..7759aa4 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -219,7 +219,11 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_id).is_some() {
+                                // NOTE: another transfer with the same id could have been started
+                                if incoming_transfers
+                                    .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer))
+                                    .is_some()
+                                {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
@@ -242,11 +246,13 @@ impl Node {
             // Update transfer
             match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {
                 Ok(Some(message)) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers
+                        .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer));
                     Some(message)
                 }
                 Err(error) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers
+                        .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer));
                     return Err(error.into());
                 }
                 _ => return Ok(()),
-- 
2.43.0


From 4b8dcc5be6c1f3a5a64efd1e7cb7f9d73de4ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 04/40] fix: require a signature in handshake packets with a
 short source id

---
 src/adnl/node/receiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 7759aa4..4d0e860 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -456,7 +456,7 @@ impl Node {
                 raw_packet,
                 &mut packet.signature,
                 peer.id().public_key(),
-                false,
+                !from_channel && self.options.packet_signature_required,
             )?;
         }
 
-- 
2.43.0


From b5db6af1b2184545207bfadaadff711647aad76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 05/40] fix: record the first packet of a window and keep the
 window base in packets history

---
 src/util/packets_history.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 5829f1a..48351a7 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -31,7 +31,7 @@ impl PacketsHistory {
 
                 if mask
                     .index
-                    .compare_exchange(index, IN_TRANSIT, Ordering::Release, Ordering::Relaxed)
+                    .compare_exchange(index, IN_TRANSIT, Ordering::AcqRel, Ordering::Relaxed)
                     .is_err()
                 {
                     continue;
@@ -91,7 +91,7 @@ impl PacketsHistory {
             let index_masked = index & INDEX_MASK;
             let index_normalized = index & !INDEX_MASK;
 
-            if index_normalized > seqno_normalized + INDEX_MASK + 1 {
+            if index_normalized.saturating_sub(seqno_normalized) > INDEX_MASK + 1 {
                 tracing::debug!(seqno, index_normalized, "peer packet is too old");
                 return false;
             }
@@ -119,26 +119,32 @@ impl PacketsHistory {
 
                     if mask
                         .index
-                        .compare_exchange(index, IN_TRANSIT, Ordering::Release, Ordering::Relaxed)
+                        .compare_exchange(index, IN_TRANSIT, Ordering::AcqRel, Ordering::Relaxed)
                         .is_err()
                     {
                         continue;
                     }
 
-                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+                    // NOTE: the version may have wrapped since the bit was checked
+                    let bits = mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+                    if bits & mask_bit != 0 {
+                        mask.index.store(index, Ordering::Release);
+                        tracing::trace!(seqno, "peer packet was already received");
+                        return false;
+                    }
 
-                    index
+                    index_normalized
                 }
                 None => {
                     if mask
                         .index
-                        .compare_exchange(index, IN_TRANSIT, Ordering::Release, Ordering::Relaxed)
+                        .compare_exchange(index, IN_TRANSIT, Ordering::AcqRel, Ordering::Relaxed)
                         .is_err()
                     {
                         continue;
                     }
 
-                    if index_normalized + INDEX_MASK + 1 == seqno_normalized {
+                    if seqno_normalized - index_normalized == INDEX_MASK + 1 {
                         for i in 0..HISTORY_SIZE / 2 {
                             mask.bits[i].store(
                                 mask.bits[i + HISTORY_SIZE / 2].load(Ordering::Acquire),
@@ -155,7 +161,10 @@ impl PacketsHistory {
                         }
                     }
 
-                    index_normalized
+                    let mask_offset = HISTORY_SIZE / 2 + seqno_masked as usize / 64;
+                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+
+                    seqno_normalized
                 }
             };
 
@@ -164,7 +173,9 @@ impl PacketsHistory {
                 self.seqno.store(seqno, Ordering::Release);
             }
 
-            let index_masked = (index_masked + 1) & !INDEX_MASK;
+            // NOTE: the version never equals to `INDEX_MASK`, so that the index of the last
+            // window can't be confused with `IN_TRANSIT`
+            let index_masked = (index_masked + 1) % INDEX_MASK;
             let _ = mask.index.compare_exchange(
                 IN_TRANSIT,
                 next_index | index_masked,
-- 
2.43.0


From c3ce25dd7bd54a22f2308182abc0818fadd3ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 06/40] fix: keep a separate channel for each pair of local and
 remote ids

---
 src/adnl/node/mod.rs      | 40 ++++++++++++++++++++++-----------------
 src/adnl/node/receiver.rs |  4 ++--
 src/adnl/node/sender.rs   |  2 +-
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ff1b823..f56be5f 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -128,7 +128,9 @@ pub struct Node {
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
     /// Channels table used to fast search when sending messages
-    channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
+    ///
+    /// NOTE: the same remote peer has a separate channel with each of the local ids
+    channels_by_peers: FastDashMap<(NodeIdShort, NodeIdShort), Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
     incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
@@ -355,16 +357,18 @@ impl Node {
     ///
     /// See [`Node::add_peer`]
     pub fn remove_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<bool> {
-        let peers = self.get_peers(local_id)?;
-
-        self.channels_by_peers
-            .remove(peer_id)
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+        use dashmap::mapref::entry::Entry;
 
-        Ok(peers.remove(peer_id).is_some())
+        // NOTE: the entry stays locked until the peer is removed, so that
+        // no new channel can be created for it in the meantime
+        match self.get_peers(local_id)?.entry(*peer_id) {
+            Entry::Occupied(entry) => {
+                self.remove_channel(local_id, peer_id);
+                entry.remove();
+                Ok(true)
+            }
+            Entry::Vacant(_) => Ok(false),
+        }
     }
 
     /// Searches for remote peer socket address in the known peers
@@ -476,7 +480,7 @@ impl Node {
 
         let channel = self
             .channels_by_peers
-            .get(peer_id)
+            .get(&(*local_id, *peer_id))
             .map(|entry| entry.value().clone());
 
         let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
@@ -525,17 +529,19 @@ impl Node {
 
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
-        self.channels_by_peers
-            .remove(peer_id)
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+        self.remove_channel(local_id, peer_id);
 
         peer.reset();
 
         Ok(())
     }
+
+    fn remove_channel(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) {
+        if let Some((_, removed)) = self.channels_by_peers.remove(&(*local_id, *peer_id)) {
+            self.channels_by_id.remove(removed.ordinary_channel_in_id());
+            self.channels_by_id.remove(removed.priority_channel_in_id());
+        }
+    }
 }
 
 impl Drop for Node {
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 4d0e860..786d239 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -441,7 +441,7 @@ impl Node {
 
         let peers = self.get_peers(local_id)?;
         let peer = if from_channel {
-            if self.channels_by_peers.contains_key(&peer_id) {
+            if self.channels_by_peers.contains_key(&(*local_id, peer_id)) {
                 peers.get(&peer_id)
             } else {
                 return Err(AdnlPacketError::UnknownChannel.into());
@@ -525,7 +525,7 @@ impl Node {
         };
         let peer = peer.value();
 
-        match self.channels_by_peers.entry(*peer_id) {
+        match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
 
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index af03dcb..d10154c 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -74,7 +74,7 @@ impl Node {
 
         // Get local key
         let local_key = self.keystore.key_by_id(local_id)?;
-        let channel = self.channels_by_peers.get(peer_id);
+        let channel = self.channels_by_peers.get(&(*local_id, *peer_id));
         let mut force_handshake = false;
         let (additional_size, additional_message) = match &channel {
             Some(channel) if channel.ready() => (0, None),
-- 
2.43.0


From 9fcfb1004aa5b8d2077ba070ef5e83e64856fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 07/40] fix: announce the reinit date of the peer state, so
 that a reset is noticed by the peer

---
 src/adnl/node/receiver.rs | 3 ++-
 src/adnl/node/sender.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 786d239..042e931 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -465,7 +465,8 @@ impl Node {
             target: local_reinit_date,
         }) = packet.reinit_dates
         {
-            let expected_local_reinit_date = local_reinit_date.cmp(&self.start_time);
+            let expected_local_reinit_date =
+                local_reinit_date.cmp(&peer.receiver_state().reinit_date());
             if expected_local_reinit_date == Ordering::Greater {
                 return Err(AdnlPacketError::DstReinitDateTooNew.into());
             }
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index d10154c..3a2bc27 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -260,8 +260,9 @@ impl Node {
             confirm_seqno: peer.receiver_state().history(priority).seqno(),
             reinit_dates: match signer {
                 MessageSigner::Channel { .. } => None,
+                // NOTE: local reinit date is incremented when the peer state is reset
                 MessageSigner::Random(_) => Some(proto::adnl::ReinitDates {
-                    local: self.start_time,
+                    local: peer.receiver_state().reinit_date(),
                     target: peer.sender_state().reinit_date(),
                 }),
             },
-- 
2.43.0


From a0f7df6b1a2ce9cdd34c29e1ef503c2206d3359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 08/40] fix: insert channel ids before the channels table entry
 is released

---
 src/adnl/node/receiver.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 042e931..405e19b 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -562,16 +562,17 @@ impl Node {
                 );
             }
             Entry::Vacant(entry) => {
-                let new_channel = entry
-                    .insert(Arc::new(Channel::new(
-                        *local_id,
-                        *peer_id,
-                        peer.channel_key(),
-                        peer_channel_public_key,
-                        peer_channel_date,
-                        context,
-                    )))
-                    .clone();
+                // NOTE: the entry is locked until channel ids are inserted, otherwise they
+                // may remain there when the channel is replaced by a concurrent request
+                let entry = entry.insert(Arc::new(Channel::new(
+                    *local_id,
+                    *peer_id,
+                    peer.channel_key(),
+                    peer_channel_public_key,
+                    peer_channel_date,
+                    context,
+                )));
+                let new_channel = entry.value().clone();
                 self.channels_by_id.insert(
                     *new_channel.ordinary_channel_in_id(),
                     ChannelReceiver::Ordinary(new_channel.clone()),
-- 
2.43.0


From be35020adde9ac99e237d2cfed1b33e65f148835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 09/40] fix: leave the keystore unchanged when the key to be
 added is already there

---
 src/adnl/keystore.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adnl/keystore.rs b/src/adnl/keystore.rs
index 6181295..37189be 100644
--- a/src/adnl/keystore.rs
+++ b/src/adnl/keystore.rs
@@ -51,16 +51,14 @@ impl Keystore {
         let (_, short_id) = secret_key.compute_node_ids();
 
         match self.tags.entry(tag) {
-            hash_map::Entry::Vacant(entry) => {
-                entry.insert(short_id);
-                match self.keys.entry(short_id) {
-                    hash_map::Entry::Vacant(entry) => {
-                        entry.insert(Arc::new(secret_key.into()));
-                        Ok(short_id)
-                    }
-                    hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            hash_map::Entry::Vacant(tag_entry) => match self.keys.entry(short_id) {
+                hash_map::Entry::Vacant(entry) => {
+                    tag_entry.insert(short_id);
+                    entry.insert(Arc::new(secret_key.into()));
+                    Ok(short_id)
                 }
-            }
+                hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            },
             hash_map::Entry::Occupied(entry) => {
                 if entry.get() == &short_id {
                     Ok(short_id)
-- 
2.43.0


From e3e2de854441cf9d4d9593b891fea9acb2ce307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 10/40] fix: allow any amount of random peers to be requested
 with an exclusion

---
 src/adnl/peers_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index a1fc7b8..7394db9 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -69,7 +69,7 @@ impl PeersSet {
 
         let items = state.index.choose_multiple(
             &mut fast_thread_rng(),
-            if except.is_some() { amount + 1 } else { amount } as usize,
+            amount.saturating_add(except.is_some() as u32) as usize,
         );
 
         match except {
-- 
2.43.0


From 8a06e09009c3cb9400d84be6104aa0c2a480881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 11/40] fix: do not hold the lock of the other peers set while
 filling from it

---
 src/adnl/peers_set.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index 7394db9..64741f2 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -98,25 +98,32 @@ impl PeersSet {
             None => amount as usize,
         };
 
-        let other_state = other.state.read();
-        let new_peers = other_state
-            .index
-            .choose_multiple(&mut rand::thread_rng(), selected_amount);
+        // NOTE: selected peers are copied to release `other` before locking `self`,
+        // otherwise two sets which are filled from each other will deadlock
+        let new_peers = {
+            let other_state = other.state.read();
+            other_state
+                .index
+                .choose_multiple(&mut rand::thread_rng(), selected_amount)
+                .map(RefId::copy_inner)
+                .collect::<Vec<_>>()
+        };
 
         let mut state = self.state.write();
 
-        let insert = |peer_id: &RefId| {
-            state.insert(peer_id.copy_inner());
+        let insert = |peer_id: NodeIdShort| {
+            state.insert(peer_id);
         };
 
         match except {
             Some(except) => {
                 new_peers
-                    .filter(|peer_id| !except.contains(&*peer_id.0))
+                    .into_iter()
+                    .filter(|peer_id| !except.contains(peer_id))
                     .take(amount as usize)
                     .for_each(insert);
             }
-            None => new_peers.for_each(insert),
+            None => new_peers.into_iter().for_each(insert),
         }
     }
 
-- 
2.43.0


From 832eae16ee8130dbe1411c3d04c7a987e9cdf8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 12/40] fix: stop processing and sending queued packets once
 the node is shut down

---
 src/adnl/node/receiver.rs | 6 +++---
 src/adnl/node/sender.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 405e19b..1879cd2 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -59,9 +59,9 @@ impl Node {
 
                 // Receive packet
                 tokio::pin!(let recv = socket.recv_from(raw_buffer););
-                let result = match select(recv, &mut cancelled).await {
-                    Either::Left((left, _)) => left,
-                    Either::Right(_) => break,
+                let result = match select(&mut cancelled, recv).await {
+                    Either::Left(_) => break,
+                    Either::Right((result, _)) => result,
                 };
 
                 let len = match result {
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index 3a2bc27..cd69b5e 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -33,12 +33,12 @@ impl Node {
 
             while let Some(packet) = {
                 tokio::pin!(let recv = sender_queue_rx.recv(););
-                match select(recv, &mut cancelled).await {
-                    Either::Left((packet, _)) => packet,
-                    Either::Right(_) => {
+                match select(&mut cancelled, recv).await {
+                    Either::Left(_) => {
                         tracing::debug!("sender loop finished");
                         return;
                     }
+                    Either::Right((packet, _)) => packet,
                 }
             } {
                 // Send packet
-- 
2.43.0


From d951cba71d9ed99524fcc7bb5024c011305dbdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 13/40] fix: do not merge overlay nodes of a value which
 expires right now

---
 src/dht/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index 5c82479..76abd55 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -154,7 +154,7 @@ impl Storage {
             Entry::Occupied(mut entry) => {
                 let value = {
                     let old_nodes = match entry.get().ttl {
-                        old_ttl if old_ttl < now() => None,
+                        old_ttl if old_ttl <= now() => None,
                         old_ttl if old_ttl > value.ttl => return Ok(false),
                         _ => Some(deserialize_overlay_nodes(&entry.get().value)?),
                     };
-- 
2.43.0


From 98d479821da7f58a202aaf4b12ffdfb69845ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 14/40] fix: verify values received in DHT lookups against the
 requested key

---
 src/dht/entry.rs   |  2 +-
 src/dht/node.rs    | 76 ++++++++++++++++++++++++++++++++++++++--------
 src/dht/streams.rs |  6 +++-
 3 files changed, 69 insertions(+), 15 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index 2d99158..f4cdda8 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -89,7 +89,7 @@ impl<'a> Entry<'a> {
         let query = tl_proto::serialize(proto::rpc::DhtFindValue { key: &key_id, k: 6 }).into();
 
         match self.dht.query_raw(peer_id, query).await? {
-            Some(result) => self.dht.parse_value_result(&result),
+            Some(result) => self.dht.parse_value_result(&key_id, &result),
             None => Ok(None),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index ec0c8b0..5bfedbe 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -14,7 +14,7 @@ use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
 use super::buckets::Buckets;
 use super::entry::Entry;
 use super::futures::StoreValue;
-use super::storage::{Storage, StorageOptions};
+use super::storage::{Storage, StorageKeyId, StorageOptions};
 use super::{KEY_ADDRESS, KEY_NODES, MAX_DHT_PEERS};
 use crate::adnl;
 use crate::overlay;
@@ -495,6 +495,7 @@ impl Node {
 
     pub(super) fn parse_value_result<T>(
         &self,
+        key_id: &StorageKeyId,
         result: &[u8],
     ) -> Result<Option<(proto::dht::KeyDescriptionOwned, T)>>
     where
@@ -502,9 +503,7 @@ impl Node {
     {
         match tl_proto::deserialize::<proto::dht::ValueResult>(result)? {
             proto::dht::ValueResult::ValueFound(BoxedWrapper(mut value)) => {
-                if value.key.update_rule == proto::dht::UpdateRule::Signature {
-                    verify_signed_dht_value(&mut value)?;
-                }
+                verify_dht_value(key_id, &mut value)?;
 
                 let parsed = tl_proto::deserialize(value.value)?;
                 Ok(Some((value.key.as_equivalent_owned(), parsed)))
@@ -726,20 +725,67 @@ impl QuerySubscriber for NodeState {
     }
 }
 
-fn verify_signed_dht_value(value: &mut proto::dht::Value<'_>) -> Result<()> {
-    if value.key.key.id != &tl_proto::hash(value.key.id) {
+/// Checks that the received value belongs to the requested key and satisfies its update rule
+fn verify_dht_value(key_id: &StorageKeyId, value: &mut proto::dht::Value<'_>) -> Result<()> {
+    if value.ttl <= now() {
+        return Err(DhtNodeError::ValueExpired.into());
+    }
+
+    if &tl_proto::hash_as_boxed(value.key.key) != key_id
+        || value.key.key.id != &tl_proto::hash(value.key.id)
+    {
         return Err(DhtNodeError::InvalidValueKey.into());
     }
 
-    let full_id = adnl::NodeIdFull::try_from(value.key.id)?;
+    match value.key.update_rule {
+        proto::dht::UpdateRule::Signature => {
+            let full_id = verify_dht_key_description(&mut value.key)?;
+
+            let value_signature = std::mem::take(&mut value.signature);
+            full_id.verify(value.as_boxed(), value_signature)?;
+            value.signature = value_signature;
+        }
+        proto::dht::UpdateRule::Anybody => {
+            verify_dht_key_description(&mut value.key)?;
+        }
+        proto::dht::UpdateRule::OverlayNodes => verify_overlay_nodes_value(value)?,
+    }
+
+    Ok(())
+}
+
+/// Verifies key description signature and returns the full id of its owner
+fn verify_dht_key_description(
+    key: &mut proto::dht::KeyDescription<'_>,
+) -> Result<adnl::NodeIdFull> {
+    let full_id = adnl::NodeIdFull::try_from(key.id)?;
+
+    let signature = std::mem::take(&mut key.signature);
+    full_id.verify(key.as_boxed(), signature)?;
+    key.signature = signature;
+
+    Ok(full_id)
+}
+
+/// Checks that the value has empty signatures and contains only nodes of the overlay
+fn verify_overlay_nodes_value(value: &proto::dht::Value<'_>) -> Result<()> {
+    let is_overlay = matches!(
+        value.key.id,
+        everscale_crypto::tl::PublicKey::Overlay { .. }
+    );
+    if !is_overlay || value.key.key.name != KEY_NODES.as_bytes() || value.key.key.idx != 0 {
+        return Err(DhtNodeError::InvalidValueKey.into());
+    }
 
-    let key_signature = std::mem::take(&mut value.key.signature);
-    full_id.verify(value.key.as_boxed(), key_signature)?;
-    value.key.signature = key_signature;
+    if !value.signature.is_empty() || !value.key.signature.is_empty() {
+        return Err(DhtNodeError::InvalidValueSignature.into());
+    }
 
-    let value_signature = std::mem::take(&mut value.signature);
-    full_id.verify(value.as_boxed(), value_signature)?;
-    value.signature = value_signature;
+    let overlay_id = overlay::IdShort::from(*value.key.key.id);
+    let proto::overlay::Nodes { nodes } = tl_proto::deserialize_as_boxed(value.value)?;
+    for node in &nodes {
+        overlay_id.verify_overlay_node(node)?;
+    }
 
     Ok(())
 }
@@ -765,4 +811,8 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Invalid value signature")]
+    InvalidValueSignature,
+    #[error("Value expired")]
+    ValueExpired,
 }
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index dbff243..a250e6b 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -10,12 +10,14 @@ use tl_proto::TlRead;
 
 use super::node::Node;
 use super::peers_iter::PeersIter;
+use super::storage::StorageKeyId;
 use crate::proto;
 
 /// Stream for the `DhtNode::values` method.
 #[must_use = "streams do nothing unless polled"]
 pub struct DhtValuesStream<T> {
     dht: Arc<Node>,
+    key_id: StorageKeyId,
     query: Bytes,
     batch_len: Option<usize>,
     known_peers_version: u64,
@@ -43,6 +45,7 @@ where
 
         Self {
             dht,
+            key_id,
             query,
             batch_len,
             known_peers_version,
@@ -70,11 +73,12 @@ where
         // Spawn at most `max_tasks` queries
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
+            let key_id = self.key_id;
             let query = self.query.clone();
 
             self.futures.push(Box::pin(async move {
                 match dht.query_raw(&peer_id, query).await {
-                    Ok(Some(result)) => match dht.parse_value_result::<T>(&result) {
+                    Ok(Some(result)) => match dht.parse_value_result::<T>(&key_id, &result) {
                         Ok(Some(value)) => Some(value),
                         Ok(None) => None,
                         Err(e) => {
-- 
2.43.0


From 45b95ae4c3e4a23163805fbb5246eb9e6117012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 15/40] fix: raise the penalty of DHT nodes which do not answer

---
 src/dht/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 5bfedbe..8b4d974 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -454,7 +454,8 @@ impl Node {
         for<'a> A: TlRead<'a, Repr = tl_proto::Boxed> + 'static,
     {
         let result = self.adnl.query(&self.local_id, peer_id, query, None).await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(result, Ok(Some(_))));
         result
     }
 
@@ -472,7 +473,8 @@ impl Node {
                 Some(self.options.query_timeout_ms),
             )
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(result, Ok(Some(_))));
         result
     }
 
@@ -489,7 +491,8 @@ impl Node {
             .adnl
             .query_with_prefix::<Q, A>(&self.local_id, peer_id, &self.query_prefix, query, None)
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(result, Ok(Some(_))));
         result
     }
 
@@ -621,7 +624,7 @@ impl NodeState {
                     *entry.get_mut() += 2;
                 }
                 Entry::Vacant(entry) => {
-                    entry.insert(0);
+                    entry.insert(2);
                 }
             }
         }
-- 
2.43.0


From decbe47ecce9a9c74dcbb49a42fc71c2afb57ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 16/40] fix: answer with no nodes when no nodes are requested

---
 src/dht/buckets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/buckets.rs b/src/dht/buckets.rs
index 4d090d2..dea6b00 100644
--- a/src/dht/buckets.rs
+++ b/src/dht/buckets.rs
@@ -67,10 +67,10 @@ impl Buckets {
                 // Add all nodes from this distance to the result
                 let bucket = &self.buckets[distance as usize];
                 for item in bucket.iter() {
-                    nodes.push(item.value().clone());
                     if nodes.len() >= k as usize {
                         break 'outer;
                     }
+                    nodes.push(item.value().clone());
                 }
 
                 // Skip one different bit:
-- 
2.43.0


From 56e2feccf73e8943b4478792037d7358d01a1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 17/40] fix: finish the search of overlay nodes when there are
 no new nodes to resolve

---
 src/dht/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 8b4d974..14ea200 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -320,6 +320,11 @@ impl Node {
                 });
             }
 
+            // There is no one left to resolve
+            if futures.is_empty() {
+                break;
+            }
+
             // Wait all results
             while let Some((ip, node)) = futures.next().await {
                 match ip {
-- 
2.43.0


From 10f45963674b03c47dd5e5d9445c177b081c1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 18/40] fix: do not stop the search of DHT nodes at an invalid
 one

---
 src/dht/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 14ea200..e5a6139 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -258,7 +258,10 @@ impl Node {
             match res {
                 Ok(nodes) => {
                     for node in nodes {
-                        node_count += self.add_dht_peer(node)?.is_some() as usize;
+                        match self.add_dht_peer(node) {
+                            Ok(added) => node_count += added.is_some() as usize,
+                            Err(e) => tracing::warn!(%peer_id, "failed to add DHT peer: {e:?}"),
+                        }
                     }
                 }
                 Err(e) => {
-- 
2.43.0


From dcd761b7973bc9385103d9222909d97480ee31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 19/40] fix: do not skip newly found peers in DHT lookups

---
 src/dht/peers_iter.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index b755a9e..f177a5a 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -59,17 +59,16 @@ impl PeersIter {
     }
 
     fn next_known_peer(&mut self, dht: &Node) -> Option<adnl::NodeIdShort> {
-        loop {
-            let peer_id = dht.known_peers().get(self.index);
+        // NOTE: the index must not be moved past the end, so that peers
+        // which become known later are not skipped
+        while let Some(peer_id) = dht.known_peers().get(self.index) {
             self.index += 1;
 
-            if let Some(peer) = &peer_id {
-                if dht.is_bad_peer(peer) {
-                    continue;
-                }
+            if !dht.is_bad_peer(&peer_id) {
+                return Some(peer_id);
             }
-
-            break peer_id;
         }
+
+        None
     }
 }
-- 
2.43.0


From 8ea5f9d8519bf2e12789d9276755868f54dce7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 20/40] fix: number symbols of every RLDP part correctly

Symbol ids were compared with the ids of the previous message part, so that
sending more than one part overflowed, and stopped increasing when confirms
were late, so that repair symbols got ids of source symbols.
---
 src/rldp/outgoing_transfer.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 5df3389..2f86a27 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -50,6 +50,8 @@ impl OutgoingTransfer {
         }
 
         self.current_message_part = part as u32;
+        // Symbols are numbered from zero in each part
+        self.state.reset_seqno();
 
         let chunk_size = std::cmp::min(total - processed, SLICE);
         let encoder = self.encoder.insert(RaptorQEncoder::with_data(
@@ -70,20 +72,11 @@ impl OutgoingTransfer {
             None => return Err(OutgoingTransferError::EncoderIsNotReady.into()),
         };
 
+        // `seqno_out` is the id of the next symbol. It must never fall behind the symbols which
+        // were already sent, because repair symbols are generated starting from it
         let mut seqno_out = self.state.seqno_out();
-        let previous_seqno_out = seqno_out;
-
         let data = ok!(encoder.encode(&mut seqno_out));
-
-        let seqno_in = self.state.seqno_in();
-
-        let mut next_seqno_out = seqno_out;
-        if seqno_out - seqno_in <= WINDOW {
-            if previous_seqno_out == seqno_out {
-                next_seqno_out += 1;
-            }
-            self.state.set_seqno_out(next_seqno_out);
-        }
+        self.state.set_seqno_out(seqno_out + 1);
 
         tl_proto::serialize_into(
             proto::rldp::MessagePart::MessagePart {
@@ -165,9 +158,13 @@ impl OutgoingTransferState {
         }
         self.seqno_in.fetch_max(seqno, Ordering::Release);
     }
+
+    pub fn reset_seqno(&self) {
+        self.seqno_in.store(0, Ordering::Release);
+        self.seqno_out.store(0, Ordering::Release);
+    }
 }
 
-const WINDOW: u32 = 1000;
 const SLICE: usize = 2000000;
 
 #[derive(thiserror::Error, Debug)]
-- 
2.43.0


From 6729b8f949d48d640ad7bf957a0c00b938cf8251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 21/40] fix: do not alter RLDP payloads that look compressed

---
 src/rldp/compression.rs     | 19 +++++++++++++++++--
 src/rldp/node.rs            |  6 ++----
 src/rldp/transfers_cache.rs |  6 ++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 62426e4..5e2ae5c 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -1,8 +1,23 @@
 pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
-    let uncompressed = data.len();
-    if uncompressed <= COMPRESSION_THRESHOLD {
+    if data.len() <= COMPRESSION_THRESHOLD {
         return Ok(());
     }
+    force_compress(data)
+}
+
+/// Prepares data for a receiver which decompresses everything that looks compressed.
+///
+/// Data which looks compressed by itself is always compressed, otherwise it would be altered.
+pub fn encode(data: &mut Vec<u8>, compression: bool) -> std::io::Result<()> {
+    if compression && data.len() > COMPRESSION_THRESHOLD || decompress(data).is_some() {
+        force_compress(data)
+    } else {
+        Ok(())
+    }
+}
+
+fn force_compress(data: &mut Vec<u8>) -> std::io::Result<()> {
+    let uncompressed = data.len();
 
     let mut result = Vec::with_capacity(data.len() + 1);
     ok!(zstd::stream::copy_encode(
diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 40e0da0..3a22d25 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -169,10 +169,8 @@ impl Node {
     }
 
     fn make_query(&self, mut data: Vec<u8>) -> ([u8; 32], Vec<u8>) {
-        if self.options.force_compression {
-            if let Err(e) = compression::compress(&mut data) {
-                tracing::warn!("failed to compress RLDP query: {e:?}");
-            }
+        if let Err(e) = compression::encode(&mut data, self.options.force_compression) {
+            tracing::warn!("failed to compress RLDP query: {e:?}");
         }
 
         let query_id = gen_fast_bytes();
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d6cb17d..0561c67 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -575,10 +575,8 @@ async fn process_rldp_query(
     match process_query(ctx, subscribers, Cow::Owned(query.data)).await? {
         QueryProcessingResult::Processed(answer) => Ok(match answer {
             Some(mut answer) => {
-                if answer_compression {
-                    if let Err(e) = compression::compress(&mut answer) {
-                        tracing::warn!("failed to compress RLDP answer: {e:?}");
-                    }
+                if let Err(e) = compression::encode(&mut answer, answer_compression) {
+                    tracing::warn!("failed to compress RLDP answer: {e:?}");
                 }
                 if answer.len() > query.max_answer_size as usize {
                     return Err(TransfersCacheError::AnswerSizeExceeded.into());
-- 
2.43.0


From c9842d6a1364986a33bc3e3882d363c7792f3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 22/40] fix: enforce RLDP size limits on decompressed data

---
 src/rldp/compression.rs       | 65 +++++++++++++++++++++++------------
 src/rldp/incoming_transfer.rs |  4 +++
 src/rldp/node.rs              | 22 ++++++++----
 src/rldp/transfers_cache.rs   | 20 +++++++----
 4 files changed, 77 insertions(+), 34 deletions(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 5e2ae5c..3af7a79 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -8,11 +8,13 @@ pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
 /// Prepares data for a receiver which decompresses everything that looks compressed.
 ///
 /// Data which looks compressed by itself is always compressed, otherwise it would be altered.
-pub fn encode(data: &mut Vec<u8>, compression: bool) -> std::io::Result<()> {
-    if compression && data.len() > COMPRESSION_THRESHOLD || decompress(data).is_some() {
-        force_compress(data)
-    } else {
-        Ok(())
+pub fn encode(data: &mut Vec<u8>, compression: bool, limit: usize) -> std::io::Result<()> {
+    if compression && data.len() > COMPRESSION_THRESHOLD {
+        return force_compress(data);
+    }
+    match decompress_limited(data, limit) {
+        Decompressed::NotCompressed => Ok(()),
+        Decompressed::Data(_) | Decompressed::TooBig => force_compress(data),
     }
 }
 
@@ -37,29 +39,48 @@ fn force_compress(data: &mut Vec<u8>) -> std::io::Result<()> {
 }
 
 pub fn decompress(data: &[u8]) -> Option<Vec<u8>> {
-    if data.last() != Some(&TAG_COMPRESSED) {
-        return None;
+    match decompress_limited(data, usize::MAX) {
+        Decompressed::Data(data) => Some(data),
+        Decompressed::NotCompressed | Decompressed::TooBig => None,
     }
+}
 
-    let len = data.len();
-    match zstd::stream::decode_all(&mut &data[..len - 1]) {
-        Ok(mut data) if data.len() >= 4 => {
-            let len = data.len();
+/// Decompresses data unless there is more than `limit` bytes of it
+pub fn decompress_limited(data: &[u8], limit: usize) -> Decompressed {
+    use std::io::Read;
 
-            let src_len = ((data[len - 4] as usize) << 24)
-                | ((data[len - 3] as usize) << 16)
-                | ((data[len - 2] as usize) << 8)
-                | (data[len - 1] as usize);
+    let data = match data.split_last() {
+        Some((&TAG_COMPRESSED, data)) => data,
+        _ => return Decompressed::NotCompressed,
+    };
 
-            if src_len != len - 4 {
-                return None;
-            }
+    let mut result = Vec::new();
+    let decoder = match zstd::stream::Decoder::new(data) {
+        Ok(decoder) => decoder,
+        Err(_) => return Decompressed::NotCompressed,
+    };
+    // Decompressed data is followed by its length
+    match decoder
+        .take((limit as u64).saturating_add(5))
+        .read_to_end(&mut result)
+    {
+        Ok(len) if len < 4 => return Decompressed::NotCompressed,
+        Ok(len) if len - 4 > limit => return Decompressed::TooBig,
+        Ok(_) => {}
+        Err(_) => return Decompressed::NotCompressed,
+    }
 
-            data.truncate(src_len);
-            Some(data)
-        }
-        _ => None,
+    let src_len = result.split_off(result.len() - 4);
+    if src_len != (result.len() as u32).to_be_bytes() {
+        return Decompressed::NotCompressed;
     }
+    Decompressed::Data(result)
+}
+
+pub enum Decompressed {
+    Data(Vec<u8>),
+    NotCompressed,
+    TooBig,
 }
 
 const COMPRESSION_THRESHOLD: usize = 256;
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 7607080..723da7b 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -34,6 +34,10 @@ impl IncomingTransfer {
         }
     }
 
+    pub fn max_answer_size(&self) -> u32 {
+        self.max_answer_size
+    }
+
     pub fn total_size(&self) -> Option<usize> {
         self.total_size
     }
diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 3a22d25..ccc1a97 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -4,7 +4,7 @@ use anyhow::Result;
 use serde::{Deserialize, Serialize};
 use tokio::sync::Semaphore;
 
-use super::compression;
+use super::compression::{self, Decompressed};
 use super::transfers_cache::*;
 use crate::adnl;
 use crate::proto;
@@ -151,10 +151,14 @@ impl Node {
                 Ok(proto::rldp::Message::Answer {
                     query_id: answer_id,
                     data,
-                }) if answer_id == &query_id => Ok((
-                    Some(compression::decompress(data).unwrap_or_else(|| data.to_vec())),
-                    roundtrip,
-                )),
+                }) if answer_id == &query_id => {
+                    let limit = self.options.max_answer_size as usize;
+                    match compression::decompress_limited(data, limit) {
+                        Decompressed::Data(data) => Ok((Some(data), roundtrip)),
+                        Decompressed::NotCompressed => Ok((Some(data.to_vec()), roundtrip)),
+                        Decompressed::TooBig => Err(NodeError::AnswerSizeExceeded.into()),
+                    }
+                }
                 Ok(proto::rldp::Message::Answer { .. }) => Err(NodeError::QueryIdMismatch.into()),
                 Ok(proto::rldp::Message::Message { .. }) => {
                     Err(NodeError::UnexpectedAnswer("RldpMessageView::Message").into())
@@ -169,7 +173,11 @@ impl Node {
     }
 
     fn make_query(&self, mut data: Vec<u8>) -> ([u8; 32], Vec<u8>) {
-        if let Err(e) = compression::encode(&mut data, self.options.force_compression) {
+        if let Err(e) = compression::encode(
+            &mut data,
+            self.options.force_compression,
+            self.options.max_answer_size as usize,
+        ) {
             tracing::warn!("failed to compress RLDP query: {e:?}");
         }
 
@@ -222,4 +230,6 @@ enum NodeError {
     InvalidPacketContent(tl_proto::TlError),
     #[error("Unknown query id")]
     QueryIdMismatch,
+    #[error("Answer size exceeded")]
+    AnswerSizeExceeded,
 }
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 0561c67..29defeb 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -7,7 +7,7 @@ use parking_lot::Mutex;
 use tl_proto::{TlRead, TlWrite};
 use tokio::sync::mpsc;
 
-use super::compression;
+use super::compression::{self, Decompressed};
 use super::incoming_transfer::*;
 use super::outgoing_transfer::*;
 use super::NodeOptions;
@@ -420,7 +420,10 @@ impl IncomingContext {
             local_id: &self.local_id,
             peer_id: &self.peer_id,
         };
-        let answer = match process_rldp_query(ctx, &subscribers, query, force_compression).await? {
+        let max_query_size = self.transfer.max_answer_size() as usize;
+        let result =
+            process_rldp_query(ctx, &subscribers, query, force_compression, max_query_size).await?;
+        let answer = match result {
             QueryProcessingResult::Processed(Some(answer)) => answer,
             QueryProcessingResult::Processed(None) => return Ok(None),
             QueryProcessingResult::Rejected => {
@@ -563,19 +566,22 @@ async fn process_rldp_query(
     subscribers: &[Arc<dyn QuerySubscriber>],
     mut query: OwnedRldpMessageQuery,
     force_compression: bool,
+    max_query_size: usize,
 ) -> Result<QueryProcessingResult<Vec<u8>>> {
-    let answer_compression = match compression::decompress(&query.data) {
-        Some(decompressed) => {
+    let answer_compression = match compression::decompress_limited(&query.data, max_query_size) {
+        Decompressed::Data(decompressed) => {
             query.data = decompressed;
             true
         }
-        None => force_compression,
+        Decompressed::NotCompressed => force_compression,
+        Decompressed::TooBig => return Err(TransfersCacheError::QuerySizeExceeded.into()),
     };
 
     match process_query(ctx, subscribers, Cow::Owned(query.data)).await? {
         QueryProcessingResult::Processed(answer) => Ok(match answer {
             Some(mut answer) => {
-                if let Err(e) = compression::encode(&mut answer, answer_compression) {
+                if let Err(e) = compression::encode(&mut answer, answer_compression, max_query_size)
+                {
                     tracing::warn!("failed to compress RLDP answer: {e:?}");
                 }
                 if answer.len() > query.max_answer_size as usize {
@@ -665,4 +671,6 @@ enum TransfersCacheError {
     NoSubscribers,
     #[error("Answer size exceeded")]
     AnswerSizeExceeded,
+    #[error("Query size exceeded")]
+    QuerySizeExceeded,
 }
-- 
2.43.0


From a875b89186576429157d984814b53b362bb2f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 23/40] fix: do not forget RLDP query limits of peers with
 starting queries

---
 src/rldp/node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index ccc1a97..8516267 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -118,8 +118,10 @@ impl Node {
     /// Clears semaphores table
     pub fn gc(&self) {
         let max_permits = self.options.max_peer_queries;
-        self.semaphores
-            .retain(|_, semaphore| semaphore.available_permits() < max_permits);
+        self.semaphores.retain(|_, semaphore| {
+            // Keep semaphores of queries which are about to acquire a permit
+            semaphore.available_permits() < max_permits || Arc::strong_count(semaphore) > 1
+        });
     }
 
     #[tracing::instrument(level = "debug", name = "rldp_query", skip_all, fields(%local_id, %peer_id, ?roundtrip))]
-- 
2.43.0


From ec685f041c00444f6567e529a4e6603697ed94b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 24/40] fix: do not panic on RaptorQ parameters and symbols of
 other nodes

---
 src/overlay/overlay.rs        |  7 +++++--
 src/rldp/decoder.rs           | 38 ++++++++++++++++++++++++++++++++---
 src/rldp/incoming_transfer.rs | 14 ++++++++++---
 3 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7a0769e..ca1b4c4 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -964,6 +964,9 @@ impl Overlay {
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
+        let mut decoder =
+            RaptorQDecoder::with_params(fec_type).ok_or(OverlayError::InvalidFecType)?;
+
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -979,8 +982,6 @@ impl Overlay {
         // Spawn packets receiver
         let overlay = self.clone();
         tokio::spawn(async move {
-            let mut decoder = RaptorQDecoder::with_params(fec_type);
-
             // For each fec broadcast packet
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
@@ -1415,6 +1416,8 @@ type BroadcastId = [u8; 32];
 
 #[derive(thiserror::Error, Debug)]
 enum OverlayError {
+    #[error("Invalid FEC type")]
+    InvalidFecType,
     #[error("Unsupported signature")]
     UnsupportedSignature,
     #[error("Data size mismatch")]
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 984f22b..b6dbdb5 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -4,23 +4,37 @@ use crate::proto::rldp::RaptorQFecType;
 
 pub struct RaptorQDecoder {
     engine: Decoder,
+    symbol_size: usize,
     params: RaptorQFecType,
     seqno: u32,
 }
 
 impl RaptorQDecoder {
-    pub fn with_params(params: RaptorQFecType) -> Self {
-        Self {
+    /// Creates a decoder, returns `None` if there are no data blocks with these parameters
+    pub fn with_params(params: RaptorQFecType) -> Option<Self> {
+        let symbol_size = symbol_size(&params)?;
+        let symbol_count = (params.total_len as usize + symbol_size - 1) / symbol_size;
+        if symbol_count == 0 || symbol_count > MAX_SYMBOL_COUNT {
+            return None;
+        }
+
+        Some(Self {
             engine: Decoder::new(ObjectTransmissionInformation::with_defaults(
                 params.total_len as u64,
                 params.packet_len as u16,
             )),
+            symbol_size,
             params,
             seqno: 0,
-        }
+        })
     }
 
     pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
+        // Ignore symbols which cannot belong to the block
+        if data.len() != self.symbol_size || seqno > MAX_SYMBOL_ID {
+            return None;
+        }
+
         let packet = EncodingPacket::new(PayloadId::new(0, seqno), data);
         self.seqno = seqno;
         self.engine.decode(packet)
@@ -34,3 +48,21 @@ impl RaptorQDecoder {
         self.seqno
     }
 }
+
+fn symbol_size(params: &RaptorQFecType) -> Option<usize> {
+    match u16::try_from(params.packet_len) {
+        Ok(packet_len) if packet_len >= MIN_PACKET_LEN => {
+            Some((packet_len - packet_len % SYMBOL_ALIGNMENT) as usize)
+        }
+        _ => None,
+    }
+}
+
+const SYMBOL_ALIGNMENT: u16 = 8;
+const MIN_PACKET_LEN: u16 = 64;
+
+/// Max number of source symbols in one block
+const MAX_SYMBOL_COUNT: usize = 56403;
+
+/// Symbol ids are limited to 24 bits, including padding symbols
+const MAX_SYMBOL_ID: u32 = 0xff_0000;
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 723da7b..c7fd1c0 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -82,9 +82,15 @@ impl IncomingTransfer {
                     return Err(IncomingTransferError::PacketParametersMismatch.into())
                 }
                 Some(decoder) => decoder,
-                None => self
-                    .decoder
-                    .get_or_insert_with(|| RaptorQDecoder::with_params(fec_type)),
+                None => {
+                    if fec_type.total_len as usize > total_size - self.data.len() {
+                        return Err(IncomingTransferError::TooBigTransferSize.into());
+                    }
+                    match RaptorQDecoder::with_params(fec_type) {
+                        Some(decoder) => self.decoder.insert(decoder),
+                        None => return Err(IncomingTransferError::InvalidFecType.into()),
+                    }
+                }
             },
             std::cmp::Ordering::Less => {
                 tl_proto::serialize_into(
@@ -176,6 +182,8 @@ enum IncomingTransferError {
     TotalSizeMismatch,
     #[error("Packet parameters mismatch")]
     PacketParametersMismatch,
+    #[error("Invalid FEC type")]
+    InvalidFecType,
     #[error("Too big size for RLDP transfer")]
     TooBigTransferSize,
 }
-- 
2.43.0


From 8361d5cafcb65c98bcfaf25693e817c30e08beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 25/40] fix: do not overflow on RLDP completion of the last
 possible part

---
 src/rldp/transfers_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 29defeb..4a909ae 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -256,7 +256,9 @@ impl TransfersCache {
             proto::rldp::MessagePart::Complete { transfer_id, part } => {
                 if let Some(transfer) = self.transfers.get(transfer_id) {
                     if let RldpTransfer::Outgoing(state) = transfer.value() {
-                        state.set_part(part + 1);
+                        if let Some(next_part) = part.checked_add(1) {
+                            state.set_part(next_part);
+                        }
                     }
                 }
             }
-- 
2.43.0


From cf0b345d78ed7187ea642594e2e3ae092296fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 26/40] fix: forget incoming RLDP transfers which were
 abandoned or could not be answered

---
 src/rldp/transfers_cache.rs | 41 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 4a909ae..d7549ff 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -306,36 +306,35 @@ impl TransfersCache {
         let force_compression = self.force_compression;
         tokio::spawn(async move {
             // Wait until incoming query is received
-            incoming_context.receive(None).await;
+            let interval = query_options.completion_interval();
+            let received = tokio::time::timeout(interval, incoming_context.receive(None))
+                .await
+                .is_ok();
             transfers.insert(transfer_id, RldpTransfer::Done);
 
             // Process query
-            let outgoing_transfer_id = incoming_context
-                .answer(
-                    transfers.clone(),
-                    subscribers,
-                    query_options,
-                    force_compression,
-                )
-                .await
-                .unwrap_or_default();
+            let outgoing_transfer_id = if received {
+                incoming_context
+                    .answer(
+                        transfers.clone(),
+                        subscribers,
+                        query_options,
+                        force_compression,
+                    )
+                    .await
+                    .unwrap_or_default()
+            } else {
+                None
+            };
 
             // Clear transfers in background
-            tokio::time::sleep(query_options.completion_interval()).await;
+            tokio::time::sleep(interval).await;
             if let Some(outgoing_transfer_id) = outgoing_transfer_id {
                 transfers.remove(&outgoing_transfer_id);
             }
             transfers.remove(&transfer_id);
         });
 
-        // Clear incoming transfer on timeout
-        let transfers = self.transfers.clone();
-        let interval = self.query_options.completion_interval();
-        tokio::spawn(async move {
-            tokio::time::sleep(interval).await;
-            transfers.insert(transfer_id, RldpTransfer::Done);
-        });
-
         // Done
         Ok(Some(parts_tx))
     }
@@ -450,7 +449,9 @@ impl IncomingContext {
         };
 
         // Send answer
-        outgoing_context.send(query_options, None).await?;
+        if let Err(e) = outgoing_context.send(query_options, None).await {
+            tracing::warn!("failed to send RLDP answer: {e}");
+        }
 
         // Done
         Ok(Some(outgoing_transfer_id))
-- 
2.43.0


From 184e304a74e1aa14527cbfb18823570e0ffada37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 27/40] fix: forget RLDP transfers of cancelled queries

---
 src/rldp/transfers_cache.rs | 67 +++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d7549ff..cb7d659 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -66,6 +66,15 @@ impl TransfersCache {
         self.transfers
             .insert(incoming_transfer_id, RldpTransfer::Incoming(parts_tx));
 
+        // Transfers are cleared even if this future is dropped
+        let _guard = TransfersGuard {
+            transfers: self.transfers.clone(),
+            outgoing_transfer_id,
+            incoming_transfer_id,
+            interval: self.query_options.completion_interval(),
+            runtime: tokio::runtime::Handle::current(),
+        };
+
         // Prepare contexts
         let outgoing_context = OutgoingContext {
             adnl: adnl.clone(),
@@ -104,7 +113,7 @@ impl TransfersCache {
                 .insert(outgoing_transfer_id, RldpTransfer::Done);
         }
 
-        let result = match result {
+        match result {
             Ok((true, mut roundtrip)) => {
                 let mut start = Instant::now();
                 let mut updates = incoming_transfer_state.updates();
@@ -133,30 +142,8 @@ impl TransfersCache {
                 }
             }
             Ok((false, roundtrip)) => Ok((None, roundtrip)),
-            Err(e) => {
-                // Reset transfer entries
-                self.transfers
-                    .insert(outgoing_transfer_id, RldpTransfer::Done);
-                Err(e)
-            }
-        };
-
-        self.transfers
-            .insert(incoming_transfer_id, RldpTransfer::Done);
-
-        // Clear transfers in background
-        tokio::spawn({
-            let transfers = self.transfers.clone();
-            let interval = self.query_options.completion_interval();
-            async move {
-                tokio::time::sleep(interval).await;
-                transfers.remove(&outgoing_transfer_id);
-                transfers.remove(&incoming_transfer_id);
-            }
-        });
-
-        // Done
-        result
+            Err(e) => Err(e),
+        }
     }
 
     pub fn len(&self) -> usize {
@@ -346,6 +333,36 @@ enum RldpTransfer {
     Done,
 }
 
+struct TransfersGuard {
+    transfers: Arc<FastDashMap<TransferId, RldpTransfer>>,
+    outgoing_transfer_id: TransferId,
+    incoming_transfer_id: TransferId,
+    interval: Duration,
+    runtime: tokio::runtime::Handle,
+}
+
+impl Drop for TransfersGuard {
+    fn drop(&mut self) {
+        let outgoing_transfer_id = self.outgoing_transfer_id;
+        let incoming_transfer_id = self.incoming_transfer_id;
+
+        // Reset transfer entries
+        self.transfers
+            .insert(outgoing_transfer_id, RldpTransfer::Done);
+        self.transfers
+            .insert(incoming_transfer_id, RldpTransfer::Done);
+
+        // Clear transfers in background
+        let transfers = self.transfers.clone();
+        let interval = self.interval;
+        self.runtime.spawn(async move {
+            tokio::time::sleep(interval).await;
+            transfers.remove(&outgoing_transfer_id);
+            transfers.remove(&incoming_transfer_id);
+        });
+    }
+}
+
 struct IncomingContext {
     adnl: Arc<adnl::Node>,
     local_id: adnl::NodeIdShort,
-- 
2.43.0


From 0c7c82f026f7b7207e3b2a033e88900ed91805b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 28/40] fix: verify FEC broadcast parts before they affect a
 transfer, do not mix parts of different sources

---
 src/overlay/overlay.rs | 130 ++++++++++++++++++++++-------------------
 1 file changed, 71 insertions(+), 59 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index ca1b4c4..999ac3b 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -626,18 +626,50 @@ impl Overlay {
         let node_id = adnl::NodeIdFull::try_from(broadcast.src)?;
         let source = node_id.compute_short_id();
 
-        let signature = match broadcast.signature.len() {
-            64 => broadcast.signature.try_into().unwrap(),
-            _ => return Err(OverlayError::UnsupportedSignature.into()),
-        };
+        if broadcast.signature.len() != 64 {
+            return Err(OverlayError::UnsupportedSignature.into());
+        }
 
-        let transfer = match self.owned_broadcasts.entry(broadcast_id) {
-            // First packet of the broadcast
-            Entry::Vacant(entry) => {
-                self.spawn_fec_transfer_receiver(broadcast.fec, broadcast_id, source, entry)?
-            }
+        // NOTE: all parts are verified before they can affect anything
+        node_id.verify(
+            &make_fec_part_to_sign(
+                &broadcast_id,
+                broadcast.data_size,
+                broadcast.date,
+                broadcast.flags,
+                &broadcast.fec,
+                broadcast.data,
+                broadcast.seqno,
+                match broadcast.flags {
+                    flags if flags & BROADCAST_FLAG_ANY_SENDER == 0 => Some(source),
+                    _ => None,
+                },
+            ),
+            broadcast.signature,
+        )?;
+
+        // NOTE: parts of different sources (or with different parameters) can't be mixed
+        let transfer_id = make_fec_transfer_id(&broadcast, &source);
+        let existing = self
+            .owned_broadcasts
+            .get(&transfer_id)
+            .map(|item| item.value().clone());
+        let transfer = match existing {
             // Broadcast was already started
-            Entry::Occupied(entry) => entry.get().clone(),
+            Some(transfer) => transfer,
+            // Own broadcast or it was already received from other source
+            None if self.owned_broadcasts.contains_key(&broadcast_id) => return Ok(()),
+            None => match self.owned_broadcasts.entry(transfer_id) {
+                // First packet of the broadcast
+                Entry::Vacant(entry) => self.spawn_fec_transfer_receiver(
+                    broadcast.fec,
+                    broadcast_id,
+                    transfer_id,
+                    source,
+                    entry,
+                )?,
+                Entry::Occupied(entry) => entry.get().clone(),
+            },
         };
         let transfer = match transfer.as_ref() {
             OwnedBroadcast::Incoming(transfer) => transfer,
@@ -645,14 +677,6 @@ impl Overlay {
         };
 
         transfer.updated_at.refresh();
-        if transfer.source != source {
-            tracing::trace!(
-                overlay_id = %self.id,
-                broadcast_id = %DisplayBroadcastId(&broadcast_id),
-                "same broadcast but parts from different sources"
-            );
-            return Ok(());
-        }
 
         // Ignore duplicate packets
         if !transfer.history.deliver_packet(broadcast.seqno as u64) {
@@ -661,17 +685,13 @@ impl Overlay {
 
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
-            transfer.broadcast_tx.send(BroadcastFec {
-                node_id,
+            // NOTE: receiver might have been completed since the check
+            let _ = transfer.broadcast_tx.send(BroadcastFec {
                 data_hash: broadcast_id,
                 data_size: broadcast.data_size,
-                flags: broadcast.flags,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
-                fec_type: broadcast.fec,
-                date: broadcast.date,
-                signature,
-            })?;
+            });
         }
 
         // Redistribute broadcast
@@ -961,6 +981,7 @@ impl Overlay {
         self: &Arc<Self>,
         fec_type: proto::rldp::RaptorQFecType,
         broadcast_id: BroadcastId,
+        transfer_id: BroadcastId,
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
@@ -974,7 +995,6 @@ impl Overlay {
                 completed: AtomicBool::new(false),
                 history: PacketsHistory::for_recv(),
                 broadcast_tx,
-                source: peer_id,
                 updated_at: Default::default(),
             })))
             .clone();
@@ -991,12 +1011,15 @@ impl Overlay {
                 match process_fec_broadcast(&mut decoder, broadcast) {
                     // Broadcast complete and successfully decoded
                     Ok(Some(data)) => {
-                        let data = IncomingBroadcastInfo {
-                            packets,
-                            data,
-                            from: peer_id,
-                        };
-                        overlay.received_broadcasts.push(data);
+                        // It could have been completed from other source
+                        if overlay.create_broadcast(broadcast_id) {
+                            overlay.spawn_broadcast_gc_task(broadcast_id);
+                            overlay.received_broadcasts.push(IncomingBroadcastInfo {
+                                packets,
+                                data,
+                                from: peer_id,
+                            });
+                        }
                         break;
                     }
                     // Broadcast is not complete yet
@@ -1014,7 +1037,7 @@ impl Overlay {
             }
 
             // Mark broadcast as completed
-            if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+            if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                 match broadcast.value().as_ref() {
                     OwnedBroadcast::Incoming(transfer) => {
                         transfer.completed.store(true, Ordering::Release);
@@ -1038,7 +1061,7 @@ impl Overlay {
                 tokio::time::sleep(Duration::from_millis(broadcast_timeout_sec * 100)).await;
 
                 // Find incoming broadcast
-                if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+                if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                     match broadcast.value().as_ref() {
                         // Keep waiting if broadcast is not expired or not complete
                         OwnedBroadcast::Incoming(transfer)
@@ -1061,7 +1084,7 @@ impl Overlay {
                 break;
             }
 
-            overlay.spawn_broadcast_gc_task(broadcast_id);
+            overlay.spawn_broadcast_gc_task(transfer_id);
         });
 
         Ok(entry)
@@ -1228,24 +1251,6 @@ fn process_fec_broadcast(
 ) -> Result<Option<Vec<u8>>> {
     let broadcast_id = &broadcast.data_hash;
 
-    let broadcast_to_sign = &make_fec_part_to_sign(
-        broadcast_id,
-        broadcast.data_size,
-        broadcast.date,
-        broadcast.flags,
-        &broadcast.fec_type,
-        &broadcast.data,
-        broadcast.seqno,
-        if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
-            Some(broadcast.node_id.compute_short_id())
-        } else {
-            None
-        },
-    );
-    broadcast
-        .node_id
-        .verify(broadcast_to_sign, &broadcast.signature)?;
-
     match decoder.decode(broadcast.seqno, broadcast.data) {
         Some(result) if result.len() != broadcast.data_size as usize => {
             Err(OverlayError::DataSizeMismatch.into())
@@ -1343,6 +1348,19 @@ fn make_fec_part_to_sign(
     }
 }
 
+/// Parts of one broadcast from one source with the same parameters
+fn make_fec_transfer_id(
+    broadcast: &proto::overlay::OverlayBroadcastFec<'_>,
+    source: &adnl::NodeIdShort,
+) -> BroadcastId {
+    let mut transfer_hash = sha2::Sha256::new();
+    transfer_hash.update(source.as_slice());
+    transfer_hash.update(tl_proto::hash(&broadcast.fec));
+    transfer_hash.update(broadcast.data_hash);
+    transfer_hash.update(broadcast.data_size.to_le_bytes());
+    transfer_hash.finalize().into()
+}
+
 /// Received overlay broadcast
 pub struct IncomingBroadcastInfo {
     pub packets: u32,
@@ -1361,7 +1379,6 @@ struct IncomingFecTransfer {
     completed: AtomicBool,
     history: PacketsHistory,
     broadcast_tx: BroadcastFecTx,
-    source: adnl::NodeIdShort,
     updated_at: UpdatedAt,
 }
 
@@ -1378,15 +1395,10 @@ enum OwnedBroadcast {
 
 #[derive(Debug)]
 struct BroadcastFec {
-    node_id: adnl::NodeIdFull,
     data_hash: BroadcastId,
     data_size: u32,
-    flags: u32,
     data: Vec<u8>,
     seqno: u32,
-    fec_type: proto::rldp::RaptorQFecType,
-    date: u32,
-    signature: [u8; 64],
 }
 
 type VacantBroadcastEntry<'a> =
-- 
2.43.0


From bd4d3bc92e8227af976c5491aaac026d5af08175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 29/40] fix: do not accept broadcasts again after they were
 forgotten, nor from the far future

---
 src/overlay/overlay.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 999ac3b..11e7f0b 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1153,14 +1153,22 @@ impl Overlay {
         }
     }
 
+    /// Checks whether the broadcast date is too far from the current time
     fn is_broadcast_outdated(&self, date: u32) -> bool {
-        date + (self.options.broadcast_timeout_sec as u32) < now()
+        let timeout = self.options.broadcast_timeout_sec;
+        (date as u64).abs_diff(now() as u64) > timeout
     }
 
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
         let overlay = self.clone();
         tokio::spawn(async move {
-            tokio::time::sleep(Duration::from_secs(overlay.options.broadcast_timeout_sec)).await;
+            // NOTE: broadcast must not be forgotten while its copies are not outdated,
+            // its date could be ahead of the current time
+            let timeout = overlay.options.broadcast_timeout_sec;
+            tokio::time::sleep(Duration::from_secs(
+                timeout.saturating_mul(2).saturating_add(1),
+            ))
+            .await;
             overlay
                 .finished_broadcast_count
                 .fetch_add(1, Ordering::Release);
-- 
2.43.0


From 09b67bbbc6c06db0eca5e4d4dd91d7d6cc9c27af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 30/40] fix: limit the size of decompressed broadcasts

---
 src/rldp/compression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 3af7a79..2539f58 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -39,7 +39,7 @@ fn force_compress(data: &mut Vec<u8>) -> std::io::Result<()> {
 }
 
 pub fn decompress(data: &[u8]) -> Option<Vec<u8>> {
-    match decompress_limited(data, usize::MAX) {
+    match decompress_limited(data, MAX_DECOMPRESSED_SIZE) {
         Decompressed::Data(data) => Some(data),
         Decompressed::NotCompressed | Decompressed::TooBig => None,
     }
@@ -86,6 +86,9 @@ pub enum Decompressed {
 const COMPRESSION_THRESHOLD: usize = 256;
 const COMPRESSION_LEVEL: i32 = 3;
 
+/// Limit of data for which there is no other one. Exceeds what can be sent uncompressed.
+const MAX_DECOMPRESSED_SIZE: usize = 64 * 1024 * 1024;
+
 const TAG_COMPRESSED: u8 = 0x80;
 
 #[cfg(test)]
-- 
2.43.0


From 4f5ebe71f5da2c2f4e4c4f0a14f6d8b17588baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 31/40] fix: do not lose wakeups of broadcast waiters when some
 of them are cancelled

---
 src/overlay/broadcast_receiver.rs | 62 +++++++++++++++----------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 52b9f45..66e2800 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -1,13 +1,13 @@
-use std::sync::atomic::{AtomicU32, Ordering};
-use std::sync::Arc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use crossbeam_queue::SegQueue;
-use tokio::sync::Barrier;
+use tokio::sync::Semaphore;
 
 pub struct BroadcastReceiver<T> {
     data: SegQueue<T>,
-    barriers: SegQueue<Arc<Barrier>>,
-    sync_lock: AtomicU32,
+    /// Number of items in the queue which are not yet assigned to any waiter
+    available: Semaphore,
+    waiters: AtomicUsize,
 }
 
 impl<T: Send + 'static> BroadcastReceiver<T> {
@@ -16,37 +16,22 @@ impl<T: Send + 'static> BroadcastReceiver<T> {
     }
 
     pub fn barriers_len(&self) -> usize {
-        self.barriers.len()
+        self.waiters.load(Ordering::Acquire)
     }
 
-    pub fn push(self: &Arc<Self>, data: T) {
+    pub fn push(&self, data: T) {
         self.data.push(data);
-        let receiver = self.clone();
-        tokio::spawn(async move {
-            while receiver.sync_lock.load(Ordering::Acquire) > 0 {
-                if let Some(barrier) = receiver.barriers.pop() {
-                    barrier.wait().await;
-                    break;
-                } else {
-                    tokio::task::yield_now().await;
-                }
-            }
-        });
+        self.available.add_permits(1);
     }
 
+    /// NOTE: Items are not lost when the returned future is dropped at any point
     pub async fn pop(&self) -> T {
-        self.sync_lock.fetch_add(1, Ordering::Release);
+        let _waiter = Waiter::new(&self.waiters);
         loop {
-            match self.data.pop() {
-                Some(data) => {
-                    self.sync_lock.fetch_sub(1, Ordering::Release);
-                    return data;
-                }
-                None => {
-                    let barrier = Arc::new(Barrier::new(2));
-                    self.barriers.push(barrier.clone());
-                    barrier.wait().await;
-                }
+            // NOTE: Semaphore is never closed
+            self.available.acquire().await.unwrap().forget();
+            if let Some(data) = self.data.pop() {
+                return data;
             }
         }
     }
@@ -56,8 +41,23 @@ impl<T> Default for BroadcastReceiver<T> {
     fn default() -> Self {
         Self {
             data: Default::default(),
-            barriers: Default::default(),
-            sync_lock: Default::default(),
+            available: Semaphore::new(0),
+            waiters: Default::default(),
         }
     }
 }
+
+struct Waiter<'a>(&'a AtomicUsize);
+
+impl<'a> Waiter<'a> {
+    fn new(waiters: &'a AtomicUsize) -> Self {
+        waiters.fetch_add(1, Ordering::Release);
+        Self(waiters)
+    }
+}
+
+impl Drop for Waiter<'_> {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, Ordering::Release);
+    }
+}
-- 
2.43.0


From 4614cf080f0bc394bd175b238f60739cb5b6c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 32/40] fix: remove excluded overlay peers from neighbours

---
 src/adnl/peers_set.rs  | 31 +++++++++++++++++++++++++++++++
 src/overlay/overlay.rs |  2 +-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index 64741f2..8ac616d 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -134,6 +134,13 @@ impl PeersSet {
         self.state.write().insert(peer_id)
     }
 
+    /// Removes a value from the set.
+    ///
+    /// If the set had this value present, `true` is returned.
+    pub fn remove(&self, peer_id: &NodeIdShort) -> bool {
+        self.state.write().remove(peer_id)
+    }
+
     pub fn extend<I>(&self, peers: I)
     where
         I: IntoIterator<Item = NodeIdShort>,
@@ -309,6 +316,30 @@ impl PeersSetState {
 
         true
     }
+
+    fn remove(&mut self, peer_id: &NodeIdShort) -> bool {
+        let index = match self.cache.remove(Wrapper::wrap(peer_id)) {
+            Some(index) => index,
+            None => return false,
+        };
+        self.version += 1;
+
+        // Keep the remaining peers in the order of insertion
+        self.index.remove(index as usize);
+        if index < self.upper {
+            self.upper -= 1;
+        }
+        let oldest = self.upper as usize % self.index.len().max(1);
+        self.index.rotate_left(oldest);
+        for (index, peer) in self.index.iter().enumerate() {
+            self.cache.insert(peer.clone(), index as u32);
+        }
+
+        // The next peer will be added to the end
+        self.upper = self.index.len() as u32;
+
+        true
+    }
 }
 
 // SAFETY: internal Rcs are not exposed by the api and the reference
diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 11e7f0b..c63c825 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -315,7 +315,7 @@ impl Overlay {
             return false;
         }
         tracing::warn!(overlay_id = %self.id, %peer_id, "removing public overlay peer");
-        if self.neighbours.contains(peer_id) {
+        if self.neighbours.remove(peer_id) {
             self.update_neighbours(self.options.max_neighbours);
         }
         true
-- 
2.43.0


From ff90238d5202c49f8528d9a13644a2e7c0465fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 33/40] Hook: in-process datagrams instead of UDP sockets with
 --cfg evmon_net

---
 src/adnl/evmon_net.rs     | 69 +++++++++++++++++++++++++++++++++++++++
 src/adnl/mod.rs           |  2 ++
 src/adnl/node/mod.rs      |  4 +--
 src/adnl/node/receiver.rs |  2 +-
 src/adnl/node/sender.rs   |  2 +-
 src/adnl/socket.rs        | 14 +++++++-
 src/lib.rs                |  1 +
 7 files changed, 89 insertions(+), 5 deletions(-)
 create mode 100644 src/adnl/evmon_net.rs

diff --git a/src/adnl/evmon_net.rs b/src/adnl/evmon_net.rs
new file mode 100644
index 0000000..4d965ba
--- /dev/null
+++ b/src/adnl/evmon_net.rs
@@ -0,0 +1,69 @@
+//! In-process stand-in for the UDP socket, for interpreters without support for datagram sockets.
+//!
+//! Only compiled with `--cfg evmon_net`.
+
+use std::collections::HashMap;
+use std::io::{Error, ErrorKind, Result};
+use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
+use std::sync::Mutex;
+
+use once_cell::sync::Lazy;
+use tokio::sync::mpsc;
+
+type Datagram = (Vec<u8>, SocketAddr);
+
+static PORTS: Lazy<Mutex<HashMap<u16, mpsc::UnboundedSender<Datagram>>>> =
+    Lazy::new(Mutex::default);
+
+pub struct UdpSocket {
+    port: u16,
+    incoming: tokio::sync::Mutex<mpsc::UnboundedReceiver<Datagram>>,
+}
+
+impl UdpSocket {
+    pub fn new(port: u16) -> Result<Self> {
+        let mut ports = PORTS.lock().unwrap();
+        let port = match port {
+            0 => (20000..u16::MAX)
+                .find(|port| !ports.contains_key(port))
+                .ok_or(ErrorKind::AddrInUse)?,
+            port if ports.contains_key(&port) => return Err(ErrorKind::AddrInUse.into()),
+            port => port,
+        };
+        let (tx, rx) = mpsc::unbounded_channel();
+        ports.insert(port, tx);
+        Ok(Self {
+            port,
+            incoming: tokio::sync::Mutex::new(rx),
+        })
+    }
+
+    pub fn local_addr(&self) -> Result<SocketAddr> {
+        Ok(SocketAddrV4::new(Ipv4Addr::LOCALHOST, self.port).into())
+    }
+
+    pub async fn send_to<A: Into<SocketAddr>>(&self, data: &[u8], to: A) -> Result<usize> {
+        let to = to.into();
+        if let Some(port) = PORTS.lock().unwrap().get(&to.port()) {
+            port.send((data.to_vec(), self.local_addr()?)).ok();
+        }
+        Ok(data.len())
+    }
+
+    pub async fn recv_from(&self, buffer: &mut [u8]) -> Result<(usize, SocketAddr)> {
+        let (data, from) = match self.incoming.lock().await.recv().await {
+            Some(datagram) => datagram,
+            None => return Err(Error::from(ErrorKind::NotConnected)),
+        };
+        let len = std::cmp::min(data.len(), buffer.len());
+        // Only written, as the buffer may be uninitialized
+        buffer[..len].copy_from_slice(&data[..len]);
+        Ok((len, from))
+    }
+}
+
+impl Drop for UdpSocket {
+    fn drop(&mut self) {
+        PORTS.lock().unwrap().remove(&self.port);
+    }
+}
diff --git a/src/adnl/mod.rs b/src/adnl/mod.rs
index cf380f1..80f0793 100644
--- a/src/adnl/mod.rs
+++ b/src/adnl/mod.rs
@@ -93,6 +93,8 @@ use crate::util::{DeferredInitialization, NetworkBuilder};
 
 mod channel;
 mod encryption;
+#[cfg(evmon_net)]
+pub mod evmon_net;
 mod handshake;
 mod keystore;
 mod node;
diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index f56be5f..d36b902 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -18,7 +18,7 @@ use super::node_id::{NodeIdFull, NodeIdShort};
 use super::peer::{NewPeerContext, Peer, PeerFilter, Peers};
 use super::ping_subscriber::PingSubscriber;
 use super::queries_cache::{QueriesCache, QueryId};
-use super::socket::make_udp_socket;
+use super::socket::{make_udp_socket, UdpSocket};
 use super::transfer::*;
 use crate::proto;
 use crate::subscriber::*;
@@ -567,7 +567,7 @@ pub struct NodeMetrics {
 }
 
 struct InitializationState {
-    socket: Arc<tokio::net::UdpSocket>,
+    socket: Arc<UdpSocket>,
     /// Receiver end of the outgoing packets queue
     sender_queue_rx: SenderQueueRx,
     message_subscribers: Vec<Arc<dyn MessageSubscriber>>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 1879cd2..c8a47a6 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -5,7 +5,6 @@ use std::time::Duration;
 use anyhow::Result;
 use everscale_crypto::ed25519;
 use tl_proto::TlRead;
-use tokio::net::UdpSocket;
 
 use crate::adnl::channel::*;
 use crate::adnl::handshake::*;
@@ -13,6 +12,7 @@ use crate::adnl::node_id::{NodeIdFull, NodeIdShort};
 use crate::adnl::packet_view::*;
 use crate::adnl::peer::*;
 use crate::adnl::queries_cache::*;
+use crate::adnl::socket::UdpSocket;
 use crate::adnl::transfer::*;
 use crate::adnl::Node;
 use crate::proto;
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index cd69b5e..7f65ba2 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -4,7 +4,6 @@ use std::sync::Arc;
 use anyhow::Result;
 use sha2::Digest;
 use tl_proto::TlWrite;
-use tokio::net::UdpSocket;
 use tokio::sync::mpsc;
 
 use crate::adnl::channel::*;
@@ -12,6 +11,7 @@ use crate::adnl::handshake::*;
 use crate::adnl::keystore::Key;
 use crate::adnl::node_id::NodeIdShort;
 use crate::adnl::peer::*;
+use crate::adnl::socket::UdpSocket;
 use crate::adnl::Node;
 
 use crate::proto;
diff --git a/src/adnl/socket.rs b/src/adnl/socket.rs
index bd57384..97dccf0 100644
--- a/src/adnl/socket.rs
+++ b/src/adnl/socket.rs
@@ -1,9 +1,21 @@
+#![cfg_attr(evmon_net, allow(dead_code, unused_imports))]
+
 use std::net::Ipv4Addr;
 use std::sync::Arc;
 
 use anyhow::Result;
-use tokio::net::UdpSocket;
+#[cfg(not(evmon_net))]
+pub use tokio::net::UdpSocket;
+
+#[cfg(evmon_net)]
+pub use super::evmon_net::UdpSocket;
+
+#[cfg(evmon_net)]
+pub fn make_udp_socket(port: u16) -> Result<Arc<UdpSocket>> {
+    Ok(Arc::new(UdpSocket::new(port)?))
+}
 
+#[cfg(not(evmon_net))]
 pub fn make_udp_socket(port: u16) -> Result<Arc<UdpSocket>> {
     let udp_socket = std::net::UdpSocket::bind((Ipv4Addr::UNSPECIFIED, port))?;
     udp_socket.set_nonblocking(true)?;
diff --git a/src/lib.rs b/src/lib.rs
index 7c38542..cd831cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::too_many_arguments)]
+#![allow(unknown_lints, unexpected_cfgs)]
 
 //! Implementation of the network part of the Everscale blockchain.
 
-- 
2.43.0


From 1c366fccb73485f6e507593d7fc1762cbc18b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 34/40] fix: do not read or move packet bytes through
 invalidated references

parse_handshake_packet kept a reference to the local id in the buffer it
decrypts, and the signature of a packet was cut out of the buffer its parsed
content still borrows. Both are undefined behavior.
---
 src/adnl/handshake.rs     | 11 +++++------
 src/adnl/node/receiver.rs |  6 +++---
 src/adnl/packet_view.rs   |  5 -----
 src/proto/adnl.rs         | 23 ++++++-----------------
 4 files changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/adnl/handshake.rs b/src/adnl/handshake.rs
index c711ccb..eedad63 100644
--- a/src/adnl/handshake.rs
+++ b/src/adnl/handshake.rs
@@ -102,12 +102,11 @@ pub fn parse_handshake_packet(
         return Err(HandshakeError::BadHandshakePacketLength);
     }
 
-    // SAFETY: NodeIdShort is 32 (<= 96) bytes and has the same layout as `[u8; 32]`
-    // due to `#[repr(transparent)]`
-    let local_id = unsafe { &*(buffer.as_ptr() as *const NodeIdShort) };
+    // NOTE: must be copied because the buffer is modified later
+    let local_id = NodeIdShort::new(buffer[..32].try_into().unwrap());
 
     // Get local id
-    let local_key = match keys.get(local_id) {
+    let local_key = match keys.get(&local_id) {
         Some(key) => key,
         // No local keys found
         None => return Ok(None),
@@ -141,7 +140,7 @@ pub fn parse_handshake_packet(
             {
                 // Leave only data in the buffer and return version
                 buffer.remove_prefix(EXT_DATA_START);
-                return Ok(Some((*local_id, Some(version))));
+                return Ok(Some((local_id, Some(version))));
             }
 
             // Otherwise restore data
@@ -162,7 +161,7 @@ pub fn parse_handshake_packet(
     // Leave only data in the buffer
     buffer.remove_prefix(DATA_START);
 
-    Ok(Some((*local_id, None)))
+    Ok(Some((local_id, None)))
 }
 
 #[derive(thiserror::Error, Debug)]
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index c8a47a6..5bff6cd 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -378,12 +378,12 @@ impl Node {
             mandatory: bool,
         ) -> Result<(), AdnlPacketError> {
             if let Some(signature) = signature.take() {
+                // NOTE: the packet itself must not be modified while its parsed content is borrowed
+                let mut packet = raw_packet.as_slice().to_vec();
                 // SAFETY: called only once on same packet
                 let (message, signature) = unsafe {
-                    let origin = raw_packet.as_slice().as_ptr() as *mut u8;
-                    let packet = std::slice::from_raw_parts_mut(origin, raw_packet.len());
                     signature
-                        .extract(packet)
+                        .extract(&mut packet)
                         .ok_or(AdnlPacketError::SignatureNotFound)?
                 };
 
diff --git a/src/adnl/packet_view.rs b/src/adnl/packet_view.rs
index ceb73bd..a030234 100644
--- a/src/adnl/packet_view.rs
+++ b/src/adnl/packet_view.rs
@@ -5,11 +5,6 @@ pub struct PacketView<'a> {
 }
 
 impl<'a> PacketView<'a> {
-    #[inline(always)]
-    pub const fn as_ptr(&self) -> *const u8 {
-        self.bytes.as_ptr()
-    }
-
     #[inline(always)]
     pub const fn as_slice(&self) -> &[u8] {
         self.bytes
diff --git a/src/proto/adnl.rs b/src/proto/adnl.rs
index dd75516..5287db1 100644
--- a/src/proto/adnl.rs
+++ b/src/proto/adnl.rs
@@ -233,23 +233,20 @@ pub struct PacketContentsSignature {
 }
 
 impl PacketContentsSignature {
-    /// Modifies the content of the packet even though the PacketView
-    /// is passed as a constant reference
+    /// Removes the signature from the packet content
     ///
     /// # Safety
     ///
     /// * Must be called only once on same packet
     ///
-    pub unsafe fn extract<'a>(self, packet: &mut [u8]) -> Option<(&'a [u8], [u8; 64])> {
-        let origin = packet.as_mut_ptr();
-
+    pub unsafe fn extract(self, packet: &mut [u8]) -> Option<(&[u8], [u8; 64])> {
         // `packet` before:
         // [............_*__.................|__________________|.........]
         // flags_offset ^     signature_start ^    signature_end ^
 
         // NOTE: `flags_offset + 1` is used because flags are stored in LE bytes order and
         // we need the second byte (signature mask - 0x0800)
-        let (signature_len, remaining) = match (packet.len() as u16, self.flags_offset + 1) {
+        let signature_len = match (packet.len() as u16, self.flags_offset + 1) {
             (packet_len, flags_offset)
                 if flags_offset < packet_len
                     && self.signature_start < self.signature_end
@@ -257,26 +254,18 @@ impl PacketContentsSignature {
             {
                 packet[flags_offset as usize] &= 0xf7; // reset signature bit
 
-                (
-                    self.signature_end - self.signature_start, // signature len
-                    packet_len - self.signature_end,           // remaining
-                )
+                (self.signature_end - self.signature_start) as usize
             }
             _ => return None,
         };
 
-        let src = origin.add(self.signature_end as usize);
-        let dst = origin.add(self.signature_start as usize);
-        std::ptr::copy(src, dst, remaining as usize);
+        packet.copy_within(self.signature_end as usize.., self.signature_start as usize);
 
         // `packet` after:
         // [............_0__.................||.........]-----removed-----]
         // flags_offset ^     signature_start ^
 
-        Some((
-            std::slice::from_raw_parts(origin, packet.len() - signature_len as usize),
-            self.signature,
-        ))
+        Some((&packet[..packet.len() - signature_len], self.signature))
     }
 }
 
-- 
2.43.0


From 191fd856929601eee3018545f9a9ec385c6c73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 35/40] fix: do not follow nested dht.query prefixes

---
 src/dht/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index e5a6139..7a8d79e 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -715,7 +715,8 @@ impl QuerySubscriber for NodeState {
                 let proto::rpc::DhtQuery { node } = <_>::read_from(&query, &mut offset)?;
                 let constructor = u32::read_from(&query, &mut std::convert::identity(offset))?;
 
-                if offset >= query.len() {
+                // NOTE: only one prefix is allowed, otherwise the sender controls the recursion depth
+                if offset >= query.len() || constructor == proto::rpc::DhtQuery::TL_ID {
                     return Err(DhtNodeError::UnexpectedQuery.into());
                 }
 
-- 
2.43.0


From cb2e5ff4fb7e3259876891ec6d5c8dc4bb940331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:34 +0000
Subject: [PATCH 36/40] fix: do not mix ADNL transfers of different peers

Pending transfers of split messages were kept by the hash of the complete
message only, so parts of the same message from several peers (or to several
local ids) were joined into one message that was attributed to whoever sent
its last part, and any peer that knew the hash could spoil the transfer of
another one.
---
 src/adnl/node/mod.rs      | 4 +++-
 src/adnl/node/receiver.rs | 9 +++++----
 src/adnl/transfer.rs      | 4 ++++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index d36b902..3bd6bc2 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -133,7 +133,9 @@ pub struct Node {
     channels_by_peers: FastDashMap<(NodeIdShort, NodeIdShort), Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
-    incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
+    ///
+    /// NOTE: the same message can be received from different peers (or by different local ids)
+    incoming_transfers: Arc<FastDashMap<TransferKey, Arc<Transfer>>>,
 
     /// Pending queries
     queries: Arc<QueriesCache>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 5bff6cd..67a3f83 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -194,7 +194,8 @@ impl Node {
         } = message
         {
             let transfer_id = *hash;
-            let transfer = match self.incoming_transfers.entry(transfer_id) {
+            let transfer_key = (*local_id, *peer_id, transfer_id);
+            let transfer = match self.incoming_transfers.entry(transfer_key) {
                 // Create new transfer state if it was a new incoming transfer
                 Entry::Vacant(entry) => {
                     let entry = entry.insert(Arc::new(Transfer::new(total_size as usize)));
@@ -221,7 +222,7 @@ impl Node {
 
                                 // NOTE: another transfer with the same id could have been started
                                 if incoming_transfers
-                                    .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer))
+                                    .remove_if(&transfer_key, |_, t| Arc::ptr_eq(t, &transfer))
                                     .is_some()
                                 {
                                     tracing::debug!(
@@ -247,12 +248,12 @@ impl Node {
             match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {
                 Ok(Some(message)) => {
                     self.incoming_transfers
-                        .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer));
+                        .remove_if(&transfer_key, |_, t| Arc::ptr_eq(t, &transfer));
                     Some(message)
                 }
                 Err(error) => {
                     self.incoming_transfers
-                        .remove_if(&transfer_id, |_, t| Arc::ptr_eq(t, &transfer));
+                        .remove_if(&transfer_key, |_, t| Arc::ptr_eq(t, &transfer));
                     return Err(error.into());
                 }
                 _ => return Ok(()),
diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index acd3920..1b42990 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -2,10 +2,14 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 
 use sha2::Digest;
 
+use super::node_id::NodeIdShort;
 use crate::util::*;
 
 pub type TransferId = [u8; 32];
 
+/// Local id, remote peer id and the hash of the complete message
+pub type TransferKey = (NodeIdShort, NodeIdShort, TransferId);
+
 /// Multipart transfer
 ///
 /// It is used to collect multiple values of ADNL `Part` messages.
-- 
2.43.0


From 526f312eac105a6fd343ad619eae3b6b8bc27207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 37/40] fix: do not move a peer's reinit date back when packets
 race

---
 src/adnl/peer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 6c5cb7c..1fdce81 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -39,11 +39,11 @@ impl Peer {
     /// It is only allowed to update peer reinit date if it is greater or equal to the known one
     #[inline(always)]
     pub fn try_reinit_sender(&self, reinit_date: u32) -> bool {
-        let sender_reinit_date = self.sender_state.reinit_date();
+        // NOTE: packets are processed concurrently, so the date is never moved back
+        let sender_reinit_date = self.sender_state.advance_reinit_date(reinit_date);
         match reinit_date.cmp(&sender_reinit_date) {
             std::cmp::Ordering::Equal => true,
             std::cmp::Ordering::Greater => {
-                self.sender_state.set_reinit_date(reinit_date);
                 if sender_reinit_date != 0 {
                     self.sender_state.history(false).reset();
                     self.sender_state.history(true).reset();
@@ -159,8 +159,9 @@ impl PeerState {
         self.reinit_date.load(Ordering::Acquire)
     }
 
-    pub fn set_reinit_date(&self, reinit_date: u32) {
-        self.reinit_date.store(reinit_date, Ordering::Release)
+    /// Replaces the reinit date with the specified one if it is newer. Returns the previous date
+    pub fn advance_reinit_date(&self, reinit_date: u32) -> u32 {
+        self.reinit_date.fetch_max(reinit_date, Ordering::AcqRel)
     }
 }
 
-- 
2.43.0


From 682ae83ff14d18e787fa9e0e7b7dd10a61d2eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 38/40] fix: do not keep an overlay peer which was removed
 while being added as a neighbour

---
 src/overlay/overlay.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index c63c825..f643aa9 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -949,6 +949,11 @@ impl Overlay {
 
         if !self.neighbours.is_full() {
             self.neighbours.insert(*peer_id);
+
+            // NOTE: peer could have been removed from the overlay in the meantime
+            if self.ignored_peers.contains(peer_id) {
+                self.neighbours.remove(peer_id);
+            }
         }
 
         match self.nodes.entry(*peer_id) {
-- 
2.43.0


From 2fef8ed88429a29ac8c9284a579ee5536c182697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 39/40] fix: do not reset a newer channel when queries of a
 replaced one time out

---
 src/adnl/node/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 3bd6bc2..be8dc34 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -494,7 +494,7 @@ impl Node {
         if answer.is_none() {
             if let Some(channel) = channel {
                 if channel.update_drop_timeout(now(), self.options.channel_reset_timeout_sec) {
-                    self.reset_peer(local_id, peer_id)?;
+                    self.reset_peer(local_id, peer_id, &channel)?;
                 }
             }
         }
@@ -525,10 +525,23 @@ impl Node {
         }
     }
 
-    fn reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
+    fn reset_peer(
+        &self,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+        channel: &Arc<Channel>,
+    ) -> Result<()> {
         let peers = self.get_peers(local_id)?;
         let mut peer = peers.get_mut(peer_id).ok_or(NodeError::UnknownPeer)?;
 
+        // NOTE: the channel could have been already replaced by a newer one
+        if !matches!(
+            self.channels_by_peers.get(&(*local_id, *peer_id)),
+            Some(current) if Arc::ptr_eq(&current, channel)
+        ) {
+            return Ok(());
+        }
+
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
         self.remove_channel(local_id, peer_id);
-- 
2.43.0


From 92345383c8ffd467e4bc10189d09e2c7962cc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 40/40] fix: check the reinit date and deliver the packet
 without races

---
 src/adnl/node/receiver.rs |  5 +++++
 src/adnl/peer.rs          | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 67a3f83..15dc76d 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -461,6 +461,8 @@ impl Node {
             )?;
         }
 
+        let delivery_lock = peer.lock_delivery();
+
         if let Some(proto::adnl::ReinitDates {
             local: peer_reinit_date,
             target: local_reinit_date,
@@ -481,6 +483,7 @@ impl Node {
             }
 
             if local_reinit_date != 0 && expected_local_reinit_date == Ordering::Less {
+                drop(delivery_lock);
                 drop(peer);
 
                 self.send_message(local_id, &peer_id, proto::adnl::Message::Nop, false)?;
@@ -500,6 +503,8 @@ impl Node {
             }
         }
 
+        drop(delivery_lock);
+
         if let Some(confirm_seqno) = packet.confirm_seqno {
             let sender_seqno = peer.sender_state().history(priority).seqno();
             if confirm_seqno > sender_seqno {
diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 1fdce81..c666314 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -2,6 +2,7 @@ use std::net::{Ipv4Addr, SocketAddrV4};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 
 use everscale_crypto::ed25519;
+use parking_lot::{Mutex, MutexGuard};
 
 use super::node_id::{NodeIdFull, NodeIdShort};
 use crate::util::*;
@@ -20,6 +21,8 @@ pub struct Peer {
     receiver_state: PeerState,
     /// Packets sender state
     sender_state: PeerState,
+    /// Protects histories from being reset between the packet date check and its delivery
+    delivery_lock: Mutex<()>,
 }
 
 impl Peer {
@@ -31,6 +34,7 @@ impl Peer {
             channel_key: ed25519::KeyPair::generate(&mut rand::thread_rng()),
             receiver_state: PeerState::for_receive_with_reinit_date(local_reinit_date),
             sender_state: PeerState::for_send(),
+            delivery_lock: Default::default(),
         }
     }
 
@@ -78,6 +82,14 @@ impl Peer {
         &self.channel_key
     }
 
+    /// Must be held while the reinit date of the packet is checked and the packet is delivered,
+    /// so that packets which are processed concurrently do not get into histories
+    /// with another reinit date
+    #[inline(always)]
+    pub fn lock_delivery(&self) -> MutexGuard<'_, ()> {
+        self.delivery_lock.lock()
+    }
+
     /// Packets receiver state
     #[inline(always)]
     pub fn receiver_state(&self) -> &PeerState {
-- 
2.43.0

