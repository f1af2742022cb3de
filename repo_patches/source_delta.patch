From 6a3df89a4f160d48965466af3b6a614a502a8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 01/25] fix: a huge visibility timeout no longer overflows the
 lease deadline

---
 src/brokers/queue/domain/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index 02284ef..efaeb3d 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -392,7 +392,7 @@ impl QueueState {
             None => return (None, false),
         };
 
-        let timeout = now + visibility_timeout_ms;
+        let timeout = now.saturating_add(visibility_timeout_ms);
         self.transition_to(next_id, MessageState::InFlight(timeout));
 
         // Update message fields
-- 
2.43.0


From b6e3caf514cc6d2ed59b505bfaae55a7d14cfbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 02/25] fix: a consume batch size sent by a client no longer
 sizes an allocation

---
 src/brokers/queue/domain/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index efaeb3d..1d416d7 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -139,7 +139,7 @@ impl QueueState {
 
     /// Take up to `max` messages for batch consumption.
     pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
-        let mut result = Vec::with_capacity(max);
+        let mut result = Vec::with_capacity(max.min(self.registry.len()));
         let mut any_earliest = false;
 
         while result.len() < max {
-- 
2.43.0


From 5dd80a3077f4c51cc617a9af5997996a04b427c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 03/25] fix: record queue operations for storage before the
 queue lock is released

---
 src/brokers/queue/manager.rs | 110 ++++++++++++++---------------------
 1 file changed, 45 insertions(+), 65 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 7b923af..f9005d4 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -165,7 +165,7 @@ impl QueueManager {
                     let shared = entry.value().clone();
                     let now = current_time_ms();
 
-                    let (requeued, dlq_msgs) = {
+                    let any_requeued = {
                         let mut inner = Self::lock(&shared.inner);
                         
                         // Check if processing is needed
@@ -177,33 +177,28 @@ impl QueueManager {
                         let max_retries = inner.config.max_retries;
                         let (requeued, dlq_msgs) = inner.state.process_expired(max_retries);
 
-                        for ref dlq_msg in &dlq_msgs {
-                            inner.dlq.push((*dlq_msg).clone());
+                        // Record the changes before the lock is released, so that the
+                        // stored operations keep the order of the state changes.
+                        for msg in &requeued {
+                            shared.store.execute(StorageOp::UpdateState {
+                                id: msg.id,
+                                visible_at: 0,
+                                attempts: msg.attempts,
+                            });
                         }
 
-                        (requeued, dlq_msgs)
-                    };
-
-                    if requeued.is_empty() && dlq_msgs.is_empty() {
-                        continue;
-                    }
-
-                    for msg in &requeued {
-                        shared.store.execute(StorageOp::UpdateState {
-                            id: msg.id,
-                            visible_at: 0,
-                            attempts: msg.attempts,
-                        });
-                    }
+                        for dlq_msg in dlq_msgs {
+                            inner.dlq.push(dlq_msg.clone());
+                            shared.store.execute(StorageOp::MoveToDLQ {
+                                id: dlq_msg.id,
+                                msg: dlq_msg,
+                            });
+                        }
 
-                    for dlq_msg in dlq_msgs {
-                        shared.store.execute(StorageOp::MoveToDLQ {
-                            id: dlq_msg.id,
-                            msg: dlq_msg,
-                        });
-                    }
+                        !requeued.is_empty()
+                    };
 
-                    if !requeued.is_empty() {
+                    if any_requeued {
                         shared.notify.notify_waiters();
                     }
                 }
@@ -285,9 +280,9 @@ impl QueueManager {
         {
             let mut inner = Self::lock(&shared.inner);
             inner.state.push(msg.clone());
+            shared.store.execute(StorageOp::Insert(msg));
         }
 
-        shared.store.execute(StorageOp::Insert(msg));
         shared.notify.notify_waiters();
 
         Ok(())
@@ -296,11 +291,9 @@ impl QueueManager {
     pub async fn pop(&self, queue_name: &str) -> Option<Message> {
         let shared = self.get_queue(queue_name)?;
 
-        let (msg_opt, _) = {
-            let mut inner = Self::lock(&shared.inner);
-            let vt = inner.config.visibility_timeout_ms;
-            inner.state.pop(vt)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let vt = inner.config.visibility_timeout_ms;
+        let (msg_opt, _) = inner.state.pop(vt);
 
         if let Some(msg) = &msg_opt {
             shared.store.execute(StorageOp::UpdateState {
@@ -319,10 +312,8 @@ impl QueueManager {
             None => return false,
         };
 
-        let result = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.state.ack(id)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let result = inner.state.ack(id);
 
         if result {
             shared.store.execute(StorageOp::Delete(id));
@@ -337,17 +328,13 @@ impl QueueManager {
             None => return false,
         };
 
-        let (requeued, dlq_msg) = {
-            let mut inner = Self::lock(&shared.inner);
-            let max_retries = inner.config.max_retries;
-            let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
+        let mut inner = Self::lock(&shared.inner);
+        let max_retries = inner.config.max_retries;
+        let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
 
-            if let Some(ref dlq_message) = dlq_msg {
-                inner.dlq.push(dlq_message.clone());
-            }
-
-            (requeued, dlq_msg)
-        };
+        if let Some(ref dlq_message) = dlq_msg {
+            inner.dlq.push(dlq_message.clone());
+        }
 
         if let Some(msg) = requeued {
             shared.store.execute(StorageOp::UpdateState {
@@ -382,10 +369,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
             let (msgs, _) = inner.state.take_batch(max_val, vt);
+            self.persist_batch_state(&shared, &msgs);
             msgs
         };
         if !msgs.is_empty() {
-            self.persist_batch_state(&shared, &msgs);
             return Ok(msgs);
         }
 
@@ -405,10 +392,10 @@ impl QueueManager {
                 let mut inner = Self::lock(&shared.inner);
                 let vt = inner.config.visibility_timeout_ms;
                 let (msgs, _) = inner.state.take_batch(max_val, vt);
+                self.persist_batch_state(&shared, &msgs);
                 msgs
             };
             if !msgs.is_empty() {
-                self.persist_batch_state(&shared, &msgs);
                 return Ok(msgs);
             }
 
@@ -468,15 +455,13 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let new_msg = {
-            let mut inner = Self::lock(&shared.inner);
-            if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
-                let new_msg = dlq_msg.clone().to_message();
-                inner.state.push(new_msg.clone());
-                Some(new_msg)
-            } else {
-                None
-            }
+        let mut inner = Self::lock(&shared.inner);
+        let new_msg = if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
+            let new_msg = dlq_msg.clone().to_message();
+            inner.state.push(new_msg.clone());
+            Some(new_msg)
+        } else {
+            None
         };
 
         if let Some(msg) = new_msg {
@@ -496,10 +481,8 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let removed = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.dlq.remove(&message_id).is_some()
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let removed = inner.dlq.remove(&message_id).is_some();
 
         if removed {
             shared.store.execute(StorageOp::DeleteDLQ(message_id));
@@ -513,12 +496,9 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let count = {
-            let mut inner = Self::lock(&shared.inner);
-            let count = inner.dlq.len();
-            inner.dlq.clear();
-            count
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let count = inner.dlq.len();
+        inner.dlq.clear();
 
         shared.store.execute(StorageOp::PurgeDLQ);
         Ok(count)
-- 
2.43.0


From 5aeab08bd0a16cc62c98a2f6921af3731d247a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:06 +0000
Subject: [PATCH 04/25] fix: a lease that ran out while the server was down
 counts as expired after the restart

---
 src/brokers/queue/domain/persistence.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 700342a..e20fb40 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -7,7 +7,7 @@ use rusqlite::{params, types::Type, Connection, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
-use crate::brokers::queue::domain::queue::{Message, MessageState, current_time_ms};
+use crate::brokers::queue::domain::queue::{Message, MessageState};
 use crate::brokers::queue::domain::dlq::DlqMessage;
 
 // ==========================================
@@ -285,11 +285,11 @@ fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
         let visible_at = row.get::<_, i64>(3)? as u64;
         let attempts: u32 = row.get(4)?;
         let created_at = row.get::<_, i64>(5)? as u64;
- 
-         let now = current_time_ms();
-         
-         // Reconstruct State
-         let state = if visible_at > now && attempts > 0 {
+
+         // Reconstruct State. A lease that ran out while the server was down is
+         // restored as such, so that it expires like any other lease and the
+         // retry limit still applies to it.
+         let state = if visible_at > 0 && attempts > 0 {
              MessageState::InFlight(visible_at)
          } else {
              MessageState::Ready
-- 
2.43.0


From d26a493aabc8eadc82c8eb6e2fd6c60fe8edfb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:06 +0000
Subject: [PATCH 05/25] fix: a queue whose name ends in .db keeps its name
 after a restart

---
 src/brokers/queue/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index f9005d4..0d2579a 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -74,7 +74,7 @@ impl QueueManager {
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                             if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = filename.trim_end_matches(".db").to_string();
+                                let queue_name = filename.strip_suffix(".db").unwrap_or(filename).to_string();
 
                                 let config_path = persistence_path.join(format!("{}.config.json", queue_name));
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-- 
2.43.0


From 2db0487799b86d8f00cf0e22bd3e85014c314d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:14 +0000
Subject: [PATCH 06/25] fix: stream messages are queued for storage in sequence
 order

---
 src/brokers/stream/manager.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index be786fc..b4905ea 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -154,21 +154,24 @@ impl StreamManager {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let persisted_seq = topic_ref.persisted_seq.clone();
 
-        let (seq, timestamp) = {
+        let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            inner.state.append(payload.clone())
+            let (seq, timestamp) = inner.state.append(payload.clone());
+
+            // Queued while the topic is still locked, so that the file receives
+            // the messages in sequence order.
+            let _ = self.storage_tx.send(StorageCommand::Append {
+                topic_name: topic.to_string(),
+                messages: vec![MessageToAppend {
+                    seq,
+                    timestamp,
+                    payload,
+                }],
+                persisted_seq,
+            });
+            seq
         };
 
-        let _ = self.storage_tx.send(StorageCommand::Append {
-            topic_name: topic.to_string(),
-            messages: vec![MessageToAppend {
-                seq,
-                timestamp,
-                payload,
-            }],
-            persisted_seq,
-        });
-
         topic_ref.notify.notify_waiters();
         Ok(seq)
     }
-- 
2.43.0


From 7ec909aecb86d72ece26ee4b0a72268fad00735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 07/25] fix: release a client's leases and subscriptions when
 its connection fails

---
 src/transport/tcp/connection.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index 5897216..a7694dc 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -56,7 +56,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     let mut request_set = tokio::task::JoinSet::new();
 
-    loop {
+    let result = loop {
         tokio::select! {
             // EVENT A: We received a command from the Client
             Some(frame) = inbound_rx.recv() => {
@@ -80,16 +80,16 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
             // EVENT B: The TCP Socket crashed or disconnected
             socket_result = &mut socket_task => {
                 match socket_result {
-                    Ok(Ok(())) => break, // Clean disconnect
-                    Ok(Err(err)) => return Err(format!("Protocol error: {err:?}")),
-                    Err(err) => return Err(format!("Socket task panicked: {err:?}")),
+                    Ok(Ok(())) => break Ok(()), // Clean disconnect
+                    Ok(Err(err)) => break Err(format!("Protocol error: {err:?}")),
+                    Err(err) => break Err(format!("Socket task panicked: {err:?}")),
                 }
             }
 
             // EVENT C: A background request finished, clean up its memory
             _ = request_set.join_next(), if !request_set.is_empty() => {}
         }
-    }
+    };
 
     // ==========================================
     // ACT 4: CLEANUP & DISCONNECT
@@ -101,7 +101,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
 
-    Ok(())
+    result
 }
 
 
-- 
2.43.0


From cdedeb2538d3ae7ab619806b298ba98407af4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 08/25] fix: a lost connection no longer blocks its group's
 reads from disk

---
 src/brokers/stream/domain/group.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/stream/domain/group.rs b/src/brokers/stream/domain/group.rs
index 566ab33..42d4b31 100644
--- a/src/brokers/stream/domain/group.rs
+++ b/src/brokers/stream/domain/group.rs
@@ -287,6 +287,8 @@ impl ConsumerGroup {
         if let Some(member) = self.members.remove(consumer_id) {
             self.release_consumer(consumer_id);
             self.invalidate_inflight();
+            // A disk read of this member may have been dropped together with its connection
+            self.is_fetching_cold = false;
             return Some(member.connection_client_id);
         }
         None
-- 
2.43.0


From 90ec895f2d5e398fa38225a9ba66de12199592d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 09/25] fix: a damaged record ends the reading of a stream
 segment

---
 src/brokers/stream/domain/persistence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b932816..6f8a8e9 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -425,9 +425,9 @@ pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> V
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
-        if hasher.finalize() != stored_crc { continue; }
+        if hasher.finalize() != stored_crc { break; }
 
-        if content_buf.len() < 16 { continue; }
+        if content_buf.len() < 16 { break; }
         
         let mut cursor = std::io::Cursor::new(content_buf);
         let seq = cursor.get_u64();
-- 
2.43.0


From ec90226416daa69be17c55327ca1ad5053be2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 10/25] fix: a record torn by a crash is cut off before
 appending to its segment

---
 src/brokers/stream/domain/persistence.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 6f8a8e9..649bfe7 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -217,8 +217,13 @@ impl StorageManager {
             
             let segments = find_segments(&base_topic_path).await.unwrap_or_default();
             let (active_path, file_size) = if let Some(last) = segments.last() {
-                let size = tokio::fs::metadata(&last.path).await.map(|m| m.len()).unwrap_or(0);
-                (last.path.clone(), size)
+                match trim_torn_tail(&last.path).await {
+                    Ok(size) => (last.path.clone(), size),
+                    Err(e) => {
+                        error!("StorageManager: Failed to repair {:?}: {}", last.path, e);
+                        return;
+                    }
+                }
             } else {
                 (base_topic_path.join("1.log"), 0)
             };
@@ -566,6 +571,21 @@ async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
     msgs
 }
 
+/// Cut off an incomplete record left at the end of a segment by a crash:
+/// nothing appended after it could be read back. Returns the remaining size.
+async fn trim_torn_tail(path: &PathBuf) -> std::io::Result<u64> {
+    let size = tokio::fs::metadata(path).await?.len();
+    let mut intact: u64 = 0;
+    for msg in &load_segment_file(path).await {
+        intact += 4 + 4 + 8 + 8 + msg.payload.len() as u64;
+    }
+    if intact < size {
+        let file = OpenOptions::new().write(true).open(path).await?;
+        file.set_len(intact).await?;
+    }
+    Ok(intact)
+}
+
 async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::io::Error> {
     use bytes::Buf;
     let mut groups = HashMap::new();
-- 
2.43.0


From 8e590af9ce66e412e2aa68fcc07b9823f11da223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 11/25] fix: stream positions are not reused after a crash that
 left an empty segment

---
 src/brokers/stream/manager.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index b4905ea..0ad3786 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -491,7 +491,14 @@ impl StreamManager {
         }
 
         let recovered = recover_topic(&name, PathBuf::from(config.persistence_path.clone())).await;
-        let state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.messages);
+        let mut state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.messages);
+        // A newest segment without a readable record still marks where the log continues
+        if let Some(last_segment) = recovered.segments.last() {
+            if last_segment.start_seq > state.next_seq {
+                state.next_seq = last_segment.start_seq;
+                state.ram_start_seq = last_segment.start_seq;
+            }
+        }
 
         let ack_wait = Duration::from_millis(config.ack_wait_ms);
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
-- 
2.43.0


From e842588048d4f7694ff14c3302b3606baa6bcde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 12/25] fix: a restored consumer group does not start beyond
 the end of the log

---
 src/brokers/stream/manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 0ad3786..15cba84 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -504,6 +504,8 @@ impl StreamManager {
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
         let mut groups = HashMap::new();
         for (group_id, ack_floor) in recovered.groups_data {
+            // A crash can lose messages acknowledged before they were flushed
+            let ack_floor = ack_floor.min(state.next_seq.saturating_sub(1));
             groups.insert(
                 group_id.clone(),
                 ConsumerGroup::restore(group_id, ack_floor, state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
-- 
2.43.0


From 2a34d70bde6418287ab99d86edee39fdd19f7ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 13/25] fix: consumer group names over 64 KiB keep their saved
 position

---
 src/brokers/stream/domain/persistence.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 649bfe7..31f3d90 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -513,8 +513,8 @@ pub async fn save_groups_file(base_path: &Path, groups: &HashMap<String, u64>) -
 async fn write_group_entry<W: tokio::io::AsyncWrite + std::marker::Unpin>(writer: &mut W, group_id: &str, ack_floor: u64) -> std::io::Result<()> {
     use bytes::{BufMut, BytesMut};
     let group_bytes = group_id.as_bytes();
-    let group_len = group_bytes.len() as u16;
-    let len = 8 + 2 + group_len as u32;
+    let group_len = group_bytes.len().min(u16::MAX as usize) as u16;
+    let len = 8 + 2 + group_bytes.len() as u32;
     
     let mut hasher = Hasher::new();
     hasher.update(&ack_floor.to_be_bytes());
@@ -615,7 +615,9 @@ async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::i
         let group_len = cursor.get_u16();
 
         if cursor.remaining() < group_len as usize { continue; }
-        let group_bytes = cursor.copy_to_bytes(group_len as usize);
+        // The name fills the entry; `group_len` saturates for longer names
+        let name_len = cursor.remaining();
+        let group_bytes = cursor.copy_to_bytes(name_len);
         let group_id = String::from_utf8_lossy(&group_bytes).to_string();
 
         groups.insert(group_id, ack_floor);
-- 
2.43.0


From 8fe26dff4a5599afb5be6e0c9d5815b127c75d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 14/25] fix: stream messages whose write failed are not
 reported as persisted

---
 src/brokers/stream/domain/persistence.rs | 45 +++++++++++++++++++-----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 31f3d90..d4acbac 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -100,6 +100,8 @@ pub struct TopicContext {
     persisted_seq: Arc<AtomicU64>,
     highest_pending_seq: u64,
     current_file_size: u64,
+    /// A write was lost: nothing more may be reported as persisted
+    write_failed: bool,
 }
 
 // ==========================================
@@ -211,17 +213,18 @@ impl StorageManager {
             if !base_topic_path.exists() {
                 if let Err(e) = tokio::fs::create_dir_all(&base_topic_path).await {
                     error!("FATAL: Failed to create topic dir {:?}: {}", base_topic_path, e);
-                    return;
                 }
             }
             
             let segments = find_segments(&base_topic_path).await.unwrap_or_default();
+            let mut write_failed = false;
             let (active_path, file_size) = if let Some(last) = segments.last() {
                 match trim_torn_tail(&last.path).await {
                     Ok(size) => (last.path.clone(), size),
                     Err(e) => {
                         error!("StorageManager: Failed to repair {:?}: {}", last.path, e);
-                        return;
+                        write_failed = true;
+                        (last.path.clone(), 0)
                     }
                 }
             } else {
@@ -233,6 +236,7 @@ impl StorageManager {
                 persisted_seq: persisted_seq.clone(),
                 highest_pending_seq: 0,
                 current_file_size: file_size,
+                write_failed,
             });
         } else {
             self.topics.get_mut(&topic_name).unwrap().persisted_seq = persisted_seq;
@@ -248,7 +252,9 @@ impl StorageManager {
             let ctx = self.topics.get_mut(&topic_name).unwrap();
             if ctx.current_file_size + bytes_len > self.max_segment_size && ctx.current_file_size > 0 {
                 if let Some(mut old_writer) = self.open_files.pop(&ctx.active_path) {
-                    let _ = old_writer.flush().await;
+                    if old_writer.flush().await.is_err() {
+                        ctx.write_failed = true;
+                    }
                 }
                 let first_seq = messages.first().unwrap().seq;
                 ctx.active_path = base_topic_path.join(format!("{}.log", first_seq));
@@ -262,6 +268,7 @@ impl StorageManager {
                 if let Err(e) = writer.write_all(&buffer).await {
                     error!("StorageManager: Failed to write to {:?}: {}", path, e);
                     self.open_files.pop(&path);
+                    self.mark_write_failed(&path);
                     return;
                 }
                 let ctx = self.topics.get_mut(&topic_name).unwrap();
@@ -269,15 +276,20 @@ impl StorageManager {
                 ctx.highest_pending_seq = highest_seq;
                 self.dirty_topics.insert(topic_name.clone());
             }
-            Err(e) => error!("StorageManager: Failed to open file {:?}: {}", path, e),
+            Err(e) => {
+                error!("StorageManager: Failed to open file {:?}: {}", path, e);
+                self.mark_write_failed(&path);
+            }
         }
     }
 
     async fn get_or_open_writer(&mut self, path: &PathBuf) -> Result<&mut BufWriter<File>, std::io::Error> {
         if !self.open_files.contains(path) {
             if self.open_files.len() == self.open_files.cap().get() {
-                if let Some((_, mut evicted_writer)) = self.open_files.pop_lru() {
-                    let _ = evicted_writer.flush().await;
+                if let Some((evicted_path, mut evicted_writer)) = self.open_files.pop_lru() {
+                    if evicted_writer.flush().await.is_err() {
+                        self.mark_write_failed(&evicted_path);
+                    }
                 }
             }
             let file = OpenOptions::new().create(true).append(true).open(path).await?;
@@ -286,16 +298,31 @@ impl StorageManager {
         Ok(self.open_files.get_mut(path).unwrap())
     }
 
+    fn mark_write_failed(&mut self, path: &PathBuf) {
+        for ctx in self.topics.values_mut() {
+            if ctx.active_path == *path {
+                error!("StorageManager: Lost a write to {:?}", path);
+                ctx.write_failed = true;
+            }
+        }
+    }
+
     async fn flush_all(&mut self) {
-        for (_, writer) in self.open_files.iter_mut() {
-            let _ = writer.flush().await;
+        let mut failed_paths = Vec::new();
+        for (path, writer) in self.open_files.iter_mut() {
+            if writer.flush().await.is_err() {
+                failed_paths.push(path.clone());
+            }
+        }
+        for path in &failed_paths {
+            self.mark_write_failed(path);
         }
 
         if !self.dirty_topics.is_empty() {
             let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
             for name in topics_to_flush {
                 if let Some(ctx) = self.topics.get_mut(&name) {
-                    if ctx.highest_pending_seq > 0 {
+                    if ctx.highest_pending_seq > 0 && !ctx.write_failed {
                         ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
                         ctx.highest_pending_seq = 0;
                     }
-- 
2.43.0


From 2ce6037d89088abbe7bcfe7cb0ce1aea03ccc604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 15/25] fix: retained topics with empty segments keep their own
 name

---
 src/brokers/pub-sub/domain/radix_tree.rs | 20 +++++++++++++-------
 src/brokers/pub-sub/manager.rs           |  1 -
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 8fcc38f..429844e 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -145,7 +145,7 @@ impl Node {
         if pattern.is_empty() {
             if let Some(retained) = &self.retained {
                 if !retained.is_expired() {
-                    results.push((current_path.to_string(), retained.data.clone()));
+                    results.push((topic_name(current_path), retained.data.clone()));
                 }
             }
             return;
@@ -156,14 +156,14 @@ impl Node {
 
         if head == "+" {
             for (key, child) in &self.children {
-                let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
+                let next_path = format!("{}/{}", current_path, key);
                 child.collect_retained_for_pattern(tail, &next_path, results);
             }
         } else if head == "#" {
             self.collect_all_retained_for_subscribe(current_path, results);
         } else {
             if let Some(child) = self.children.get(head) {
-                let next_path = if current_path.is_empty() { head.clone() } else { format!("{}/{}", current_path, head) };
+                let next_path = format!("{}/{}", current_path, head);
                 child.collect_retained_for_pattern(tail, &next_path, results);
             }
         }
@@ -172,11 +172,11 @@ impl Node {
     pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: &str, results: &mut Vec<(String, Bytes)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone()));
+                results.push((topic_name(current_path), retained.data.clone()));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
+            let next_path = format!("{}/{}", current_path, key);
             child.collect_all_retained_for_subscribe(&next_path, results);
         }
     }
@@ -184,11 +184,11 @@ impl Node {
     pub(crate) fn collect_all_retained(&self, current_path: &str, results: &mut Vec<(String, Bytes, Option<i64>)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
+                results.push((topic_name(current_path), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
+            let next_path = format!("{}/{}", current_path, key);
             child.collect_all_retained(&next_path, results);
         }
     }
@@ -254,3 +254,9 @@ impl Node {
         }
     }
 }
+
+/// A path built during traversal has one '/' before every segment, so that empty
+/// segments stay distinguishable; the topic name is the path without the first one.
+fn topic_name(path: &str) -> String {
+    path.strip_prefix('/').unwrap_or(path).to_string()
+}
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5548465..f8c9227 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -135,7 +135,6 @@ impl PubSubManager {
         root.collect_retained_for_pattern(&parts, "", &mut retained);
 
         for (p, b) in retained {
-            let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
             let _ = sender.send(msg);
         }
-- 
2.43.0


From 56c7c44142627b69bfa0cd35894b0057e7954bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 16/25] fix: a huge retained time-to-live no longer overflows
 the expiry time

---
 src/brokers/pub-sub/domain/retained.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0a1a683..77022f4 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -14,12 +14,13 @@ pub(crate) struct RetainedMessage {
 
 impl RetainedMessage {
     pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
-        let expires_at = ttl_seconds.map(|secs| Instant::now() + std::time::Duration::from_secs(secs));
+        let expires_at = ttl_seconds.and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));
         let expires_at_unix = ttl_seconds.map(|secs| {
             SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
-                .as_secs() + secs
+                .as_secs()
+                .saturating_add(secs)
         });
         Self { data, expires_at, expires_at_unix }
     }
@@ -33,7 +34,7 @@ impl RetainedMessage {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
             if unix_ts > now_unix {
                 let remaining = unix_ts - now_unix;
-                Some(Instant::now() + std::time::Duration::from_secs(remaining))
+                Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
                 None
             }
-- 
2.43.0


From 2946744ffb6a88522b0457874db528e97f8b59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:04 +0000
Subject: [PATCH 17/25] fix: retained values that expired while the server was
 down do not come back

---
 src/brokers/pub-sub/domain/retained.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 77022f4..7e186ce 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -36,7 +36,7 @@ impl RetainedMessage {
                 let remaining = unix_ts - now_unix;
                 Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
-                None
+                Some(Instant::now())
             }
         });
         Self { data, expires_at, expires_at_unix }
-- 
2.43.0


From b8695b235c71b46ab4e9f789645502c74cbe9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:46 +0000
Subject: [PATCH 18/25] fix: retained values are flushed again after a failed
 flush

---
 src/brokers/pub-sub/manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index f8c9227..5256f3c 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -68,6 +68,7 @@ impl PubSubManager {
 
                     if let Err(e) = persistence::flush(&mut conn, &entries) {
                         tracing::error!("Failed to flush retained messages to SQLite: {}", e);
+                        flush_dirty.store(true, Ordering::Relaxed);
                     }
                 }
             }
-- 
2.43.0


From cb38c43d18cd22e9797a4d10b10db8e39ace7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 19/25] fix: a huge time-to-live no longer overflows the expiry
 of a key

---
 src/brokers/store/domain/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/brokers/store/domain/map.rs b/src/brokers/store/domain/map.rs
index 353d9dc..12bb5cb 100644
--- a/src/brokers/store/domain/map.rs
+++ b/src/brokers/store/domain/map.rs
@@ -57,9 +57,9 @@ impl MapStore {
     pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
         let expires_at = match ttl {
             Some(0) | None => {
-                Some(Instant::now() + Duration::from_secs(self.config.default_ttl_secs))
+                Instant::now().checked_add(Duration::from_secs(self.config.default_ttl_secs))
             }
-            Some(secs) => Some(Instant::now() + Duration::from_secs(secs)),
+            Some(secs) => Instant::now().checked_add(Duration::from_secs(secs)),
         };
 
         self.inner.insert(key, Entry {
-- 
2.43.0


From f9e6f1e18207a277504ea3ccfec04b43b79280aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 20/25] fix: listing a key with a far expiry no longer panics

---
 src/brokers/store/http.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/brokers/store/http.rs b/src/brokers/store/http.rs
index 05f426e..b2a42a9 100644
--- a/src/brokers/store/http.rs
+++ b/src/brokers/store/http.rs
@@ -55,15 +55,10 @@ async fn get_store(
     let keys = entries
         .into_iter()
         .map(|entry| {
-            let exp_at = match entry.expires_at {
-                Some(expiry) => {
-                    let sys_now = std::time::SystemTime::now();
-                    let dur = expiry.saturating_duration_since(now);
-                    let future_sys = sys_now + dur;
-                    chrono::DateTime::<chrono::Utc>::from(future_sys).to_rfc3339()
-                }
-                None => "Never".to_string(),
-            };
+            let exp_at = entry.expires_at
+                .and_then(|expiry| chrono::TimeDelta::from_std(expiry.saturating_duration_since(now)).ok())
+                .and_then(|remaining| chrono::Utc::now().checked_add_signed(remaining))
+                .map_or_else(|| "Never".to_string(), |at| at.to_rfc3339());
             KeyDetail {
                 key: entry.key,
                 value: payload_to_json_value(&entry.payload),
-- 
2.43.0


From 2c31483ee2bd0a19dd27f8445a35ac61af903338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 21/25] fix: listing topics with a huge offset and limit no
 longer overflows

---
 src/brokers/pub-sub/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5256f3c..24b3132 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -207,7 +207,7 @@ impl PubSubManager {
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
         let total_topics = all_topics.len();
         
-        let end = (offset + limit).min(total_topics);
+        let end = offset.saturating_add(limit).min(total_topics);
         let paginated = if offset < total_topics {
             all_topics[offset..end].to_vec()
         } else {
-- 
2.43.0


From 597c163e134357be92b47d9ab81a07a9946f334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 22/25] fix: the key listing pages and counts the live matching
 keys

---
 src/brokers/store/manager.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/brokers/store/manager.rs b/src/brokers/store/manager.rs
index dae4448..5d20ad9 100644
--- a/src/brokers/store/manager.rs
+++ b/src/brokers/store/manager.rs
@@ -18,10 +18,9 @@ impl StoreManager {
     }
 
     pub fn scan(&self, limit: usize, offset: usize, filter: Option<String>) -> StoreSnapshot {
-        let total = self.map.len();
         let now = Instant::now();
 
-        let entries = self.map.iter()
+        let live: Vec<KeyEntry> = self.map.iter()
             .filter(|entry| {
                 if let Some(ref f) = filter {
                     entry.key().contains(f)
@@ -29,8 +28,6 @@ impl StoreManager {
                     true
                 }
             })
-            .skip(offset)
-            .take(limit)
             .filter_map(|entry| {
                 let val = entry.value();
                 if let Some(expiry) = val.expires_at {
@@ -46,6 +43,8 @@ impl StoreManager {
                 })
             })
             .collect();
+        let total = live.len();
+        let entries = live.into_iter().skip(offset).take(limit).collect();
 
         StoreSnapshot { entries, total }
     }
-- 
2.43.0


From da89f562f3cf7ebe135ec9b584b6d31adf81db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 23/25] fix: topics with empty segments are listed under their
 own name

---
 src/brokers/pub-sub/domain/radix_tree.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 429844e..b6e52d0 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -226,10 +226,11 @@ impl Node {
 
     pub(crate) fn collect_filtered_topics(&self, base_path: &str, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
         if !base_path.is_empty() {
-            let matches = search.map_or(true, |s| base_path.contains(s));
+            let name = topic_name(base_path);
+            let matches = search.map_or(true, |s| name.contains(s));
             if matches && (!self.subscribers.is_empty() || self.retained.is_some()) {
                 topics.push(TopicSnapshot {
-                    full_path: base_path.to_string(),
+                    full_path: name,
                     subscribers: self.subscribers.len(),
                     retained_payload: self.retained.as_ref()
                         .filter(|r| !r.is_expired())
@@ -239,17 +240,17 @@ impl Node {
         }
 
         for (child_name, child_node) in &self.children {
-            let full_path = if base_path.is_empty() { child_name.clone() } else { format!("{}/{}", base_path, child_name) };
+            let full_path = format!("{}/{}", base_path, child_name);
             child_node.collect_filtered_topics(&full_path, search, topics);
         }
 
         if let Some(plus_node) = &self.plus_child {
-            let full_path = if base_path.is_empty() { "+".to_string() } else { format!("{}/+", base_path) };
+            let full_path = format!("{}/+", base_path);
             plus_node.collect_filtered_topics(&full_path, search, topics);
         }
 
         if let Some(hash_node) = &self.hash_child {
-            let full_path = if base_path.is_empty() { "#".to_string() } else { format!("{}/#", base_path) };
+            let full_path = format!("{}/#", base_path);
             hash_node.collect_filtered_topics(&full_path, search, topics);
         }
     }
-- 
2.43.0


From 4084ff0e10341a1772e55309b4081b916527de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 24/25] fix: queue and stream names cannot reach files outside
 their data directory

---
 src/brokers/mod.rs            |  5 +++++
 src/brokers/queue/manager.rs  |  9 +++++++++
 src/brokers/stream/manager.rs | 12 ++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/brokers/mod.rs b/src/brokers/mod.rs
index a1e92e7..e5db011 100644
--- a/src/brokers/mod.rs
+++ b/src/brokers/mod.rs
@@ -3,3 +3,8 @@ pub mod queue;
 #[path = "pub-sub/mod.rs"]
 pub mod pub_sub;
 pub mod stream;
+
+/// Whether a name chosen by a client, joined to a data directory, names an entry of that directory itself.
+pub(crate) fn is_plain_file_name(name: &str) -> bool {
+    !name.is_empty() && name != "." && name != ".." && !name.contains(std::path::is_separator)
+}
diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 0d2579a..c822ddf 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -17,6 +17,7 @@ use crate::brokers::queue::domain::queue::{QueueConfig, QueueState, Message, cur
 use crate::brokers::queue::options::QueueCreateOptions;
 use crate::brokers::queue::domain::dlq::{DlqMessage, DlqState};
 use crate::brokers::queue::domain::persistence::{QueueStore, StorageOp};
+use crate::brokers::is_plain_file_name;
 use crate::brokers::queue::config::SystemQueueConfig;
 use crate::brokers::queue::snapshot::{QueueMessagePreview, QueueSnapshot};
 
@@ -233,6 +234,10 @@ impl QueueManager {
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
         use dashmap::mapref::entry::Entry;
 
+        if !is_plain_file_name(&format!("{}.db", name)) {
+            return Err(format!("Invalid queue name '{}'", name));
+        }
+
         match self.queues.entry(name.clone()) {
             Entry::Occupied(_) => Ok(()),
             Entry::Vacant(v) => {
@@ -253,6 +258,10 @@ impl QueueManager {
     }
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
+        if !is_plain_file_name(&format!("{}.db", name)) {
+            return Err(format!("Invalid queue name '{}'", name));
+        }
+
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
         }
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 15cba84..a486d7a 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -12,6 +12,7 @@ use tokio_util::sync::CancellationToken;
 use tracing::info;
 
 use crate::brokers::stream::options::{SeekTarget, StreamCreateOptions};
+use crate::brokers::is_plain_file_name;
 use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
@@ -93,6 +94,10 @@ impl StreamManager {
     }
 
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        if !is_plain_file_name(&name) {
+            return Err(format!("Invalid stream name '{}'", name));
+        }
+
         self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
@@ -136,6 +141,10 @@ impl StreamManager {
     }
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
+        if !is_plain_file_name(&name) {
+            return Err(format!("Invalid stream name '{}'", name));
+        }
+
         self.deleted_topics.insert(name.clone(), ());
 
         let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
@@ -418,6 +427,9 @@ impl StreamManager {
         if self.topics.contains_key(name) {
             return true;
         }
+        if !is_plain_file_name(name) {
+            return false;
+        }
 
         let path = PathBuf::from(&self.config.persistence_path).join(name);
         tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
-- 
2.43.0


From d6403131198b8d6424f1b0ef4fb63574353c8d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 25/25] fix: opening a queue can no longer deadlock inside
 SQLite (writer connection opened before recovery)

---
 src/brokers/queue/domain/persistence.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index e20fb40..eedc38b 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -75,9 +75,14 @@ impl QueueStore {
 
         let (tx, rx) = mpsc::unbounded_channel();
         
+        // Opened here and not by the writer task: opening it while the recovery
+        // connection is being closed can deadlock inside SQLite (3.51 takes its
+        // global and its per-file mutex in opposite orders in the two calls).
+        let writer_conn = Connection::open(&db_path);
+
         let path_clone = db_path.clone();
         let handle = tokio::spawn(async move {
-            run_writer(rx, path_clone, flush_ms, batch_size).await;
+            run_writer(rx, writer_conn, path_clone, flush_ms, batch_size).await;
         });
 
         Self {
@@ -128,11 +133,12 @@ impl QueueStore {
 
 async fn run_writer(
     mut rx: mpsc::UnboundedReceiver<StorageOp>,
+    writer_conn: Result<Connection>,
     db_path: PathBuf,
     flush_ms: u64,
     batch_size: usize,
 ) {
-    let mut conn = match Connection::open(&db_path) {
+    let mut conn = match writer_conn {
         Ok(c) => c,
         Err(e) => {
             error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
-- 
2.43.0

