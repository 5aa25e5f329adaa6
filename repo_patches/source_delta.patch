From db5640951d52564b66b86fdcf7b52d59eb71816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 01/36] fix: retry an interrupted read instead of failing the
 connection

---
 mpc-net/src/blocking.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 84e0830..1ec8af3 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -272,7 +272,13 @@ impl<R: Read> FrameReader<R> {
         let old = self.buf.len();
         // Zero-extend by a chunk, read into the fresh space, then trim to bytes read.
         self.buf.resize(old + READ_CHUNK, 0);
-        match self.stream.read(&mut self.buf[old..]) {
+        let result = loop {
+            match self.stream.read(&mut self.buf[old..]) {
+                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                result => break result,
+            }
+        };
+        match result {
             Ok(0) => {
                 self.buf.truncate(old);
                 eyre::bail!("connection closed by peer");
-- 
2.43.0


From 2eee781b3ebd53dcea8a5daf884cf4e053a0d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 02/36] fix: write out a TLS message whose socket write was
 interrupted

---
 mpc-net/src/tls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpc-net/src/tls.rs b/mpc-net/src/tls.rs
index 21f3f02..e022373 100644
--- a/mpc-net/src/tls.rs
+++ b/mpc-net/src/tls.rs
@@ -74,6 +74,10 @@ impl Write for TlsStream {
             buf.extend_from_slice(b);
         }
         self.write_all(&buf)?;
+        // rustls accepts the plaintext even if an interrupted call kept it from writing all
+        // records to the socket. Write the remainder now, as no other write may follow. Any
+        // other error is reported by the next write or flush.
+        while matches!(self.flush(), Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted) {}
         Ok(total)
     }
 
-- 
2.43.0


From 66b6e9f4451b9f8805f1a61a0467d33d3921a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 03/36] fix: keep a session connection whose waiter has given
 up

A connection that arrived after init_session had timed out or been cancelled was handed
to the stale waiter and lost, so a later init_session for that session never got it.
---
 mpc-net/src/tcp_session.rs          | 7 ++++++-
 mpc-net/src/tcp_session_blocking.rs | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index 8a4feab..2e9194e 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -121,8 +121,13 @@ impl TcpStreams {
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
                 tracing::trace!("found waiter, sending stream");
-                if tx.send(stream).is_err() {
+                if let Err(stream) = tx.send(stream) {
+                    // the waiter gave up, keep the connection for the next request
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
+                    streams.insert(
+                        (session_id, party_id),
+                        (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    );
                 }
             }
             None => {
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 53ed3e0..1987add 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -7,7 +7,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use byteorder::{NetworkEndian, ReadBytesExt as _, WriteBytesExt as _};
-use crossbeam_channel::Sender;
+use crossbeam_channel::{SendError, Sender};
 use eyre::Context as _;
 use serde::Deserialize;
 
@@ -141,8 +141,13 @@ impl TcpStreams {
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
                 tracing::trace!("found waiter, sending stream");
-                if tx.send(stream).is_err() {
+                if let Err(SendError(stream)) = tx.send(stream) {
+                    // the waiter gave up, keep the connection for the next request
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
+                    streams.insert(
+                        (session_id, party_id),
+                        (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    );
                 }
             }
             None => {
-- 
2.43.0


From fa2ac6b0c52d56933bfc00bc8ea41a0d42c39e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 04/36] fix: do not drop waiting session requests in the idle
 clean-up

The clean-up of unclaimed connections also removed requests still waiting for their peer,
so init_session failed after at most three idle times even with a longer or no time-out.
---
 mpc-net/src/tcp_session.rs          |  9 +++++++--
 mpc-net/src/tcp_session_blocking.rs | 12 ++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index 2e9194e..a54d02c 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -201,8 +201,13 @@ impl TcpNetworkHandler {
                     let mut streams = streams.streams.lock().await;
                     let now = Instant::now();
                     let before_cleanup = streams.len();
-                    streams
-                        .retain(|_, (_, last_used)| now.duration_since(*last_used) < time_to_idle);
+                    streams.retain(|_, (entry, last_used)| match entry {
+                        MaybeTcpStream::TcpStream(_) => {
+                            now.duration_since(*last_used) < time_to_idle
+                        }
+                        // a waiter ends when `init_session` is cancelled
+                        MaybeTcpStream::Waiter(tx) => !tx.is_closed(),
+                    });
                     let after_cleanup = streams.len();
                     let removed = before_cleanup - after_cleanup;
                     if removed > 0 {
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 1987add..ff341fe 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -221,8 +221,16 @@ impl TcpNetworkHandler {
                     let mut streams = streams.streams.lock().expect("not poisoned");
                     let now = Instant::now();
                     let before_cleanup = streams.len();
-                    streams
-                        .retain(|_, (_, last_used)| now.duration_since(*last_used) < time_to_idle);
+                    streams.retain(|_, (entry, last_used)| {
+                        let age = now.duration_since(*last_used);
+                        match entry {
+                            MaybeTcpStream::TcpStream(_) => age < time_to_idle,
+                            // a waiter ends with its own timeout
+                            MaybeTcpStream::Waiter(_) => {
+                                init_session_timeout.is_none_or(|timeout| age < timeout)
+                            }
+                        }
+                    });
                     let after_cleanup = streams.len();
                     let removed = before_cleanup - after_cleanup;
                     if removed > 0 {
-- 
2.43.0


From fae8b88c6e81f70de8aa8e5106add4ed22bc4904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 05/36] fix: count sent bytes only once the message was
 accepted

A send that failed (peer gone or time-out) was added to the connection statistics.
---
 mpc-net/src/async_net.rs | 3 ++-
 mpc-net/src/blocking.rs  | 3 ++-
 mpc-net/src/local.rs     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 1d0f863..2331365 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -149,9 +149,10 @@ impl AsyncChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(&to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         tx.blocking_send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 1ec8af3..72daefa 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -92,11 +92,12 @@ impl BlockingChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         // The payload moves into the queue unchanged; the writer thread prepends the
         // length prefix with a vectored write (no copy of the payload).
         tx.send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/local.rs b/mpc-net/src/local.rs
index 4937dd9..4495af3 100644
--- a/mpc-net/src/local.rs
+++ b/mpc-net/src/local.rs
@@ -70,7 +70,7 @@ impl Network for LocalNetwork {
 
     fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
         let (sender, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), std::sync::atomic::Ordering::Relaxed);
+        let len = data.len();
         if let Some(timeout) = self.timeout {
             sender
                 .send_timeout(data, timeout)
@@ -78,6 +78,7 @@ impl Network for LocalNetwork {
         } else {
             sender.send(data)?;
         }
+        sent_bytes.fetch_add(len, std::sync::atomic::Ordering::Relaxed);
         Ok(())
     }
 
-- 
2.43.0


From 7a6f4f354dfb38840dcde264750c2e648d4f3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 06/36] fix: apply the send time-out of the asynchronous
 transports

A send to a peer that does not read blocked forever once the send queue was full, even with
a send/recv time-out configured.
---
 mpc-net/src/async_net.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 2331365..a7d6f96 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -45,7 +45,7 @@ pub(crate) struct AsyncChannels {
     recv: HashMap<usize, RecvEntry>,
     /// Handle to the runtime the pump tasks run on, used to bound the shutdown barrier.
     handle: Handle,
-    /// Optional receive timeout for [`recv`](AsyncChannels::recv). If `None`, the receive is unbounded.
+    /// Optional timeout for [`send`](AsyncChannels::send) and [`recv`](AsyncChannels::recv). If `None`, both are unbounded.
     timeout: Option<Duration>,
     flush_timeout: Option<Duration>,
     max_frame_length: usize,
@@ -150,8 +150,15 @@ impl AsyncChannels {
         }
         let (tx, sent_bytes) = self.send.get(&to).context("party id out-of-bounds")?;
         let len = data.len();
-        tx.blocking_send(WriteMsg::Frame(data))
-            .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        let msg = WriteMsg::Frame(data);
+        if let Some(timeout) = self.timeout {
+            self.handle
+                .block_on(async { tokio::time::timeout(timeout, tx.send(msg)).await })
+                .map_err(|_| eyre::eyre!("send to party {to} timed out"))?
+        } else {
+            tx.blocking_send(msg)
+        }
+        .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
         sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
-- 
2.43.0


From 90fc6a9d926ca63e5ec4e437b5be23d607e73210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 07/36] fix: apply the flush time-out to queueing the flush
 marker

With a full send queue and a peer that does not read, flush (and so dropping a network)
blocked forever in spite of a configured flush time-out.
---
 mpc-net/src/async_net.rs | 17 ++++++++++++-----
 mpc-net/src/blocking.rs  | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index a7d6f96..1993027 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -167,14 +167,21 @@ impl AsyncChannels {
     pub(crate) fn flush(&self) -> eyre::Result<()> {
         for (to, (tx, _)) in self.send.iter() {
             let (ack_tx, ack_rx) = oneshot::channel();
-            tx.blocking_send(WriteMsg::Flush(ack_tx))
-                .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
             let result = if let Some(timeout) = self.flush_timeout {
+                let flush = async {
+                    tx.send(WriteMsg::Flush(ack_tx))
+                        .await
+                        .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+                    ack_rx
+                        .await
+                        .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))
+                };
                 self.handle
-                    .block_on(async { tokio::time::timeout(timeout, ack_rx).await })
-                    .context("timeout while flush")?
-                    .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
+                    .block_on(async { tokio::time::timeout(timeout, flush).await })
+                    .context("timeout while flush")??
             } else {
+                tx.blocking_send(WriteMsg::Flush(ack_tx))
+                    .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
                 ack_rx
                     .blocking_recv()
                     .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 72daefa..c3f967e 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -14,7 +14,7 @@ use std::{
 };
 
 use bytes::{Buf as _, Bytes, BytesMut};
-use crossbeam_channel::{Receiver, Sender, bounded};
+use crossbeam_channel::{Receiver, SendTimeoutError, Sender, bounded};
 use eyre::ContextCompat as _;
 use intmap::IntMap;
 
@@ -117,13 +117,22 @@ impl BlockingChannels {
     pub(crate) fn flush(&self) -> eyre::Result<()> {
         for (to, (tx, _)) in self.send.iter() {
             let (ack_tx, ack_rx) = bounded(1);
-            tx.send(WriteMsg::Flush(ack_tx))
-                .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
             let result = if let Some(timeout) = self.flush_timeout {
+                tx.send_timeout(WriteMsg::Flush(ack_tx), timeout)
+                    .map_err(|e| match e {
+                        SendTimeoutError::Timeout(_) => {
+                            eyre::eyre!("timed out flushing send queue for party {to}")
+                        }
+                        SendTimeoutError::Disconnected(_) => {
+                            eyre::eyre!("writer thread for party {to} terminated")
+                        }
+                    })?;
                 ack_rx
                     .recv_timeout(timeout)
                     .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
             } else {
+                tx.send(WriteMsg::Flush(ack_tx))
+                    .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
                 ack_rx
                     .recv()
                     .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?
-- 
2.43.0


From a195a8163795ff7ba7f4dd77d54b97627d837351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 08/36] fix: end the TCP connection when a blocking network is
 dropped

The reader thread holds a clone of the socket, so dropping a network closed nothing: the peer
waited forever for more, and the sockets and reader threads of both sides were leaked.
---
 mpc-net/src/blocking.rs             | 31 +++++++++++++++++++++++++++++
 mpc-net/src/tcp.rs                  |  7 ++++---
 mpc-net/src/tcp_session_blocking.rs |  4 ++--
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index c3f967e..bf02676 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -9,6 +9,7 @@
 
 use std::{
     io::{IoSlice, Read, Write},
+    net::{Shutdown, TcpStream},
     sync::{atomic::AtomicUsize, atomic::Ordering},
     time::Duration,
 };
@@ -161,6 +162,36 @@ impl BlockingChannels {
     }
 }
 
+/// The write half of a TCP connection. The reader thread holds a clone of the stream, so the
+/// write direction is shut down explicitly when the writer thread ends. This tells the peer
+/// that nothing more will come and in turn lets it end the connection.
+#[cfg_attr(
+    not(any(feature = "tcp", feature = "tcp-session-blocking")),
+    allow(dead_code)
+)]
+pub(crate) struct TcpWriteHalf(pub(crate) TcpStream);
+
+impl Write for TcpWriteHalf {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.write(buf)
+    }
+
+    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
+        self.0.write_vectored(bufs)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl Drop for TcpWriteHalf {
+    fn drop(&mut self) {
+        // fails if the connection is already gone
+        let _ = self.0.shutdown(Shutdown::Write);
+    }
+}
+
 /// Drains [`WriteMsg`]s for a single peer, writing them to `stream`.
 /// Exits cleanly when all senders are dropped.
 fn writer_loop<W: Write>(mut stream: W, rx: Receiver<WriteMsg>) {
diff --git a/mpc-net/src/tcp.rs b/mpc-net/src/tcp.rs
index a65fbb8..6f7d399 100644
--- a/mpc-net/src/tcp.rs
+++ b/mpc-net/src/tcp.rs
@@ -8,7 +8,8 @@ use std::{
 };
 
 use crate::{
-    ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network, blocking::BlockingChannels,
+    ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network,
+    blocking::{BlockingChannels, TcpWriteHalf},
     config::NetworkConfig,
 };
 use byteorder::{BigEndian, ReadBytesExt as _, WriteBytesExt as _};
@@ -107,7 +108,7 @@ impl TcpNetwork {
                         stream.set_nodelay(true)?;
                         stream.write_u64::<BigEndian>(i as u64)?;
                         stream.write_u64::<BigEndian>(id as u64)?;
-                        let write_stream = stream.try_clone().expect("can clone stream");
+                        let write_stream = TcpWriteHalf(stream.try_clone().expect("can clone stream"));
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Greater => {
@@ -120,7 +121,7 @@ impl TcpNetwork {
                         stream.set_nodelay(true)?;
                         let i = stream.read_u64::<BigEndian>()? as usize;
                         let other_id = stream.read_u64::<BigEndian>()? as usize;
-                        let write_stream = stream.try_clone().expect("can clone stream");
+                        let write_stream = TcpWriteHalf(stream.try_clone().expect("can clone stream"));
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Equal => continue,
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index ff341fe..a929df1 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -11,7 +11,7 @@ use crossbeam_channel::{SendError, Sender};
 use eyre::Context as _;
 use serde::Deserialize;
 
-use crate::blocking::BlockingChannels;
+use crate::blocking::{BlockingChannels, TcpWriteHalf};
 use crate::{ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network};
 use bytes::Bytes;
 
@@ -327,7 +327,7 @@ impl TcpNetwork {
         let mut channels = BlockingChannels::new(timeout, flush_timeout, max_frame_length);
 
         for (other_id, stream) in streams {
-            let write_stream = stream.try_clone().expect("can clone stream");
+            let write_stream = TcpWriteHalf(stream.try_clone().expect("can clone stream"));
             channels.add_peer(other_id, write_stream, stream);
         }
 
-- 
2.43.0


From 290b492266ffa9ccd28c1ed11c9a2d79b8b0477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 09/36] fix: report a connection that announces an unknown
 network or party

An out-of-range network index from a peer made set-up panic; an out-of-range party id was
registered as a peer.
---
 mpc-net/src/tcp.rs | 4 ++++
 mpc-net/src/tls.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mpc-net/src/tcp.rs b/mpc-net/src/tcp.rs
index 6f7d399..c4a5bc0 100644
--- a/mpc-net/src/tcp.rs
+++ b/mpc-net/src/tcp.rs
@@ -121,6 +121,10 @@ impl TcpNetwork {
                         stream.set_nodelay(true)?;
                         let i = stream.read_u64::<BigEndian>()? as usize;
                         let other_id = stream.read_u64::<BigEndian>()? as usize;
+                        eyre::ensure!(
+                            i < N && other_id < id,
+                            "unexpected connection from party {other_id} for network {i}"
+                        );
                         let write_stream = TcpWriteHalf(stream.try_clone().expect("can clone stream"));
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
diff --git a/mpc-net/src/tls.rs b/mpc-net/src/tls.rs
index e022373..6c73cdd 100644
--- a/mpc-net/src/tls.rs
+++ b/mpc-net/src/tls.rs
@@ -246,6 +246,10 @@ impl TlsNetwork {
                             let i = stream.read_u64::<BigEndian>()? as usize;
                             let other_id = stream.read_u64::<BigEndian>()? as usize;
                             let s_ = stream.read_u8()?;
+                            eyre::ensure!(
+                                i < N && other_id < id,
+                                "unexpected connection from party {other_id} for network {i}"
+                            );
 
                             // As the accepting party, the peer's STREAM_0 is our receive
                             // direction and its STREAM_1 is our send direction.
-- 
2.43.0


From 4865292a7188e2f9a0bbe002c56b516f4e968654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 10/36] fix: apply the connect time-out to the announcement of
 a connecting peer

A peer that connected and then stayed silent made set-up hang in spite of a connect time-out.
---
 mpc-net/src/tcp.rs | 10 +++++-----
 mpc-net/src/tls.rs | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/mpc-net/src/tcp.rs b/mpc-net/src/tcp.rs
index c4a5bc0..3d0ca0c 100644
--- a/mpc-net/src/tcp.rs
+++ b/mpc-net/src/tcp.rs
@@ -112,15 +112,15 @@ impl TcpNetwork {
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Greater => {
-                        let (stream, _) = listener.accept()?;
-                        // disable read_timeout again - we only need it for accept
-                        let socket = Socket::from(stream);
-                        socket.set_read_timeout(None)?;
-                        let mut stream = TcpStream::from(socket);
+                        let (mut stream, _) = listener.accept()?;
+                        // also bound the wait for the announcement of the peer
+                        stream.set_read_timeout(connect_timeout)?;
                         stream.set_write_timeout(timeout)?;
                         stream.set_nodelay(true)?;
                         let i = stream.read_u64::<BigEndian>()? as usize;
                         let other_id = stream.read_u64::<BigEndian>()? as usize;
+                        // disable read_timeout again - we only need it during set-up
+                        stream.set_read_timeout(None)?;
                         eyre::ensure!(
                             i < N && other_id < id,
                             "unexpected connection from party {other_id} for network {i}"
diff --git a/mpc-net/src/tls.rs b/mpc-net/src/tls.rs
index 6c73cdd..7eaf618 100644
--- a/mpc-net/src/tls.rs
+++ b/mpc-net/src/tls.rs
@@ -45,6 +45,15 @@ impl From<StreamOwned<ServerConnection, TcpStream>> for TlsStream {
     }
 }
 
+impl TlsStream {
+    fn sock(&self) -> &TcpStream {
+        match self {
+            TlsStream::Client(stream) => &stream.sock,
+            TlsStream::Server(stream) => &stream.sock,
+        }
+    }
+}
+
 impl Read for TlsStream {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         match self {
@@ -233,10 +242,8 @@ impl TlsNetwork {
                         }
                         Ordering::Greater => {
                             let (stream, _) = listener.accept()?;
-                            // disable read_timeout again - we only need it for accept
-                            let socket = Socket::from(stream);
-                            socket.set_read_timeout(None)?;
-                            let stream = TcpStream::from(socket);
+                            // also bound the wait for the handshake and announcement of the peer
+                            stream.set_read_timeout(connect_timeout)?;
                             stream.set_write_timeout(timeout)?;
                             stream.set_nodelay(true)?;
 
@@ -246,6 +253,8 @@ impl TlsNetwork {
                             let i = stream.read_u64::<BigEndian>()? as usize;
                             let other_id = stream.read_u64::<BigEndian>()? as usize;
                             let s_ = stream.read_u8()?;
+                            // disable read_timeout again - we only need it during set-up
+                            stream.sock().set_read_timeout(None)?;
                             eyre::ensure!(
                                 i < N && other_id < id,
                                 "unexpected connection from party {other_id} for network {i}"
-- 
2.43.0


From 59b2bd4e1822227fa046ef08d8ab002da7d8784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:51 +0000
Subject: [PATCH 11/36] fix: bound a TLS write that times out

---
 mpc-net/src/tls.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mpc-net/src/tls.rs b/mpc-net/src/tls.rs
index 7eaf618..010bdd3 100644
--- a/mpc-net/src/tls.rs
+++ b/mpc-net/src/tls.rs
@@ -83,11 +83,14 @@ impl Write for TlsStream {
             buf.extend_from_slice(b);
         }
         self.write_all(&buf)?;
-        // rustls accepts the plaintext even if an interrupted call kept it from writing all
-        // records to the socket. Write the remainder now, as no other write may follow. Any
-        // other error is reported by the next write or flush.
-        while matches!(self.flush(), Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted) {}
-        Ok(total)
+        // rustls accepts the plaintext even if an interrupted call or a time-out kept it from
+        // writing all records to the socket. Write the remainder now, as no other write may follow.
+        loop {
+            match self.flush() {
+                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                result => return result.map(|()| total),
+            }
+        }
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -184,6 +187,9 @@ impl TlsNetwork {
         const STREAM_0: u8 = 0;
         const STREAM_1: u8 = 1;
 
+        // When a write times out, rustls tries to read from the same socket. Nothing is ever sent
+        // there on the send direction, so this read gets the same time-out.
+        //
         // For each peer we open two TLS connections, one per direction. They are
         // established in separate iterations of the `s` loop, so buffer the
         // (write, read) halves per (net, peer) and register them together once both
@@ -235,6 +241,7 @@ impl TlsNetwork {
                             // and STREAM_1 is our receive direction.
                             let entry = pending[i].entry(other_id).or_insert((None, None));
                             if s == STREAM_0 {
+                                stream.sock().set_read_timeout(timeout)?;
                                 entry.0 = Some(stream);
                             } else {
                                 entry.1 = Some(stream);
@@ -266,6 +273,7 @@ impl TlsNetwork {
                             if s_ == STREAM_0 {
                                 entry.1 = Some(stream);
                             } else {
+                                stream.sock().set_read_timeout(timeout)?;
                                 entry.0 = Some(stream);
                             }
                         }
-- 
2.43.0


From f446a074a95c4769b90d739f075833ffc86bc9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 12/36] fix: mask the Shamir product that mul_open opens

---
 co-circom/co-plonk/src/lib.rs               |  2 +-
 co-circom/co-plonk/src/round2.rs            |  4 ++--
 mpc-core/src/protocols/shamir.rs            |  5 +++++
 mpc-core/src/protocols/shamir/arithmetic.rs | 14 +++++++++-----
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index 4b0da35..fabf5a9 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -252,7 +252,7 @@ where
     {
         let domain_size = zkey.domain_size;
         // TODO check and explain numbers
-        let num_pairs = domain_size * 222 + 15;
+        let num_pairs = domain_size * 227 + 17;
         let preprocessing = ShamirPreprocessing::new(num_parties, threshold, num_pairs, &nets[0])?;
         let mut state = ShamirState::from(preprocessing);
         // execute prover in MPC
diff --git a/co-circom/co-plonk/src/round2.rs b/co-circom/co-plonk/src/round2.rs
index b57a310..9555bf5 100644
--- a/co-circom/co-plonk/src/round2.rs
+++ b/co-circom/co-plonk/src/round2.rs
@@ -158,8 +158,8 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round2<'a, P
 
         let batched_mul_span = tracing::debug_span!("buffer z network round").entered();
         // TODO check and explain numbers
-        let mut state0 = state.fork(zkey.domain_size * 6 + 2)?;
-        let mut state1 = state.fork(zkey.domain_size * 7 + 2)?;
+        let mut state0 = state.fork(zkey.domain_size * 8 + 3)?;
+        let mut state1 = state.fork(zkey.domain_size * 10 + 3)?;
         let (num, den) = mpc_net::join(
             || T::array_prod_mul(false, &n1, &n2, &n3, &nets[0], &mut state0),
             || T::array_prod_mul(true, &d1, &d2, &d3, &nets[1], &mut state1),
diff --git a/mpc-core/src/protocols/shamir.rs b/mpc-core/src/protocols/shamir.rs
index 7f764a6..84e62ae 100644
--- a/mpc-core/src/protocols/shamir.rs
+++ b/mpc-core/src/protocols/shamir.rs
@@ -161,6 +161,11 @@ impl<F: PrimeField> ShamirState<F> {
         self.get_pair(net)
             .map(|(r, _)| ShamirPrimeFieldShare::new(r))
     }
+
+    /// Generates a share of a random degree-2t sharing of zero, consuming one correlated randomness pair.
+    pub(super) fn zero_2t<N: Network>(&mut self, net: &N) -> eyre::Result<F> {
+        self.get_pair(net).map(|(r_t, r_2t)| r_2t - r_t)
+    }
 }
 
 impl<F: PrimeField> MpcState for ShamirState<F> {
diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 82fe0a8..72a5fbe 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -247,18 +247,23 @@ fn clone_from_slice(
 */
 
 /// This function performs a multiplication directly followed by an opening. This is preferred over Open(Mul(\[x\], \[y\])), since Mul performs resharing of the result for degree reduction. Thus, mul_open(\[x\], \[y\]) requires less communication in fewer rounds compared to Open(Mul(\[x\], \[y\])).
+///
+/// The product is masked with a fresh degree-2t sharing of zero before it is opened, since its polynomial is not random. Each product consumes one correlated randomness pair.
 fn mul_open<F: PrimeField, N: Network>(
     a: ShamirShare<F>,
     b: ShamirShare<F>,
     net: &N,
     state: &mut ShamirState<F>,
 ) -> eyre::Result<F> {
-    let mul = a * b;
-    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul.a)?;
+    let mask = state.zero_2t(net)?;
+    let mul = a.a * b.a + mask;
+    let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
     Ok(super::reconstruct(&rcv, &state.open_lagrange_2t))
 }
 
 /// This function performs a multiplication directly followed, by an opening. This is preferred over Open(Mul(\[x\], \[y\])), since Mul performs resharing of the result for degree reduction. Thus, mul_open(\[x\], \[y\]) requires less communication in fewer rounds compared to Open(Mul(\[x\], \[y\])).
+///
+/// The product is masked with a fresh degree-2t sharing of zero before it is opened, since its polynomial is not random. Each product consumes one correlated randomness pair.
 pub fn mul_open_vec<F: PrimeField, N: Network>(
     a: &[ShamirShare<F>],
     b: &[ShamirShare<F>],
@@ -268,9 +273,8 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
     let mul = a
         .iter()
         .zip(b.iter())
-        .map(|(a, b)| a * b)
-        .collect::<Vec<_>>();
-    let mul = ShamirShare::convert_vec(mul);
+        .map(|(a, b)| Ok(a.a * b.a + state.zero_2t(net)?))
+        .collect::<eyre::Result<Vec<_>>>()?;
 
     let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
 
-- 
2.43.0


From 14903c0b3a16c84d1a7d5acd17e15df70053b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 13/36] fix: mask the Shamir half share that open_half_point
 opens

---
 co-circom/co-groth16/src/groth16.rs         | 7 ++++---
 mpc-core/src/protocols/shamir/pointshare.rs | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/co-circom/co-groth16/src/groth16.rs b/co-circom/co-groth16/src/groth16.rs
index dae99d3..c3fcf0e 100644
--- a/co-circom/co-groth16/src/groth16.rs
+++ b/co-circom/co-groth16/src/groth16.rs
@@ -445,11 +445,12 @@ where
         matrices: &ConstraintMatrices<P::ScalarField>,
         witness: ShamirSharedWitness<P::ScalarField>,
     ) -> eyre::Result<Proof<P>> {
-        // we need 3 number of corr rand pairs. 2 for two rand calls, 1 for scalar_mul
-        let num_pairs = 3;
+        // we need 6 number of corr rand pairs. 2 for two rand calls, 1 for scalar_mul, 3 for masking the opened half shares
+        let num_pairs = 6;
         let preprocessing = ShamirPreprocessing::new(num_parties, threshold, num_pairs, net0)?;
         let mut state0 = ShamirState::from(preprocessing);
-        let mut state1 = state0.fork(1)?;
+        // state1 performs the scalar_mul and one of the openings
+        let mut state1 = state0.fork(2)?;
         // execute prover in MPC
         Self::prove_inner::<N, R>(
             net0,
diff --git a/mpc-core/src/protocols/shamir/pointshare.rs b/mpc-core/src/protocols/shamir/pointshare.rs
index eba7872..05d7e03 100644
--- a/mpc-core/src/protocols/shamir/pointshare.rs
+++ b/mpc-core/src/protocols/shamir/pointshare.rs
@@ -104,6 +104,7 @@ pub fn open_half_point<C: CurveGroup, N: Network>(
     net: &N,
     state: &mut ShamirState<C::ScalarField>,
 ) -> eyre::Result<C> {
+    let a = a + C::generator() * state.zero_2t(net)?;
     let rcv = net.broadcast_next(state.num_parties, state.threshold * 2 + 1, a)?;
     let res = reconstruct_point(&rcv, &state.open_lagrange_2t);
     Ok(res)
-- 
2.43.0


From d0e051dd16a57d50c09d1a83411a4aeb1fc645ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 14/36] fix: report a Shamir fork that asks for more pairs than
 are left

---
 mpc-core/src/protocols/shamir.rs      |  2 +-
 mpc-core/src/protocols/shamir/rngs.rs | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/mpc-core/src/protocols/shamir.rs b/mpc-core/src/protocols/shamir.rs
index 84e62ae..79a53af 100644
--- a/mpc-core/src/protocols/shamir.rs
+++ b/mpc-core/src/protocols/shamir.rs
@@ -184,7 +184,7 @@ impl<F: PrimeField> MpcState for ShamirState<F> {
             open_lagrange_2t: self.open_lagrange_2t.clone(),
             mul_lagrange_2t: self.mul_lagrange_2t.clone(),
             mul_reconstruct_with_zeros: self.mul_reconstruct_with_zeros.clone(),
-            rng_buffer: self.rng_buffer.fork_with_pairs(n),
+            rng_buffer: self.rng_buffer.fork_with_pairs(n)?,
             generation_amount: self.generation_amount,
         })
     }
diff --git a/mpc-core/src/protocols/shamir/rngs.rs b/mpc-core/src/protocols/shamir/rngs.rs
index bcf1ea8..4105501 100644
--- a/mpc-core/src/protocols/shamir/rngs.rs
+++ b/mpc-core/src/protocols/shamir/rngs.rs
@@ -71,17 +71,20 @@ impl<F: PrimeField> ShamirRng<F> {
     }
 
     /// Create a forked [`ShamirRng`] that consumes `amount` number of corr rand pairs from its parent
-    pub(super) fn fork_with_pairs(&mut self, amount: usize) -> Self {
+    pub(super) fn fork_with_pairs(&mut self, amount: usize) -> eyre::Result<Self> {
+        // TODO pass in net and generate more?
+        if amount > self.r_t.len() {
+            eyre::bail!(
+                "not enough corr rand pairs: {amount} requested, {} present",
+                self.r_t.len()
+            );
+        }
         let rng = RngType::from_seed(self.rng.r#gen());
         let mut shared_rngs = Vec::with_capacity(self.shared_rngs.len());
         for rng in self.shared_rngs.iter_mut() {
             shared_rngs.push(RngType::from_seed(rng.r#gen()));
         }
-        // TODO return err? pass in net and generate more?
-        if amount > self.r_t.len() {
-            panic!("not enough corr rand pairs");
-        }
-        Self {
+        Ok(Self {
             id: self.id,
             rng,
             threshold: self.threshold,
@@ -92,7 +95,7 @@ impl<F: PrimeField> ShamirRng<F> {
             matrix: self.matrix.clone(),
             r_t: self.r_t.drain(..amount).collect(),
             r_2t: self.r_2t.drain(..amount).collect(),
-        }
+        })
     }
 
     fn get_shared_rngs<N: Network>(
-- 
2.43.0


From f18a3e81f5779f9c35fbc3d723ad5269567884a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 15/36] fix: report a Shamir protocol with a single party

---
 mpc-core/src/protocols/shamir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpc-core/src/protocols/shamir.rs b/mpc-core/src/protocols/shamir.rs
index 79a53af..dfae5c2 100644
--- a/mpc-core/src/protocols/shamir.rs
+++ b/mpc-core/src/protocols/shamir.rs
@@ -41,6 +41,9 @@ impl<F: PrimeField> ShamirPreprocessing<F> {
         if 2 * threshold + 1 > num_parties {
             eyre::bail!("Threshold too large for number of parties")
         }
+        if num_parties < 2 {
+            eyre::bail!("At least two parties are required")
+        }
 
         let seed: [u8; crate::SEED_SIZE] = RngType::from_entropy().r#gen();
         let mut rng_buffer = ShamirRng::new(seed, num_parties, threshold, net)?;
-- 
2.43.0


From 00932ff4b011499ef9276c8cb588c86c673eb083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 16/36] fix: evaluate an empty shared polynomial at zero

---
 mpc-core/src/protocols/shamir/poly.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/shamir/poly.rs b/mpc-core/src/protocols/shamir/poly.rs
index 741142d..7bdb591 100644
--- a/mpc-core/src/protocols/shamir/poly.rs
+++ b/mpc-core/src/protocols/shamir/poly.rs
@@ -38,7 +38,10 @@ fn horner_evaluate<F: PrimeField>(poly_coeffs: &[FieldShare<F>], point: F) -> Fi
 /// Evaluate the shared polynomial at a public point.
 pub fn eval_poly<F: PrimeField>(coeffs: &[FieldShare<F>], point: F) -> FieldShare<F> {
     if point.is_zero() {
-        return coeffs[0];
+        return coeffs
+            .first()
+            .copied()
+            .unwrap_or_else(FieldShare::zero_share);
     }
 
     // Horners method - parallel method
-- 
2.43.0


From f751e5edb64c0f2fbd7d616222b360d390ec063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 17/36] fix: check how many elements a Shamir party receives

---
 mpc-core/src/protocols/shamir/arithmetic.rs |  6 ++++++
 mpc-core/src/protocols/shamir/pointshare.rs | 13 +++++++++++++
 mpc-core/src/protocols/shamir/rngs.rs       |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 72a5fbe..9a1d10f 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -196,6 +196,9 @@ pub fn open_vec<F: PrimeField, N: Network>(
     let a_a = ShamirShare::convert_slice(a);
 
     let rcv = net.broadcast_next(state.num_parties, state.threshold + 1, a_a.to_owned())?;
+    if rcv.iter().any(|r| r.len() != a.len()) {
+        eyre::bail!("During execution of open_vec in MPC: Invalid number of elements received");
+    }
 
     let mut transposed = vec![vec![F::zero(); state.threshold + 1]; a.len()];
 
@@ -277,6 +280,9 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
         .collect::<eyre::Result<Vec<_>>>()?;
 
     let rcv = net.broadcast_next(state.num_parties, 2 * state.threshold + 1, mul)?;
+    if rcv.iter().any(|r| r.len() != a.len()) {
+        eyre::bail!("During execution of mul_open_vec in MPC: Invalid number of elements received");
+    }
 
     let mut transposed = vec![vec![F::zero(); 2 * state.threshold + 1]; a.len()];
 
diff --git a/mpc-core/src/protocols/shamir/pointshare.rs b/mpc-core/src/protocols/shamir/pointshare.rs
index 05d7e03..1d288fc 100644
--- a/mpc-core/src/protocols/shamir/pointshare.rs
+++ b/mpc-core/src/protocols/shamir/pointshare.rs
@@ -135,6 +135,11 @@ pub fn open_point_many<C: CurveGroup, N: Network>(
     let a_a = ShamirPointShare::convert_slice(a);
 
     let rcv = net.broadcast_next(state.num_parties, state.threshold + 1, a_a.to_owned())?;
+    if rcv.iter().any(|r| r.len() != a.len()) {
+        eyre::bail!(
+            "During execution of open_point_many in MPC: Invalid number of elements received"
+        );
+    }
 
     let mut transposed = vec![vec![C::zero(); state.threshold + 1]; a.len()];
 
@@ -181,6 +186,14 @@ pub fn open_point_and_field_many<C: CurveGroup, N: Network>(
         state.threshold + 1,
         (a_a.to_owned(), b_a.to_owned()),
     )?;
+    if rcv
+        .iter()
+        .any(|(points, fields)| points.len() != a.len() || fields.len() != b.len())
+    {
+        eyre::bail!(
+            "During execution of open_point_and_field_many in MPC: Invalid number of elements received"
+        );
+    }
 
     let mut transposed_points = vec![vec![C::zero(); state.threshold + 1]; a.len()];
     let mut transposed_fields = vec![vec![C::ScalarField::zero(); state.threshold + 1]; b.len()];
diff --git a/mpc-core/src/protocols/shamir/rngs.rs b/mpc-core/src/protocols/shamir/rngs.rs
index 4105501..a896592 100644
--- a/mpc-core/src/protocols/shamir/rngs.rs
+++ b/mpc-core/src/protocols/shamir/rngs.rs
@@ -326,6 +326,11 @@ impl<F: PrimeField> ShamirRng<F> {
         for i in 1..=receiving {
             let send_id = (self.id + self.num_parties - seeded - i) % self.num_parties;
             let shares = net.recv_many(send_id)?;
+            if shares.len() != output.len() {
+                eyre::bail!(
+                    "During execution of receive_share_of_randomness in MPC: Invalid number of elements received"
+                );
+            }
             for (r, s) in output.iter_mut().zip(shares.iter()) {
                 r[send_id] = *s;
             }
-- 
2.43.0


From fec7afec40cced02016ebe3d8772cd622dec6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 18/36] fix: bristol parser rejects EQW gates that copy wire 0
 or 1

---
 .../src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
index 8a9cf15..cc59648 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
@@ -146,7 +146,8 @@ fn xor_gate(input: &str) -> IResult<&str, BristolFashionGate> {
 
 fn gate(input: &str) -> IResult<&str, BristolFashionGate> {
     terminated(
-        alt((xor_gate, and_gate, inv_gate, eq_gate, eqw_gate)),
+        // EQW before EQ, which is a prefix of it
+        alt((xor_gate, and_gate, inv_gate, eqw_gate, eq_gate)),
         line_ending,
     )(input)
 }
-- 
2.43.0


From edb5884c601d1fc3db36690703791b08c994f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 19/36] fix: levelling a bristol circuit whose first level is
 non-linear

---
 mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
index 82c4bc6..9a8643a 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol.rs
@@ -219,8 +219,7 @@ impl BristolFashionCircuit {
         }
 
         let levels: Vec<_> = levels
-            .into_values()
-            .enumerate()
+            .into_iter()
             .flat_map(|(and_level, internal_levels)| {
                 internal_levels
                     .into_values()
-- 
2.43.0


From de9e3373e95759dc817f9bb8773e08259b986117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 20/36] fix: bristol parser crashes when the header claims more
 inputs or outputs than wires

---
 .../rep3/yao/bristol_fashion/bristol/parser.rs        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
index cc59648..273cfad 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/parser.rs
@@ -175,6 +175,15 @@ pub fn parse(input: &str) -> Result<UnverifiedBristolFashionCircuit, CircuitBuil
         .finish()
         .map_err(|e| CircuitBuilderError::ParseError(e.to_string()))?;
 
+    // the header must not claim more inputs or outputs than there are wires
+    let num_inputs: u64 = inputs.iter().map(|&x| u64::from(x)).sum();
+    let num_outputs: u64 = outputs.iter().map(|&x| u64::from(x)).sum();
+    if num_inputs > u64::from(num_wires) || num_outputs > u64::from(num_wires) {
+        return Err(CircuitBuilderError::ParseError(format!(
+            "{num_inputs} input and {num_outputs} output wires, but only {num_wires} wires"
+        )));
+    }
+
     let mut cur_idx = 0;
 
     // first wires are inputs
@@ -188,7 +197,7 @@ pub fn parse(input: &str) -> Result<UnverifiedBristolFashionCircuit, CircuitBuil
         .collect();
 
     // last wires are outputs
-    let mut cur_idx = (num_wires - outputs.iter().sum::<u32>()) as usize;
+    let mut cur_idx = num_wires as usize - num_outputs as usize;
     let output_wires = outputs
         .into_iter()
         .map(|wires_i| {
-- 
2.43.0


From b52d720692bf3a8d790341829d50d397c5c3d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 21/36] fix: bristol circuits with wire ids out of range pass
 verification and crash evaluation

---
 .../protocols/rep3/yao/bristol_fashion/bristol/builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
index 8bf0eca..039c7b8 100644
--- a/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
+++ b/mpc-core/src/protocols/rep3/yao/bristol_fashion/bristol/builder.rs
@@ -124,6 +124,14 @@ impl UnverifiedBristolFashionCircuit {
             )));
         }
 
+        // evaluation keeps the wire values in a vector with one entry per wire
+        if let Some(id) = wires.iter().find(|id| **id >= self.num_wires) {
+            return Err(CircuitBuilderError::InvalidCircuit(format!(
+                "wire id {id} is out of range, circuit has {} wires",
+                self.num_wires
+            )));
+        }
+
         let UnverifiedBristolFashionCircuit {
             num_wires: _,
             input_wires,
-- 
2.43.0


From 255aff5b38e4fcaa12cc53d0b86ce173c2dc959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 22/36] fix: Merkle trees with a single leaf and empty paths
 crash

---
 mpc-core/src/gadgets/merkle_tree/plain.rs  | 28 ++++++++++++++++++++--
 mpc-core/src/gadgets/merkle_tree/rep3.rs   |  8 +++++++
 mpc-core/src/gadgets/merkle_tree/shamir.rs |  8 +++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/mpc-core/src/gadgets/merkle_tree/plain.rs b/mpc-core/src/gadgets/merkle_tree/plain.rs
index b8d0d72..fb106d9 100644
--- a/mpc-core/src/gadgets/merkle_tree/plain.rs
+++ b/mpc-core/src/gadgets/merkle_tree/plain.rs
@@ -17,6 +17,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return input_[0];
+        }
 
         // Prepare for sponge mode
         let mut input = Vec::with_capacity(T * len / ARITY);
@@ -59,6 +63,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return (input_[0], Vec::new());
+        }
         let mut witness = Vec::with_capacity(log as usize);
 
         // Prepare for sponge mode
@@ -115,6 +123,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return input_[0];
+        }
 
         // Prepare padding
         let mut input = if T == ARITY {
@@ -164,6 +176,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return (input_[0], Vec::new());
+        }
         let mut witness = Vec::with_capacity(log as usize);
 
         // Prepare padding
@@ -228,7 +244,11 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         mut leaf: F,
         witness: Vec<MerkleWitnessElement<F>>,
     ) -> bool {
-        let arity = witness[0].other.len() + 1;
+        let Some(first) = witness.first() else {
+            // The tree consists of a single leaf
+            return root == leaf;
+        };
+        let arity = first.other.len() + 1;
         assert!(T > arity);
 
         for wit in witness {
@@ -262,7 +282,11 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         mut leaf: F,
         witness: Vec<MerkleWitnessElement<F>>,
     ) -> bool {
-        let arity = witness[0].other.len() + 1;
+        let Some(first) = witness.first() else {
+            // The tree consists of a single leaf
+            return root == leaf;
+        };
+        let arity = first.other.len() + 1;
         assert!(T >= arity);
 
         for wit in witness {
diff --git a/mpc-core/src/gadgets/merkle_tree/rep3.rs b/mpc-core/src/gadgets/merkle_tree/rep3.rs
index c6a13d1..6e073de 100644
--- a/mpc-core/src/gadgets/merkle_tree/rep3.rs
+++ b/mpc-core/src/gadgets/merkle_tree/rep3.rs
@@ -17,6 +17,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         let mut precomp = self.precompute_rep3(num_hashes, net, state)?;
@@ -66,6 +70,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         let mut precomp = self.precompute_rep3(num_hashes, net, state)?;
diff --git a/mpc-core/src/gadgets/merkle_tree/shamir.rs b/mpc-core/src/gadgets/merkle_tree/shamir.rs
index c5e0705..d0eb7fc 100644
--- a/mpc-core/src/gadgets/merkle_tree/shamir.rs
+++ b/mpc-core/src/gadgets/merkle_tree/shamir.rs
@@ -17,6 +17,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         state.buffer_triples(net, self.rand_required(num_hashes, true))?;
@@ -68,6 +72,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         state.buffer_triples(net, self.rand_required(num_hashes, true))?;
-- 
2.43.0


From 1ba019317d9e324b030f77a1bd3ce2d3f9bdf904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 23/36] fix: Groth16 verification ignores the number of public
 inputs

---
 co-circom/co-groth16/src/verifier.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/co-circom/co-groth16/src/verifier.rs b/co-circom/co-groth16/src/verifier.rs
index 40fd42e..71519ce 100644
--- a/co-circom/co-groth16/src/verifier.rs
+++ b/co-circom/co-groth16/src/verifier.rs
@@ -19,6 +19,14 @@ impl<P: Pairing> Groth16<P> {
         proof: &Proof<P>,
         public_inputs: &[P::ScalarField],
     ) -> Result<(), VerificationError> {
+        // arkworks ignores surplus public inputs and takes missing ones as zero
+        if public_inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(VerificationError::Malformed(eyre::eyre!(
+                "wrong number of public inputs: expected {}, got {}",
+                vk.gamma_abc_g1.len().saturating_sub(1),
+                public_inputs.len()
+            )));
+        }
         let vk = ark_groth16::prepare_verifying_key(vk);
         let proof_valid = ArkworksGroth16::<P>::verify_proof(&vk, proof, public_inputs)
             .map_err(eyre::Report::from)?;
-- 
2.43.0


From ee58556c7e426c6afe44a4019ef28e85ee7de214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 24/36] fix: Plonk prover panics for circuits without public
 inputs

---
 co-circom/co-plonk/src/round3.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/co-circom/co-plonk/src/round3.rs b/co-circom/co-plonk/src/round3.rs
index 20fa232..fe0b99a 100644
--- a/co-circom/co-plonk/src/round3.rs
+++ b/co-circom/co-plonk/src/round3.rs
@@ -9,6 +9,7 @@ use crate::{
 use ark_ec::CurveGroup;
 use ark_ec::pairing::Pairing;
 use ark_ff::Field;
+use ark_poly::EvaluationDomain;
 use circom_types::plonk::Zkey;
 use itertools::izip;
 use mpc_core::MpcState;
@@ -262,6 +263,18 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
         let mut cp = Vec::with_capacity(len);
         let id = state.id();
 
+        // The zkey holds the Lagrange polynomials of the public inputs only, so without public inputs
+        // we need to compute the evaluations of the first one ourselves.
+        let computed_l1;
+        let l1 = match zkey.lagrange.first() {
+            Some(lagrange) => &lagrange.evaluations,
+            None => {
+                let coeffs = vec![domains.domain.size_inv; zkey.domain_size];
+                computed_l1 = domains.extended_domain.fft(&coeffs);
+                &computed_l1
+            }
+        };
+
         let pow_root_of_unity = domains.root_of_unity_pow;
         let pow_plus2_root_of_unity = domains.root_of_unity_pow_2;
         // We do not want to have any network operation in here to reduce MPC rounds. To enforce this, we have a for_each loop here (Network operations require a result)
@@ -375,7 +388,7 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
             e1z_ = T::add_mul_public(e1z_, cp[i], qo);
 
             let mut pi = T::ArithmeticShare::default();
-            for (j, lagrange) in zkey.lagrange.iter().enumerate() {
+            for (j, lagrange) in zkey.lagrange.iter().take(zkey.n_public).enumerate() {
                 let tmp = T::mul_with_public(polys.buffer_a[j], lagrange.evaluations[i]);
                 pi = T::sub(pi, tmp);
             }
@@ -448,10 +461,10 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
             e3z = T::mul_with_public(e3z, challenges.alpha);
 
             let mut e4 = T::add_with_public(id, z, -P::ScalarField::one());
-            e4 = T::mul_with_public(e4, zkey.lagrange[0].evaluations[i]);
+            e4 = T::mul_with_public(e4, l1[i]);
             e4 = T::mul_with_public(e4, challenges.alpha2);
 
-            let mut e4z = T::mul_with_public(zp, zkey.lagrange[0].evaluations[i]);
+            let mut e4z = T::mul_with_public(zp, l1[i]);
             e4z = T::mul_with_public(e4z, challenges.alpha2);
 
             let mut t = T::add(e1[i], e2);
-- 
2.43.0


From 852b09a727fd7444de0fa85b72c311754aff4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 25/36] fix: Plonk prover panics on or ignores witnesses of the
 wrong length

---
 co-circom/co-plonk/src/round1.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/co-circom/co-plonk/src/round1.rs b/co-circom/co-plonk/src/round1.rs
index b89de18..eafc424 100644
--- a/co-circom/co-plonk/src/round1.rs
+++ b/co-circom/co-plonk/src/round1.rs
@@ -230,6 +230,23 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round1<'a, P
         zkey: &'a Zkey<P>,
         private_witness: SharedWitness<P::ScalarField, T::ArithmeticShare>,
     ) -> PlonkProofResult<Self> {
+        // The public inputs have a leading one, additions are computed by the prover.
+        let n_witness = zkey
+            .n_vars
+            .checked_sub(zkey.n_additions + zkey.n_public + 1)
+            .ok_or_else(|| eyre::eyre!("corrupted zkey: inconsistent number of variables"))?;
+        if private_witness.public_inputs.len() != zkey.n_public + 1
+            || private_witness.witness.len() != n_witness
+        {
+            return Err(eyre::eyre!(
+                "invalid witness length: got {} public inputs (with leading one) and {} private values, expected {} and {}",
+                private_witness.public_inputs.len(),
+                private_witness.witness.len(),
+                zkey.n_public + 1,
+                n_witness
+            )
+            .into());
+        }
         let plonk_witness = Self::calculate_additions(state.id(), private_witness, zkey)?;
         let challenges = Round1Challenges::random(&nets[0], state)?;
         let domains = Domains::new(zkey.domain_size)?;
-- 
2.43.0


From 6aae533096e0505e233d5a4be2e470d930c199ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 26/36] fix: reading several public lookup tables panics when
 one is shorter than the longest

---
 mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs b/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
index 9293422..c8f90db 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/lut_field.rs
@@ -185,7 +185,7 @@ where
             for f1 in e_.iter() {
                 let index = j ^ c;
                 j += 1;
-                if index >= n {
+                if index >= lut.len() {
                     // The pad with 0 case
                     continue;
                 }
-- 
2.43.0


From d77f68b1689c5893eb267787e4e63bc3ce77b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 27/36] fix: reading several public curve lookup tables sizes
 the one-hot vector by the number of tables

---
 mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
index 6dadaaf..ea71fe4 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
@@ -51,7 +51,7 @@ pub fn read_public_luts<C: CurveGroup, T: IntRing2k, N: Network>(
 where
     Standard: Distribution<T>,
 {
-    let n = luts.len();
+    let n = luts.iter().map(|l| l.len()).max().unwrap();
     let k = n.next_power_of_two().ilog2() as usize;
 
     assert!(k <= T::K);
-- 
2.43.0


From 11075e124fd235a166fdbb89618cfbd3bcde16f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 28/36] fix: reading a public lookup table of two entries
 panics

---
 mpc-core/src/protocols/rep3_ring/lut_field.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mpc-core/src/protocols/rep3_ring/lut_field.rs b/mpc-core/src/protocols/rep3_ring/lut_field.rs
index 136a9b8..8446997 100644
--- a/mpc-core/src/protocols/rep3_ring/lut_field.rs
+++ b/mpc-core/src/protocols/rep3_ring/lut_field.rs
@@ -84,9 +84,8 @@ impl<F: FieldUint> Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
-            Self::get_from_public_luts_internal::<Bit, _>(bits, luts, net0, net1, state0, state1)?
-        } else if k <= 8 {
+        // Public tables are read with an even number of index bits, so a single Bit is too small
+        let result = if k <= 8 {
             Self::get_from_public_luts_internal::<u8, _>(bits, luts, net0, net1, state0, state1)?
         } else if k <= 16 {
             Self::get_from_public_luts_internal::<u16, _>(bits, luts, net0, net1, state0, state1)?
@@ -333,9 +332,8 @@ impl<F: FieldUint> LookupTableProvider<F> for Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
-            Self::get_from_lut_internal::<Bit, _>(bits, lut, net0, net1, state0, state1)?
-        } else if k <= 8 {
+        // Public tables are read with an even number of index bits, so a single Bit is too small
+        let result = if k <= 8 {
             Self::get_from_lut_internal::<u8, _>(bits, lut, net0, net1, state0, state1)?
         } else if k <= 16 {
             Self::get_from_lut_internal::<u16, _>(bits, lut, net0, net1, state0, state1)?
-- 
2.43.0


From 1201544e71a1317b624bc4edb27e505d9fee969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 29/36] fix: draw the masks of local_mul_vec uniformly

---
 mpc-core/src/protocols/rep3/rngs.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/rngs.rs b/mpc-core/src/protocols/rep3/rngs.rs
index ada4628..f8d4fbb 100644
--- a/mpc-core/src/protocols/rep3/rngs.rs
+++ b/mpc-core/src/protocols/rep3/rngs.rs
@@ -8,9 +8,7 @@ use crate::uint::UintBackend;
 use ark_ec::CurveGroup;
 use ark_ff::PrimeField;
 use fancy_garbling::WireMod2;
-use rand::{
-    Rng, RngCore, SeedableRng, distributions::Standard, prelude::Distribution, seq::SliceRandom,
-};
+use rand::{Rng, SeedableRng, distributions::Standard, prelude::Distribution, seq::SliceRandom};
 use rayon::prelude::*;
 
 #[derive(Debug)]
@@ -135,23 +133,22 @@ impl Rep3Rand {
     // TODO do not collect the values
     /// Generate a vector of masking field elements
     pub fn masking_field_elements_vec<F: PrimeField>(&mut self, len: usize) -> Vec<F> {
-        let field_size = usize::try_from(F::MODULUS_BIT_SIZE)
-            .expect("u32 fits into usize")
-            .div_ceil(8);
-        let mut a = vec![0_u8; field_size * len];
-        let mut b = vec![0_u8; field_size * len];
-        rayon::join(
+        let (a, b) = rayon::join(
             || {
-                self.rng1.fill_bytes(&mut a);
+                (0..len)
+                    .map(|_| F::rand(&mut self.rng1))
+                    .collect::<Vec<_>>()
             },
             || {
-                self.rng2.fill_bytes(&mut b);
+                (0..len)
+                    .map(|_| F::rand(&mut self.rng2))
+                    .collect::<Vec<_>>()
             },
         );
-        a.par_chunks(field_size)
-            .zip_eq(b.par_chunks(field_size))
+        a.into_par_iter()
+            .zip_eq(b.into_par_iter())
             .with_min_len(512)
-            .map(|(a, b)| F::from_be_bytes_mod_order(a) - F::from_be_bytes_mod_order(b))
+            .map(|(a, b)| a - b)
             .collect()
     }
 
-- 
2.43.0


From d0c4309c668d6f3f52740abfda3f1a1985a08405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 30/36] fix: garbled division by one public operand panics
 (debug) for fields with an odd number of bits

---
 mpc-core/src/protocols/rep3/yao/circuits.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao/circuits.rs b/mpc-core/src/protocols/rep3/yao/circuits.rs
index e5e9744..91f514c 100644
--- a/mpc-core/src/protocols/rep3/yao/circuits.rs
+++ b/mpc-core/src/protocols/rep3/yao/circuits.rs
@@ -2124,7 +2124,6 @@ impl GarbledCircuits {
         let input_bitlen = F::MODULUS_BIT_SIZE as usize;
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
 
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
@@ -2163,7 +2162,6 @@ impl GarbledCircuits {
         let input_bitlen = F::MODULUS_BIT_SIZE as usize;
         debug_assert_eq!(wires_x1.size(), wires_x2.size());
         let length = wires_x1.size();
-        debug_assert_eq!(length % 2, 0);
 
         debug_assert_eq!(length % input_bitlen, 0);
         debug_assert_eq!(wires_c.size(), length);
-- 
2.43.0


From c497d386f69bdeb695474b5052e103e899edae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 31/36] fix: field_mod_power_2 panics for a shared value modulo
 1

---
 mpc-core/src/protocols/rep3/yao.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao.rs b/mpc-core/src/protocols/rep3/yao.rs
index 4b6ac49..1a6727e 100644
--- a/mpc-core/src/protocols/rep3/yao.rs
+++ b/mpc-core/src/protocols/rep3/yao.rs
@@ -750,6 +750,10 @@ pub fn field_mod_power_2<F: FieldUint, N: Network>(
     state: &mut Rep3State,
     mod_bit: usize,
 ) -> eyre::Result<Rep3PrimeFieldShare<F>> {
+    if mod_bit == 0 {
+        return Ok(Rep3PrimeFieldShare::zero_share());
+    }
+
     let decomposed = decompose_arithmetic(input, net, state, mod_bit, mod_bit)?;
     debug_assert_eq!(decomposed.len(), 1);
     let res = decomposed[0];
-- 
2.43.0


From e19fa317e6fc38b236e59774ca21e2389f8a8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 32/36] fix: comparisons of a public with a shared value are
 swapped in the witness extension

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index 3b3fc0a..e119d21 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -271,7 +271,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -292,7 +292,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -313,7 +313,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -334,7 +334,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
-- 
2.43.0


From 526380b08e6ebf9f6995038a647c5fcaf0c72b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 33/36] fix: bitwise or and xor of shared values fail if the
 result is not below the modulus

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 39 +++++++------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index e119d21..2662a92 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -477,20 +477,12 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
     fn bit_xor(&mut self, a: Self::VmType, b: Self::VmType) -> eyre::Result<Self::VmType> {
         match (a, b) {
             (Rep3VmType::Public(a), Rep3VmType::Public(b)) => Ok(self.plain.bit_xor(a, b)?.into()),
-            (Rep3VmType::Public(b), Rep3VmType::Arithmetic(a))
-            | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
-                let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
-                let binary = binary::xor_public(&a, &b.to_uint(), self.id);
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
-            }
-            (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
-                let (a, b) = mpc_net::join(
-                    || conversion::a2b_selector(a, self.net0, &mut self.state0),
-                    || conversion::a2b_selector(b, self.net1, &mut self.state1),
-                );
-                let binary = binary::xor(&a?, &b?);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
-                Ok(result.into())
+            (a, b) => {
+                // The binary result may be >= p, which cannot be converted back: a ^ b = a + b - 2 (a & b)
+                let and = self.bit_and(a.clone(), b.clone())?;
+                let or = self.add(a, b)?;
+                let or = self.sub(or, and.clone())?;
+                self.sub(or, and)
             }
         }
     }
@@ -498,20 +490,11 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
     fn bit_or(&mut self, a: Self::VmType, b: Self::VmType) -> eyre::Result<Self::VmType> {
         match (a, b) {
             (Rep3VmType::Public(a), Rep3VmType::Public(b)) => Ok(self.plain.bit_or(a, b)?.into()),
-            (Rep3VmType::Public(b), Rep3VmType::Arithmetic(a))
-            | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
-                let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
-                let binary = binary::or_public(&a, &b.to_uint(), self.id);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
-                Ok(result.into())
-            }
-            (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
-                let (a, b) = mpc_net::join(
-                    || conversion::a2b_selector(a, self.net0, &mut self.state0),
-                    || conversion::a2b_selector(b, self.net1, &mut self.state1),
-                );
-                let binary = binary::or(&a?, &b?, self.net0, &mut self.state0)?;
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
+            (a, b) => {
+                // The binary result may be >= p, which cannot be converted back: a | b = a + b - (a & b)
+                let and = self.bit_and(a.clone(), b.clone())?;
+                let sum = self.add(a, b)?;
+                self.sub(sum, and)
             }
         }
     }
-- 
2.43.0


From 302e923c1d525da159a2d531af1973e14650fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 34/36] fix: a public if without else whose condition is false
 corrupts enclosing shared ifs

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index a3f3367..ab5cc3e 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -571,6 +571,13 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                         if protocol.is_zero(cond, false)? {
                             //we need to jump
                             ip += jump;
+                            //without an else branch nobody else pops the element
+                            if matches!(
+                                current_body[ip - 1],
+                                op_codes::MpcOpCode::EndTruthyBranch(0)
+                            ) {
+                                self.if_stack.pop();
+                            }
                             continue;
                         }
                     }
-- 
2.43.0


From acad90c63b5e8c71efbaf705e29dcf3197dcf0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 35/36] fix: assertions in branches that are not taken fail
 under a shared condition

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index ab5cc3e..acbdd7b 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -552,7 +552,11 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                     }
                 }
                 op_codes::MpcOpCode::Assert(line) => {
-                    let assertion = self.pop_field();
+                    let mut assertion = self.pop_field();
+                    if self.if_stack.is_shared() {
+                        let cond = self.if_stack.get_shared_condition();
+                        assertion = protocol.cmux(cond, assertion, protocol.public_one())?;
+                    }
                     if protocol.is_zero(assertion, true)? {
                         bail!(
                             "Assertion failed during execution on line {line} in component {}",
-- 
2.43.0


From 4f5457b9136a43814a94a87731934f0f6ba496f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 36/36] fix: divisions and assertions after a shared early
 return fail although they are not reached

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 32 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index acbdd7b..ff011c7 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -553,8 +553,7 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                 }
                 op_codes::MpcOpCode::Assert(line) => {
                     let mut assertion = self.pop_field();
-                    if self.if_stack.is_shared() {
-                        let cond = self.if_stack.get_shared_condition();
+                    if let Some(cond) = self.active_condition(protocol, &current_shared_ret_vals)? {
                         assertion = protocol.cmux(cond, assertion, protocol.public_one())?;
                     }
                     if protocol.is_zero(assertion, true)? {
@@ -626,8 +625,7 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                 op_codes::MpcOpCode::Div => {
                     let mut rhs = self.pop_field();
                     let lhs = self.pop_field();
-                    if self.if_stack.is_shared() {
-                        let cond = self.if_stack.get_shared_condition();
+                    if let Some(cond) = self.active_condition(protocol, &current_shared_ret_vals)? {
                         rhs = protocol.cmux(cond, rhs, protocol.public_one())?;
                     }
                     self.push_field(protocol.div(lhs, rhs)?);
@@ -892,6 +890,32 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
         Ok(())
     }
 
+    /// Whether the current statement is executed at all: none of the enclosing shared ifs excludes it and
+    /// no function we are in has already returned. `None` if this does not depend on shared values.
+    fn active_condition(
+        &mut self,
+        protocol: &mut C,
+        current_shared_ret_vals: &[(C::VmType, Vec<C::VmType>)],
+    ) -> Result<Option<C::VmType>> {
+        let mut active = self
+            .if_stack
+            .is_shared()
+            .then(|| self.if_stack.get_shared_condition());
+        let outer = self.functions_ctx.peek_stack_frame();
+        for (returned, _) in outer
+            .iter()
+            .flat_map(|ctx| ctx.shared_return_vals.iter())
+            .chain(current_shared_ret_vals)
+        {
+            let not_returned = protocol.bool_not(returned.to_owned())?;
+            active = Some(match active {
+                Some(cond) => protocol.bool_and(cond, not_returned)?,
+                None => not_returned,
+            });
+        }
+        Ok(active)
+    }
+
     fn handle_shared_fun_return(
         &mut self,
         protocol: &mut C,
-- 
2.43.0

