From 169507c3c6b57db5a14f1c16f641502dd9d03004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 01/24] fix: use default options when the server ignores all
 extensions

---
 src/client/connection.rs | 22 ++++++++++++++++++++--
 src/client/receiver.rs   | 32 ++++++++++++--------------------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 4a6d713..7e906a1 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -11,10 +11,12 @@ use super::ClientConfig;
 use crate::buffer::resize_buffer;
 use crate::config::ConnectionOptions;
 use crate::config::DEFAULT_DATA_BLOCK_SIZE;
+use crate::config::EXTENSION_WINDOW_SIZE_MIN;
 use crate::encryption::EncryptionLevel;
 use crate::encryption::PublicKeyPair;
 use crate::error::BoxedResult;
 use crate::error::DefaultBoxedResult;
+use crate::error::ExtensionError;
 use crate::error::PacketError;
 use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
@@ -132,7 +134,7 @@ pub fn query_server<'a>(
                 return Ok(QueryResult {
                     received_length: None,
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: options_without_extensions(options)?,
                     endpoint,
                     remote_session_public_keys: None,
                 });
@@ -142,7 +144,7 @@ pub fn query_server<'a>(
                 return Ok(QueryResult {
                     received_length: Some(length),
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: options_without_extensions(options)?,
                     endpoint,
                     remote_session_public_keys: None,
                 });
@@ -169,6 +171,22 @@ pub fn query_server<'a>(
     }
 }
 
+/// options both sides use when server does not know any extensions
+fn options_without_extensions(options: ConnectionOptions) -> BoxedResult<ConnectionOptions> {
+    if matches!(
+        options.encryption_level,
+        EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full
+    ) {
+        return Err(ExtensionError::ClientRequiredEncryption(options.encryption_level).into());
+    }
+    Ok(ConnectionOptions {
+        block_size: DEFAULT_DATA_BLOCK_SIZE,
+        window_size: EXTENSION_WINDOW_SIZE_MIN,
+        encryption_level: EncryptionLevel::None,
+        ..options
+    })
+}
+
 pub fn send_error(
     socket: &impl Socket,
     endpoint: SocketAddr,
diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 07fa1d4..6c12671 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -127,33 +127,25 @@ where
     // server sent data packet so no encryption
     if let Some(packet_length) = received_length.take() {
         if let Ok(Packet::Data(p)) = Packet::from_bytes(&receive_buffer[..packet_length]) {
-            handle_file_size(&socket, endpoint, packet_length, config.max_file_size)?;
-            match write_block(&mut block_writer, p.block, p.data) {
-                Ok((written, index, block)) => {
-                    if let Some(w) = written {
-                        total += w;
-                    }
+            let data_length = p.data.len();
+            handle_file_size(&socket, endpoint, data_length, config.max_file_size)?;
+            let (written, index, block) = write_block(&mut block_writer, p.block, p.data)?;
+            if let Some(w) = written {
+                total += w;
+            }
 
-                    if options.window_size <= 1
-                        || last_block_ack + options.window_size as u64 == index
-                        || written.unwrap_or(0) < options.block_size_with_encryption() as usize
-                    {
-                        trace!("Ack send {}", block);
-                        let packet = Packet::Ack(AckPacket { block });
-                        socket.send_to(&mut packet.to_bytes(), endpoint)?;
-                        last_block_ack = index;
-                    }
-                }
-                Err(e) => return Err(e),
-            };
+            trace!("Ack send {}", block);
+            let packet = Packet::Ack(AckPacket { block });
+            socket.send_to(&mut packet.to_bytes(), endpoint)?;
+            last_block_ack = index;
 
-            if packet_length != options.block_size_with_encryption() as usize {
+            if data_length < options.block_size_with_encryption() as usize {
                 info!("Client finished receiving {local_file_path} {total} bytes");
                 histogram!("tftp.client.connection.duration", "connection_type" => "read")
                     .record(started.elapsed());
                 counter!("tftp.client.connection.transfer.size", "connection_type" => "read")
                     .increment(total as u64);
-                return Ok((packet_length, None));
+                return Ok((total, None));
             }
         }
     }
-- 
2.43.0


From 5b758359ed184a156db366034d940b704205f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 02/24] fix: ignore packets that cannot be the reply to a
 request

---
 src/client/connection.rs | 61 +++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7e906a1..53c5504 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -209,6 +209,8 @@ fn wait_for_initial_packet(
     mut retry_timeout: Duration,
 ) -> BoxedResult<(usize, SocketAddr)> {
     let timeout = instant();
+    let packet_type = packet.packet_type();
+    let buffer_size = buffer.len();
     loop {
         socket.send_to(&mut packet.clone().to_bytes(), endpoint)?;
         debug!(
@@ -217,27 +219,52 @@ fn wait_for_initial_packet(
             retry_timeout.as_secs_f32()
         );
 
-        match socket.recv_from(buffer, retry_timeout.into()) {
-            Ok((n, s)) => {
-                if s.ip() == endpoint.ip() {
-                    return Ok((n, s));
+        let sent = instant();
+        // wait for the reply, ignoring everything that can not be one
+        loop {
+            resize_buffer(buffer, buffer_size);
+            let wait_for = retry_timeout.saturating_sub(sent.elapsed());
+            match socket.recv_from(buffer, wait_for.into()) {
+                Ok((n, s)) => {
+                    if s.ip() == endpoint.ip() && is_initial_reply(packet_type, &buffer[..n]) {
+                        return Ok((n, s));
+                    }
+                    debug!("Ignoring packet from {s} {:x?}", &buffer[..n]);
                 }
-                continue;
-            }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > request_timeout {
-                    return Err(PacketError::Timeout(elapsed).into());
+                Err(ref e) if e.kind() == ErrorKind::WouldBlock => (),
+                Err(ref e) if e.kind() == ErrorKind::InvalidData => {
+                    debug!("Ignoring packet that can not be decrypted");
+                }
+                Err(e) => {
+                    return Err(e.into());
                 }
-                retry_timeout = min(
-                    request_timeout.saturating_sub(elapsed),
-                    retry_timeout.saturating_mul(2),
-                );
-                continue;
             }
-            Err(e) => {
-                return Err(e.into());
+            if sent.elapsed() >= retry_timeout {
+                break;
             }
         }
+
+        let elapsed = timeout.elapsed();
+        if elapsed > request_timeout {
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+        retry_timeout = min(
+            request_timeout.saturating_sub(elapsed),
+            retry_timeout.saturating_mul(2),
+        );
+    }
+}
+
+fn is_initial_reply(request: PacketType, data: &[u8]) -> bool {
+    match Packet::from_bytes(data) {
+        Ok(Packet::OptionalAck(_) | Packet::Error(_)) => true,
+        Ok(Packet::Ack(p)) => request == PacketType::Write && p.block == 0,
+        // without extensions default block size is used
+        Ok(Packet::Data(p)) => {
+            request == PacketType::Read
+                && p.block == 1
+                && p.data.len() <= DEFAULT_DATA_BLOCK_SIZE as usize
+        }
+        _ => false,
     }
 }
-- 
2.43.0


From 8d75ff875c0b707d32238fc4ff626af7b982226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 03/24] fix: map wrapped block numbers to the closest index

---
 src/block_mapper.rs                       | 6 ++++++
 src/readers/multiple_block_reader.rs      | 5 ++++-
 src/readers/multiple_block_seek_reader.rs | 2 +-
 src/readers/single_block_reader.rs        | 2 +-
 src/writers/single_block_writer.rs        | 2 +-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/block_mapper.rs b/src/block_mapper.rs
index 2a0d8d4..718b884 100644
--- a/src/block_mapper.rs
+++ b/src/block_mapper.rs
@@ -32,6 +32,12 @@ impl BlockMapper {
         index
     }
 
+    /// index of the block closest to the current one
+    pub fn nearest(block: u16, current: u64) -> u64 {
+        let difference = block.wrapping_sub(current as u16) as i16;
+        current.saturating_add_signed(difference as i64)
+    }
+
     // block index
     // 0 0
     // 1 1
diff --git a/src/readers/multiple_block_reader.rs b/src/readers/multiple_block_reader.rs
index c085dc1..41fb57c 100644
--- a/src/readers/multiple_block_reader.rs
+++ b/src/readers/multiple_block_reader.rs
@@ -17,6 +17,7 @@ pub struct MultipleBlockReader<R> {
     reader: R,
     block_mapper: BlockMapper,
     block_read: u64,
+    block_confirmed: u64,
     block_size: u16,
     blocks: Buffers,
     max_blocks_to_read: u16,
@@ -33,6 +34,7 @@ impl<R> MultipleBlockReader<R> {
             reader,
             block_mapper: BlockMapper::new(),
             block_read: 0,
+            block_confirmed: 0,
             block_size,
             blocks,
             max_blocks_to_read,
@@ -139,7 +141,7 @@ where
     }
 
     fn free_block(&mut self, block: u16) -> usize {
-        let index = self.block_mapper.index(block);
+        let index = BlockMapper::nearest(block, self.block_confirmed);
         // block order could be random
         let blocks_to_remove = self.blocks.iter_mut().filter(|b| {
             if let Some(bindex) = b.index {
@@ -158,6 +160,7 @@ where
 
         if let Some(index) = last_block_removed {
             self.block_read = index;
+            self.block_confirmed = index;
         }
         size
     }
diff --git a/src/readers/multiple_block_seek_reader.rs b/src/readers/multiple_block_seek_reader.rs
index e7a7e2e..f5549e6 100644
--- a/src/readers/multiple_block_seek_reader.rs
+++ b/src/readers/multiple_block_seek_reader.rs
@@ -139,7 +139,7 @@ where
     }
 
     fn free_block(&mut self, block: u16) -> usize {
-        let mut index = self.block_mapper.index(block);
+        let mut index = BlockMapper::nearest(block, self.block_read_confirmed);
         let mut size: usize = 0;
         if index > self.block_read_confirmed {
             if index > self.block_read {
diff --git a/src/readers/single_block_reader.rs b/src/readers/single_block_reader.rs
index 3886b44..3531a5b 100644
--- a/src/readers/single_block_reader.rs
+++ b/src/readers/single_block_reader.rs
@@ -91,7 +91,7 @@ where
     }
 
     fn free_block(&mut self, block: u16) -> usize {
-        if self.block_read != self.block_mapper.index(block) {
+        if self.block_mapper.block(self.block_read) != block {
             return 0;
         }
         self.last_block_size.take().unwrap_or(0) as usize
diff --git a/src/writers/single_block_writer.rs b/src/writers/single_block_writer.rs
index 8c71642..12f32fb 100644
--- a/src/writers/single_block_writer.rs
+++ b/src/writers/single_block_writer.rs
@@ -28,7 +28,7 @@ where
     W: Write,
 {
     fn write_block(&mut self, block: u16, data: &[u8]) -> Result<(usize, u64), StorageError> {
-        let provided_index = self.block_mapper.index(block);
+        let provided_index = BlockMapper::nearest(block, self.block_written);
         // writing blocks start at position 1
         let expected_index = self.block_written + 1;
 
-- 
2.43.0


From 402082deae206a9978c01904374100bb421e1d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 04/24] fix: repeat handshake packets until the other side
 confirms them

---
 src/client/receiver.rs           | 18 +++++++++++++++++-
 src/server/connection.rs         | 31 +++++++++++++++++++++++++++++++
 src/server/connection_builder.rs |  2 ++
 src/server/helpers/connection.rs | 12 +++++++-----
 src/server/helpers/read.rs       | 18 ++++++++++++++----
 src/server/helpers/write.rs      |  7 ++++++-
 src/server/multi_thread.rs       | 26 ++++++++++++++++----------
 src/server/single_thread.rs      |  7 +++++++
 8 files changed, 100 insertions(+), 21 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 6c12671..5c84234 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -156,9 +156,12 @@ where
         handle_file_size(&socket, endpoint, file_size as usize, config.max_file_size)?;
     }
 
+    let mut handshake_sent = None;
+    let mut handshake_retry = options.retry_packet_after_timeout;
     if acknowledge {
         let packet = Packet::Ack(AckPacket { block: 0 });
         socket.send_to(&mut packet.to_bytes(), endpoint)?;
+        handshake_sent = instant().into();
     }
 
     let mut timeout = instant();
@@ -171,7 +174,19 @@ where
     loop {
         resize_buffer(&mut receive_buffer, max_receive_buffer_size);
 
-        let received = match socket.recv_from(&mut receive_buffer, Duration::from_secs(1).into()) {
+        let mut wait_for = Duration::from_secs(1);
+        // server does not send anything until it knows that the options are accepted
+        if let Some(sent) = handshake_sent.as_mut() {
+            if sent.elapsed() > handshake_retry {
+                let packet = Packet::Ack(AckPacket { block: 0 });
+                socket.send_to(&mut packet.to_bytes(), endpoint)?;
+                *sent = instant();
+                handshake_retry = handshake_retry.saturating_mul(2);
+            }
+            wait_for = wait_for.min(handshake_retry);
+        }
+
+        let received = match socket.recv_from(&mut receive_buffer, wait_for.into()) {
             Ok((n, s)) => {
                 if s != endpoint {
                     continue;
@@ -205,6 +220,7 @@ where
         let result = match Packet::from_bytes(&receive_buffer) {
             Ok(Packet::Data(p)) => {
                 debug!("Received block {} data size {}", p.block, p.data.len());
+                handshake_sent = None;
                 write_block(&mut block_writer, p.block, p.data)
             }
             Ok(Packet::Error(p)) => {
diff --git a/src/server/connection.rs b/src/server/connection.rs
index ccce154..1157bd1 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -19,6 +19,7 @@ use crate::packet::PacketType;
 use crate::socket::BoundSocket;
 use crate::std_compat::io;
 use crate::std_compat::time::Instant;
+use crate::time::InstantCallback;
 use crate::types::DataBuffer;
 
 cfg_encryption! {
@@ -56,6 +57,8 @@ pub struct Connection<B, Rng> {
     pub finished: bool,
     pub invalid: Option<Instant>,
     pub writer: bool,
+    /// handshake packet, as it was sent, until the client confirms it
+    pub handshake: Option<DataBuffer>,
 }
 
 impl<B: BoundSocket, Rng: CryptoRng + RngCore + Copy> Connection<B, Rng> {
@@ -67,6 +70,34 @@ impl<B: BoundSocket, Rng: CryptoRng + RngCore + Copy> Connection<B, Rng> {
         self.socket.recv(buffer, wait_for)
     }
 
+    pub fn retry_timeout(&self) -> Duration {
+        self.options
+            .retry_packet_after_timeout
+            .mul_f32(self.retry_packet_multiplier.get() as f32)
+    }
+
+    /// client might have never received the handshake packet
+    pub fn retry_handshake(&mut self, instant: InstantCallback) {
+        let retry = self.last_sent.elapsed() > self.retry_timeout();
+        let Some(packet) = self.handshake.as_mut().filter(|_| retry) else {
+            return;
+        };
+        debug!("Retrying handshake packet to {}", self.endpoint);
+        if let Err(e) = self.socket.send(packet) {
+            error!("Failed to send handshake to {} {}", self.endpoint, e);
+        }
+        self.last_sent = instant();
+        self.retry_packet_multiplier = self.retry_packet_multiplier.saturating_add(2);
+    }
+
+    pub fn confirm_handshake(&mut self, instant: InstantCallback) {
+        if self.handshake.take().is_some() {
+            self.last_updated = instant();
+            self.last_sent = instant();
+            self.retry_packet_multiplier = NonZeroU8::MIN;
+        }
+    }
+
     pub fn decrypt_packet(&self, _buffer: &mut DataBuffer) -> bool {
         #[cfg(feature = "encryption")]
         if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =
diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index dcbcad6..112817e 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -208,6 +208,7 @@ where
                 last_acknowledged: 0,
                 retry_packet_multiplier: NonZeroU8::new(1).expect("Non zero multiplier"),
                 writer: true,
+                handshake: None,
             },
             block_writer(writer),
             self.used_extensions,
@@ -326,6 +327,7 @@ where
                 last_acknowledged: 0,
                 retry_packet_multiplier: NonZeroU8::new(1).expect("Non zero multiplier"),
                 writer: false,
+                handshake: None,
             },
             r,
             self.used_extensions,
diff --git a/src/server/helpers/connection.rs b/src/server/helpers/connection.rs
index 47ce391..912af62 100644
--- a/src/server/helpers/connection.rs
+++ b/src/server/helpers/connection.rs
@@ -89,6 +89,7 @@ pub fn accept_connection<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
             } else if !connection.send_packet(Packet::Ack(AckPacket { block: 0 }), buffer) {
                 return None;
             }
+            connection.handshake = buffer.clone().into();
             // new encryption starts only here
             #[cfg(feature = "encryption")]
             if let Some(keys) = _session_keys {
@@ -104,15 +105,16 @@ pub fn accept_connection<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
             Some(())
         }
         ConnectionType::Read => {
-            if !used_extensions.is_empty()
-                && !connection.send_packet(
+            if !used_extensions.is_empty() {
+                if !connection.send_packet(
                     Packet::OptionalAck(OptionalAck {
                         extensions: used_extensions,
                     }),
                     buffer,
-                )
-            {
-                return None;
+                ) {
+                    return None;
+                }
+                connection.handshake = buffer.clone().into();
             }
 
             // new encryption starts only here
diff --git a/src/server/helpers/read.rs b/src/server/helpers/read.rs
index b4d27d9..5c83d21 100644
--- a/src/server/helpers/read.rs
+++ b/src/server/helpers/read.rs
@@ -28,10 +28,13 @@ pub fn send_data_block<R: BlockReader, B: BoundSocket, Rng: CryptoRng + RngCore
     buffer: &mut DataBuffer,
     instant: InstantCallback,
 ) -> bool {
-    let timeout = connection
-        .options
-        .retry_packet_after_timeout
-        .mul_f32(connection.retry_packet_multiplier.get() as f32);
+    // client starts with the acknowledgement of the options
+    if connection.handshake.is_some() {
+        connection.retry_handshake(instant);
+        return false;
+    }
+
+    let timeout = connection.retry_timeout();
     let retry = connection.last_sent.elapsed() > timeout;
     if retry {
         debug!(
@@ -107,6 +110,13 @@ pub fn handle_read<R: BlockReader, B: BoundSocket, Rng: CryptoRng + RngCore + Co
         Ok(Packet::Ack(p)) => {
             debug!("Ack received {} {}", p.block, connection.endpoint);
 
+            if connection.handshake.is_some() {
+                if p.block == 0 {
+                    connection.confirm_handshake(instant);
+                }
+                return None;
+            }
+
             let bytes_freed = block_reader.free_block(p.block);
             if bytes_freed > 0 {
                 connection.last_updated = instant();
diff --git a/src/server/helpers/write.rs b/src/server/helpers/write.rs
index 87ef7b0..3f037ab 100644
--- a/src/server/helpers/write.rs
+++ b/src/server/helpers/write.rs
@@ -58,9 +58,14 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
                 p.block, data_length, connection.transfer, connection.endpoint
             );
 
+            connection.confirm_handshake(instant);
+
             write_block(block_writer, p.block, p.data)
         }
-        Ok(Packet::Ack(_)) => {
+        Ok(Packet::Ack(p)) => {
+            if p.block == 0 {
+                connection.confirm_handshake(instant);
+            }
             return None;
         }
         Ok(Packet::Error(p)) => {
diff --git a/src/server/multi_thread.rs b/src/server/multi_thread.rs
index e68cd4a..78c1870 100644
--- a/src/server/multi_thread.rs
+++ b/src/server/multi_thread.rs
@@ -302,18 +302,24 @@ fn spawn_writer<
                 return;
             }
 
+            connection.retry_handshake(instant);
+
             resize_buffer(&mut receive_buffer, receive_max_buffer_size);
 
-            let received_length =
-                match connection.recv(&mut receive_buffer, Duration::from_secs(1).into()) {
-                    Ok(connection_received) => connection_received,
-                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                        continue;
-                    }
-                    Err(_) => {
-                        return;
-                    }
-                };
+            let max_wait = Duration::from_secs(1);
+            let wait_for = match connection.handshake {
+                Some(_) => connection.retry_timeout().min(max_wait),
+                None => max_wait,
+            };
+            let received_length = match connection.recv(&mut receive_buffer, wait_for.into()) {
+                Ok(connection_received) => connection_received,
+                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
+                    continue;
+                }
+                Err(_) => {
+                    return;
+                }
+            };
             receive_buffer.truncate(received_length);
             handle_write(
                 &mut connection,
diff --git a/src/server/single_thread.rs b/src/server/single_thread.rs
index 35815b1..a7c4399 100644
--- a/src/server/single_thread.rs
+++ b/src/server/single_thread.rs
@@ -153,6 +153,13 @@ where
             timeout_duration = instant();
         }
 
+        clients
+            .iter_mut()
+            .filter(|(_, (c, ct))| {
+                matches!(ct, ClientType::Writer(_)) && c.invalid.is_none() && !c.finished
+            })
+            .for_each(|(_, (c, _))| c.retry_handshake(instant));
+
         let sent_in = instant();
 
         let (sent, recv_next_client_to_send) =
-- 
2.43.0


From ab68c2477a0c5d599f5d3cee57f439a635a9a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 05/24] fix: repeat the last acknowledgement of a written file

---
 src/server/helpers/connection.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/server/helpers/connection.rs b/src/server/helpers/connection.rs
index 912af62..bbeb7f7 100644
--- a/src/server/helpers/connection.rs
+++ b/src/server/helpers/connection.rs
@@ -24,6 +24,8 @@ use crate::socket::BoundSocket;
 use crate::string::format_str;
 use crate::types::DataBuffer;
 
+const MIN_ANSWER_REPEATS_DURATION: Duration = Duration::from_secs(1);
+
 #[allow(dead_code)]
 pub struct SessionKeys {
     pub server_keys: InitialKeys,
@@ -139,9 +141,21 @@ pub fn timeout_client<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
     request_timeout: Duration,
     buffer: &mut DataBuffer,
 ) -> bool {
-    if connection.invalid.is_some() || connection.finished {
+    if connection.invalid.is_some() {
         return true;
     }
+    if connection.finished {
+        // the last acknowledgement of a written file might be lost
+        let answer_repeats = connection
+            .options
+            .retry_packet_after_timeout
+            .saturating_mul(3)
+            .clamp(
+                MIN_ANSWER_REPEATS_DURATION,
+                request_timeout.max(MIN_ANSWER_REPEATS_DURATION),
+            );
+        return !connection.writer || connection.last_updated.elapsed() > answer_repeats;
+    }
     if connection.last_updated.elapsed() <= request_timeout {
         return false;
     }
-- 
2.43.0


From 8b752c2d13721fefac64b483a0cd0b9260e44b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 06/24] fix: reject encrypted data packets that are too short

---
 src/encryption.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index f3e7b5d..00e9e2b 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -303,7 +303,9 @@ impl<R: CryptoRng + RngCore + Clone> Encryptor<R> {
             .ok_or(EncryptionError::Decrypt)?
             .into();
         buffer.truncate(buffer.len() - nonce.len() - tag.len());
-        let (_, data) = buffer.split_at_mut(from_position);
+        let data = buffer
+            .get_mut(from_position..)
+            .ok_or(EncryptionError::Decrypt)?;
         self.cipher
             .decrypt_in_place_detached(&nonce, &[], data, &tag)
             .map_err(|_| EncryptionError::Decrypt)
-- 
2.43.0


From 5cd87c9cf9a4d40aba1f1c0b192d3bfba4cf5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 07/24] fix: do not split a file name in the middle of a
 character

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ffb379..02f073e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,8 +54,11 @@ mod string {
 
     pub fn ensure_size(s: &str, max_size: usize) -> &str {
         if s.len() > max_size {
-            let (f, _) = s.split_at(max_size);
-            return f;
+            let end = (0..=max_size)
+                .rev()
+                .find(|i| s.is_char_boundary(*i))
+                .unwrap_or(0);
+            return &s[..end];
         }
         s
     }
-- 
2.43.0


From 64897bdf3db4c268f0ed8e6e4cb233f8c46a4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 08/24] fix: send a complete error packet when the server
 offers wrong options

---
 src/client/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 53c5504..9245441 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -102,7 +102,7 @@ pub fn query_server<'a>(
             (_, Ok(Packet::OptionalAck(p))) => {
                 if let Err(e) = validate_extensions(&p.extensions, &used_extensions) {
                     let message = e.message.clone();
-                    socket.send_to(&mut e.to_bytes(), endpoint)?;
+                    socket.send_to(&mut Packet::Error(e).to_bytes(), endpoint)?;
                     return Err(PacketError::RemoteError(message).into());
                 }
                 let (conn, remote_session_public_keys) = parse_extensions(p.extensions, options)?;
-- 
2.43.0


From 17dc21ca986dd2567bcb7b65d9cd636177229e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 09/24] fix: ignore packets that cannot be decrypted and always
 check the timeout

---
 src/client/receiver.rs | 30 +++++++++++++++---------------
 src/client/sender.rs   | 35 +++++++++++++++++------------------
 2 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 5c84234..474e883 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -187,26 +187,26 @@ where
         }
 
         let received = match socket.recv_from(&mut receive_buffer, wait_for.into()) {
-            Ok((n, s)) => {
-                if s != endpoint {
-                    continue;
-                }
-                n
-            }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Received timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
-                continue;
+            Ok((n, s)) if s == endpoint => Some(n),
+            // ignore packets from others and packets that can not be decrypted
+            Ok(_) => None,
+            Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData) => {
+                None
             }
             Err(e) => {
                 return Err(e.into());
             }
         };
+        let Some(received) = received else {
+            let elapsed = timeout.elapsed();
+            if elapsed > config.request_timeout {
+                if let Ok(s) = socket.local_addr() {
+                    debug!("Received timeout for {}", s);
+                }
+                return Err(PacketError::Timeout(elapsed).into());
+            }
+            continue;
+        };
         receive_buffer.truncate(received);
 
         if !matches!(
diff --git a/src/client/sender.rs b/src/client/sender.rs
index 02a7b80..871c1cc 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -261,30 +261,29 @@ where
         );
 
         let length = match socket.recv_from(&mut receive_buffer, wait_for) {
-            Ok((n, s)) => {
-                if s != endpoint {
-                    continue;
-                }
-                no_work = Wrapping(1);
-                last_received = instant();
-                n
-            }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Send timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
+            Ok((n, s)) if s == endpoint => Some(n),
+            // ignore packets from others and packets that can not be decrypted
+            Ok(_) => None,
+            Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData) => {
                 no_work += 1;
-
-                continue;
+                None
             }
             Err(e) => {
                 return Err(e.into());
             }
         };
+        let Some(length) = length else {
+            let elapsed = timeout.elapsed();
+            if elapsed > config.request_timeout {
+                if let Ok(s) = socket.local_addr() {
+                    debug!("Send timeout for {}", s);
+                }
+                return Err(PacketError::Timeout(elapsed).into());
+            }
+            continue;
+        };
+        no_work = Wrapping(1);
+        last_received = instant();
         receive_buffer.truncate(length);
         let data = &receive_buffer[..length];
 
-- 
2.43.0


From edee801ddf12fec4efb922a4500b8ddd50d816d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 10/24] fix: read and write whole file blocks

---
 std-binary/src/io.rs         | 69 +++++++++++++++++++++++++++++++++---
 std-binary/src/std_compat.rs |  4 +--
 2 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index 27b96d7..441fcfd 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -15,6 +15,9 @@ use tftp_dus::error::BoxedResult;
 use tftp_dus::error::FileError;
 use tftp_dus::server::ServerConfig;
 use tftp_dus::std_compat::io;
+use tftp_dus::std_compat::io::Read;
+use tftp_dus::std_compat::io::Seek;
+use tftp_dus::std_compat::io::Write;
 use tftp_dus::std_compat::time::Instant;
 use tftp_dus::types::FilePath;
 
@@ -30,7 +33,62 @@ cfg_no_std! {
     use std::time::SystemTime;
 }
 
-pub fn create_writer(path: &FilePath) -> BoxedResult<File> {
+/// A file which reads and writes the whole buffer as file blocks are expected to be complete
+/// except for the last one
+pub struct WholeFile(File);
+
+impl From<StdFile> for WholeFile {
+    fn from(file: StdFile) -> Self {
+        #[allow(clippy::useless_conversion)]
+        Self(file.into())
+    }
+}
+
+impl io::Read for WholeFile {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let mut size = 0;
+        while size < buf.len() {
+            match self.0.read(&mut buf[size..]) {
+                Ok(0) => break,
+                Ok(n) => size += n,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(size)
+    }
+}
+
+impl io::Write for WholeFile {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        let mut size = 0;
+        while size < buf.len() {
+            match self.0.write(&buf[size..]) {
+                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
+                Ok(n) => size += n,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(size)
+    }
+
+    fn write_fmt(&mut self, fmt: core::fmt::Arguments<'_>) -> io::Result<()> {
+        self.0.write_fmt(fmt)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl io::Seek for WholeFile {
+    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
+pub fn create_writer(path: &FilePath) -> BoxedResult<WholeFile> {
     let file = match StdFile::create(path.as_str()).map_err(from_io_err) {
         Ok(f) => f,
         Err(e) => {
@@ -41,7 +99,7 @@ pub fn create_writer(path: &FilePath) -> BoxedResult<File> {
     Ok(file.into())
 }
 
-pub fn create_reader(path: &FilePath) -> BoxedResult<(Option<u64>, File)> {
+pub fn create_reader(path: &FilePath) -> BoxedResult<(Option<u64>, WholeFile)> {
     let file = match StdFile::open(path.as_str()).map_err(from_io_err) {
         Ok(f) => f,
         Err(e) => {
@@ -88,7 +146,10 @@ pub fn create_server_reader(
     Err(FileError::InvalidFileName.into())
 }
 
-pub fn create_server_writer(requested_path: &FilePath, config: &ServerConfig) -> BoxedResult<File> {
+pub fn create_server_writer(
+    requested_path: &FilePath,
+    config: &ServerConfig,
+) -> BoxedResult<WholeFile> {
     validate_path(requested_path, config.max_directory_depth as usize)?;
     // TODO alloc in stack PathBuf
     let dir: PathBuf = config.directory.as_str().parse()?;
@@ -181,7 +242,7 @@ pub fn instant_callback() -> Instant {
 struct ReaderCreator {}
 
 impl ReaderCreator {
-    fn from_file(file: File) -> BoxedReader {
+    fn from_file(file: WholeFile) -> BoxedReader {
         #[cfg(feature = "std")]
         return Box::new(file);
         #[cfg(not(feature = "std"))]
diff --git a/std-binary/src/std_compat.rs b/std-binary/src/std_compat.rs
index a96d99c..b55b891 100644
--- a/std-binary/src/std_compat.rs
+++ b/std-binary/src/std_compat.rs
@@ -59,7 +59,7 @@ pub mod io {
     use tftp_dus::std_compat::io;
     use tftp_dus::types::DefaultString;
 
-    use crate::std_compat::fs::File;
+    use crate::io::WholeFile;
 
     pub struct BytesCursor(StdCursor<StdVec<u8>>);
 
@@ -107,7 +107,7 @@ pub mod io {
     }
 
     pub enum BoxedReader {
-        File(File),
+        File(WholeFile),
         List(BytesCursor),
     }
 
-- 
2.43.0


From 58594a2da3184a7fc2156acfe5235381574f66b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 11/24] fix: do not lose data appended right before a
 synchronised file is closed

---
 std-binary/src/blocking_reader.rs | 55 ++++++++++++++-----------------
 std-binary/src/sync.rs            |  2 +-
 2 files changed, 25 insertions(+), 32 deletions(-)

diff --git a/std-binary/src/blocking_reader.rs b/std-binary/src/blocking_reader.rs
index 28c77da..0a1bf4f 100644
--- a/std-binary/src/blocking_reader.rs
+++ b/std-binary/src/blocking_reader.rs
@@ -1,3 +1,4 @@
+use std::cmp::min;
 use std::fs::File;
 use std::io::prelude::Read;
 use std::io::Error;
@@ -43,43 +44,35 @@ impl<R: Read> Read for BlockingReader<R> {
     // reader will error with WouldBlock if there is no data to read
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
         let expected_size = buffer.len();
-        let result = if !self.temp_buf.is_empty() {
-            let temp_len = self.temp_buf.len();
-            for (to_buf, data) in buffer.iter_mut().zip(self.temp_buf.iter()) {
-                *to_buf = *data
-            }
-            self.temp_buf.clear();
-
-            self.file
-                .read(buffer.get_mut(temp_len..).ok_or(ErrorKind::InvalidData)?)
-                .map(|s| temp_len + s)
-        } else {
-            self.file.read(buffer)
-        };
-        match result {
-            Ok(0) => {
-                if self.finished.load(Ordering::Relaxed) {
-                    return Ok(0);
-                }
+        // data could be written until the file is finished therefore check it before reading
+        let finished = self.finished.load(Ordering::SeqCst);
 
-                trace!("Not enough data: read 0 expected {expected_size}");
+        let mut size = min(self.temp_buf.len(), expected_size);
+        for (to_buf, data) in buffer.iter_mut().zip(self.temp_buf.drain(..size)) {
+            *to_buf = data
+        }
 
-                Err(Error::from(ErrorKind::WouldBlock))
-            }
-            Ok(n) if expected_size == n => Ok(n),
-            Ok(n) => {
-                if self.finished.load(Ordering::Relaxed) {
-                    return Ok(n);
+        while size < expected_size {
+            match self.file.read(&mut buffer[size..]) {
+                Ok(0) => break,
+                Ok(n) => size += n,
+                Err(e) if e.kind() == ErrorKind::Interrupted => (),
+                Err(e) => {
+                    self.temp_buf = buffer[..size].to_vec();
+                    return Err(e);
                 }
+            }
+        }
+
+        if size == expected_size || finished {
+            return Ok(size);
+        }
 
-                self.temp_buf = buffer[..n].to_vec();
+        self.temp_buf = buffer[..size].to_vec();
 
-                trace!("Not enough data: read {n} expected {expected_size}");
+        trace!("Not enough data: read {size} expected {expected_size}");
 
-                Err(Error::from(ErrorKind::WouldBlock))
-            }
-            Err(e) => Err(e),
-        }
+        Err(Error::from(ErrorKind::WouldBlock))
     }
 }
 
diff --git a/std-binary/src/sync.rs b/std-binary/src/sync.rs
index d067fd2..4b835bd 100644
--- a/std-binary/src/sync.rs
+++ b/std-binary/src/sync.rs
@@ -93,7 +93,7 @@ pub fn start_sync(
                 debug!("File {local_path} was closed");
 
                 if let Some(f) = paths_pending.remove(&local_path) {
-                    f.store(true, Ordering::Relaxed);
+                    f.store(true, Ordering::SeqCst);
                 } else {
                     warn!("Unknown file {local_path} ignoring");
                 }
-- 
2.43.0


From d51415eb5edc5437b5ece208937896eec65fcb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 12/24] fix: do not create files or directories outside of the
 server directory

---
 std-binary/src/io.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index 441fcfd..0d1c07f 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -158,6 +158,11 @@ pub fn create_server_writer(
     if !path.starts_with(&dir) {
         return Err(FileError::InvalidFileName.into());
     }
+    if !dir.is_dir() {
+        create_dir_all(&dir).map_err(from_io_err)?
+    }
+    // nothing should be created while the path is not known to be within the directory
+    validate_writable_path(&dir, &path)?;
     if let Some(dir) = path.parent() {
         if !dir.is_dir() {
             create_dir_all(dir).map_err(from_io_err)?
@@ -294,6 +299,25 @@ fn validate_path(requested_path: &FilePath, max_depth: usize) -> Result<(), File
     Err(FileError::InvalidFileName)
 }
 
+// links are followed for the existing part of the path and the rest of it can not go up
+fn validate_writable_path(dir: &Path, path: &Path) -> Result<(), FileError> {
+    let real_dir = canonicalize(dir).map_err(|_| FileError::InvalidFileName)?;
+    let parent = path.parent().ok_or(FileError::InvalidFileName)?;
+    let (existing, real_existing) = parent
+        .ancestors()
+        .find_map(|p| canonicalize(p).ok().map(|r| (p, r)))
+        .ok_or(FileError::InvalidFileName)?;
+    let is_down = parent
+        .strip_prefix(existing)
+        .is_ok_and(|p| p.components().all(|c| matches!(c, Component::Normal(_))));
+    // opening a link without an existing target would create the target
+    let is_dangling = path.is_symlink() && !path.exists();
+    if real_existing.starts_with(real_dir) && is_down && !is_dangling {
+        return Ok(());
+    }
+    Err(FileError::InvalidFileName)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b3366ed504e13719dac730d4c1323e1abf20ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 13/24] fix: reply to invalid requests in the same way as to
 other failed requests

---
 src/server/connection_builder.rs | 30 ++++++++++++++----------------
 src/server/validation.rs         | 31 +++++++------------------------
 2 files changed, 21 insertions(+), 40 deletions(-)

diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index 112817e..5602104 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -149,14 +149,13 @@ where
         CreateWriter: Fn(&FilePath, &ServerConfig) -> BoxedResult<W>,
     {
         let file_name = self.file_name.clone().ok_or(FileError::InvalidFileName)?;
-        let file_path = validate_request_options(
-            socket,
-            client,
-            &file_name,
-            &self.options,
-            &self.used_extensions,
-            self.config,
-        )?;
+        let file_path = match validate_request_options(&file_name, &self.options, self.config) {
+            Ok(p) => p,
+            Err((error_packet, e)) => {
+                self.reply_with_error(socket, client, error_packet);
+                return Err(e);
+            }
+        };
 
         let writer = match create_writer(&file_path, self.config) {
             Ok(w) => w,
@@ -239,14 +238,13 @@ where
         CreateReader: Fn(&FilePath, &ServerConfig) -> BoxedResult<(Option<u64>, R)>,
     {
         let file_name = self.file_name.clone().ok_or(FileError::InvalidFileName)?;
-        let file_path = validate_request_options(
-            socket,
-            client,
-            &file_name,
-            &self.options,
-            &self.used_extensions,
-            self.config,
-        )?;
+        let file_path = match validate_request_options(&file_name, &self.options, self.config) {
+            Ok(p) => p,
+            Err((error_packet, e)) => {
+                self.reply_with_error(socket, client, error_packet);
+                return Err(e);
+            }
+        };
         let (transfer_size, reader) = match create_reader(&file_path, self.config) {
             Ok(f) => f,
             Err(e) => {
diff --git a/src/server/validation.rs b/src/server/validation.rs
index c79e925..33350da 100644
--- a/src/server/validation.rs
+++ b/src/server/validation.rs
@@ -1,45 +1,28 @@
-use core::net::SocketAddr;
-
 use log::error;
 
 use super::config::ServerConfig;
 use crate::config::ConnectionOptions;
-use crate::error::BoxedResult;
+use crate::error::BoxedError;
 use crate::error::ExtensionError;
 use crate::error::FileError;
-use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
 use crate::packet::ErrorPacket;
 use crate::packet::Extension;
-use crate::packet::Packet;
-use crate::packet::PacketExtensions;
-use crate::socket::Socket;
 use crate::string::ensure_size;
 use crate::string::format_str;
 use crate::types::FilePath;
 
 pub fn validate_request_options(
-    socket: &impl Socket,
-    client: SocketAddr,
     file_name: &FilePath,
     options: &ConnectionOptions,
-    _extensions: &PacketExtensions,
     config: &ServerConfig,
-) -> BoxedResult<FilePath> {
-    if let Err(e) = handle_file_size(options.file_size.unwrap_or(0), config.max_file_size) {
-        let packet = Packet::Error(e);
-        socket.send_to(&mut packet.to_bytes(), client)?;
-        return Err(ExtensionError::InvalidExtension(Extension::TransferSize).into());
-    }
+) -> Result<FilePath, (ErrorPacket, BoxedError)> {
+    handle_file_size(options.file_size.unwrap_or(0), config.max_file_size).map_err(|p| {
+        let e = ExtensionError::InvalidExtension(Extension::TransferSize);
+        (p, e.into())
+    })?;
 
-    match validate_file_name(file_name) {
-        Ok(p) => Ok(p),
-        Err(e) => {
-            let packet = Packet::Error(e);
-            socket.send_to(&mut packet.to_bytes(), client)?;
-            Err(FileError::InvalidFileName.into())
-        }
-    }
+    validate_file_name(file_name).map_err(|p| (p, FileError::InvalidFileName.into()))
 }
 
 pub fn handle_file_size(received_size: u64, max_file_size: u64) -> Result<(), ErrorPacket> {
-- 
2.43.0


From e5b57318101319ab3ba8c54ef82f472d90321462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 14/24] fix: repeat blocks after an outage before the request
 times out

---
 src/client/sender.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/sender.rs b/src/client/sender.rs
index 871c1cc..a4810ce 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -1,3 +1,4 @@
+use core::cmp::max;
 use core::num::Wrapping;
 use core::time::Duration;
 
@@ -195,8 +196,13 @@ where
 
         resize_buffer(&mut send_buffer, send_max_buffer_size);
 
-        let timeout_interval =
-            rate_control.timeout_interval(options.retry_packet_after_timeout, options.block_size);
+        // blocks need to be repeated a few times before the request times out
+        let timeout_interval = rate_control
+            .timeout_interval(options.retry_packet_after_timeout, options.block_size)
+            .min(max(
+                config.request_timeout / 8,
+                options.retry_packet_after_timeout,
+            ));
         let retry = last_sent.elapsed() > timeout_interval;
         let next_block =
             match block_reader.next(&mut send_buffer[DATA_PACKET_HEADER_SIZE.into()..], retry) {
-- 
2.43.0


From c4c4d399bd4f254056f7458faa8cede3ee4feea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 15/24] fix: do not depend on the system time which could be
 adjusted

---
 src/std_compat.rs    |  3 ++-
 std-binary/src/io.rs | 14 ++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/std_compat.rs b/src/std_compat.rs
index c8a66ca..16e07f5 100644
--- a/src/std_compat.rs
+++ b/src/std_compat.rs
@@ -15,7 +15,8 @@ pub mod time {
             }
         }
         pub fn elapsed(&self) -> core::time::Duration {
-            core::time::Duration::from_micros((self.time)()) - self.init
+            // time could be adjusted
+            core::time::Duration::from_micros((self.time)()).saturating_sub(self.init)
         }
     }
 }
diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index 0d1c07f..aeb41e7 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -29,8 +29,11 @@ use crate::std_compat::io::BufReader;
 use crate::std_compat::io::BytesCursor;
 
 cfg_no_std! {
-    use std::time::UNIX_EPOCH;
-    use std::time::SystemTime;
+    use std::sync::OnceLock;
+    use std::time::Instant as StdInstant;
+
+    // system time could be adjusted at any time
+    static START: OnceLock<StdInstant> = OnceLock::new();
 }
 
 /// A file which reads and writes the whole buffer as file blocks are expected to be complete
@@ -236,12 +239,7 @@ pub fn instant_callback() -> Instant {
     #[cfg(feature = "std")]
     return Instant::now();
     #[cfg(not(feature = "std"))]
-    Instant::from_time(|| {
-        SystemTime::now()
-            .duration_since(UNIX_EPOCH)
-            .expect("Time went backwards")
-            .as_micros() as u64
-    })
+    Instant::from_time(|| START.get_or_init(StdInstant::now).elapsed().as_micros() as u64)
 }
 
 struct ReaderCreator {}
-- 
2.43.0


From f1a9c241cf3c404fadb3c010ed48e106cdd766e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 16/24] fix: do not store more than the file size limit

---
 src/client/receiver.rs      | 14 +++++++++++---
 src/server/helpers/write.rs | 23 +++++++++++++++--------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 474e883..794006a 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -8,6 +8,7 @@ use rand::CryptoRng;
 use rand::RngCore;
 
 use super::ClientConfig;
+use crate::block_mapper::BlockMapper;
 use crate::buffer::create_max_buffer;
 use crate::buffer::resize_buffer;
 use crate::client::connection::query_server;
@@ -221,6 +222,16 @@ where
             Ok(Packet::Data(p)) => {
                 debug!("Received block {} data size {}", p.block, p.data.len());
                 handshake_sent = None;
+                // block that does not fit should not be written
+                let blocks_written = total as u64 / options.block_size_with_encryption() as u64;
+                if BlockMapper::nearest(p.block, blocks_written) == blocks_written + 1 {
+                    handle_file_size(
+                        &socket,
+                        endpoint,
+                        total + p.data.len(),
+                        config.max_file_size,
+                    )?;
+                }
                 write_block(&mut block_writer, p.block, p.data)
             }
             Ok(Packet::Error(p)) => {
@@ -234,9 +245,6 @@ where
 
         match result {
             Ok((written, index, block)) => {
-                if let Some(w) = written {
-                    handle_file_size(&socket, endpoint, total + w, config.max_file_size)?;
-                }
                 if options.window_size <= 1
                     || last_block_ack + options.window_size as u64 == index
                     || written.unwrap_or(0) < options.block_size_with_encryption() as usize
diff --git a/src/server/helpers/write.rs b/src/server/helpers/write.rs
index 3f037ab..fc80cb6 100644
--- a/src/server/helpers/write.rs
+++ b/src/server/helpers/write.rs
@@ -5,6 +5,7 @@ use log::trace;
 use rand::CryptoRng;
 use rand::RngCore;
 
+use crate::block_mapper::BlockMapper;
 use crate::error::StorageError;
 use crate::packet::AckPacket;
 use crate::packet::ByteConverter;
@@ -60,6 +61,20 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
 
             connection.confirm_handshake(instant);
 
+            // block that does not fit should not be written
+            let blocks_written =
+                connection.transfer as u64 / connection.options.block_size_with_encryption() as u64;
+            let is_next = !connection.finished
+                && BlockMapper::nearest(p.block, blocks_written) == blocks_written + 1;
+            if is_next {
+                let size = (connection.transfer + data_length) as u64;
+                if let Err(e) = handle_file_size(size, max_file_size) {
+                    connection.send_packet(Packet::Error(e), send_buffer);
+                    connection.invalid = instant().into();
+                    return None;
+                }
+            }
+
             write_block(block_writer, p.block, p.data)
         }
         Ok(Packet::Ack(p)) => {
@@ -84,14 +99,6 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
 
     match result {
         Ok((written, index, block)) => {
-            if let Some(w) = written {
-                if let Err(e) = handle_file_size((connection.transfer + w) as u64, max_file_size) {
-                    connection.send_packet(Packet::Error(e), send_buffer);
-                    connection.invalid = instant().into();
-                    return None;
-                }
-            }
-
             trace!(
                 "Block {} written in {}us",
                 block,
-- 
2.43.0


From b3b64851e3b805c44136d94485cfe37fe555301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 17/24] fix: ignore acknowledgements of blocks that were not
 sent

---
 src/client/sender.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/sender.rs b/src/client/sender.rs
index a4810ce..42d30fd 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -163,6 +163,7 @@ where
     let mut no_work = Wrapping(0_u8);
     let mut packets_to_send = u32::MAX;
     let mut last_acknowledged = 0;
+    let mut last_block = 0;
 
     rate_control.acknowledged_data(options.block_size as usize, 1);
     rate_control.calculate_transmit_rate(
@@ -235,6 +236,7 @@ where
             match socket.send_to(&mut send_buffer, endpoint) {
                 Ok(_) => {
                     last_sent = instant();
+                    last_block = max(last_block, data_block.index);
                     no_work = Wrapping(1);
                     rate_control.data_sent(last_read_length);
                     total_unconfirmed += last_read_length;
@@ -301,6 +303,9 @@ where
             continue;
         }
         match Packet::from_bytes(data) {
+            Ok(Packet::Ack(p)) if BlockMapper::nearest(p.block, last_block) > last_block => {
+                debug!("Acknowledge received for a block {} not sent", p.block);
+            }
             Ok(Packet::Ack(p)) => {
                 timeout = instant();
                 let data_length = block_reader.free_block(p.block);
-- 
2.43.0


From 5c09b8acdddfaddbb043d4ca5355a468518821c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 18/24] fix: refuse weaker encryption than the client requires

A client that requires the encryption level protocol accepted an answer
with the level data, so anybody on the path could weaken the session
without either user noticing: acknowledgements and headers travelled in
clear and unauthenticated.
---
 src/client/extensions.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/client/extensions.rs b/src/client/extensions.rs
index 019f2e3..c6c6565 100644
--- a/src/client/extensions.rs
+++ b/src/client/extensions.rs
@@ -181,13 +181,17 @@ pub fn parse_extensions(
             return Ok((options, None));
         }
 
-        if matches!(
-            expected_encryption_level,
-            EncryptionLevel::Data | EncryptionLevel::Protocol
-        ) && !matches!(
-            encryption_level,
-            Some(EncryptionLevel::Data | EncryptionLevel::Protocol)
-        ) {
+        let required_encryption_provided = match expected_encryption_level {
+            EncryptionLevel::Data => matches!(
+                encryption_level,
+                Some(EncryptionLevel::Data | EncryptionLevel::Protocol)
+            ),
+            EncryptionLevel::Protocol => {
+                matches!(encryption_level, Some(EncryptionLevel::Protocol))
+            }
+            _ => true,
+        };
+        if !required_encryption_provided {
             return Err(ExtensionError::ClientRequiredEncryption(
                 options.encryption_level,
             ));
-- 
2.43.0


From 774050a1241323632fe571174eeef9dcc27b3d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 19/24] fix: accept transfer modes in any case

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 59ad023..afdd8ac 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -198,7 +198,7 @@ impl FromStr for Mode {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         Ok(match s {
-            "octet" => Self::Octet,
+            mode if mode.eq_ignore_ascii_case("octet") => Self::Octet,
             _ => return Err(PacketError::InvalidMode),
         })
     }
-- 
2.43.0


From 1723c9ddd9098f7b82fa053ca92e86601f72dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 20/24] fix: do not repeat windows because of duplicated
 packets

---
 src/client/receiver.rs      | 24 +++++++++++++++---------
 src/server/helpers/write.rs | 29 +++++++++++++++++++----------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 794006a..06fc421 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -130,7 +130,7 @@ where
         if let Ok(Packet::Data(p)) = Packet::from_bytes(&receive_buffer[..packet_length]) {
             let data_length = p.data.len();
             handle_file_size(&socket, endpoint, data_length, config.max_file_size)?;
-            let (written, index, block) = write_block(&mut block_writer, p.block, p.data)?;
+            let (written, _, index, block) = write_block(&mut block_writer, p.block, p.data)?;
             if let Some(w) = written {
                 total += w;
             }
@@ -244,10 +244,16 @@ where
         };
 
         match result {
-            Ok((written, index, block)) => {
-                if options.window_size <= 1
-                    || last_block_ack + options.window_size as u64 == index
-                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize
+            Ok((written, duplicate, index, block)) => {
+                // answering each duplicate in the middle of a window would make
+                // the server repeat the window for each of them
+                let answer = !duplicate
+                    || last_block_ack == index
+                    || timeout.elapsed() > options.retry_packet_after_timeout / 2;
+                if answer
+                    && (options.window_size <= 1
+                        || last_block_ack + options.window_size as u64 == index
+                        || written.unwrap_or(0) < options.block_size_with_encryption() as usize)
                 {
                     debug!("Ack send {}", block);
                     let packet = Packet::Ack(AckPacket { block });
@@ -279,22 +285,22 @@ fn write_block(
     block_writer: &mut impl BlockWriter,
     block: u16,
     data: &[u8],
-) -> BoxedResult<(Option<usize>, u64, u16)> {
+) -> BoxedResult<(Option<usize>, bool, u64, u16)> {
     match block_writer.write_block(block, data) {
-        Ok((written, index)) => Ok((Some(written), index, block)),
+        Ok((written, index)) => Ok((Some(written), false, index, block)),
         Err(StorageError::ExpectedBlock(e)) => {
             debug!(
                 "Received unexpected block {} expecting block after {}",
                 block, e.current
             );
-            Ok((None, e.current_index, e.current))
+            Ok((None, false, e.current_index, e.current))
         }
         Err(StorageError::AlreadyWritten(e)) => {
             debug!(
                 "Received block that was written before. Ignoring block {}",
                 block
             );
-            Ok((None, e.current_index, e.current))
+            Ok((None, true, e.current_index, e.current))
         }
         Err(e) => Err(e.into()),
     }
diff --git a/src/server/helpers/write.rs b/src/server/helpers/write.rs
index fc80cb6..e74b17a 100644
--- a/src/server/helpers/write.rs
+++ b/src/server/helpers/write.rs
@@ -98,15 +98,24 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
     };
 
     match result {
-        Ok((written, index, block)) => {
+        Ok((written, duplicate, index, block)) => {
             trace!(
                 "Block {} written in {}us",
                 block,
                 write_elapsed.elapsed().as_micros()
             );
-            if connection.options.window_size <= 1
-                || connection.last_acknowledged + connection.options.window_size as u64 == index
-                || written.unwrap_or(0) < connection.options.block_size_with_encryption() as usize
+            // answering each duplicate in the middle of a window would make
+            // the client repeat the window for each of them
+            let answer = !duplicate
+                || connection.last_acknowledged == index
+                || connection.last_updated.elapsed()
+                    > connection.options.retry_packet_after_timeout / 2;
+            if answer
+                && (connection.options.window_size <= 1
+                    || connection.last_acknowledged + connection.options.window_size as u64
+                        == index
+                    || written.unwrap_or(0)
+                        < connection.options.block_size_with_encryption() as usize)
             {
                 if !connection.send_packet(Packet::Ack(AckPacket { block }), send_buffer) {
                     error!("Unable to ack block {}", block);
@@ -142,11 +151,11 @@ fn write_block<W: BlockWriter>(
     block_writer: &mut W,
     mut block: u16,
     data: &[u8],
-) -> Result<(Option<usize>, u64, u16), ErrorPacket> {
-    let (written, index) = match block_writer.write_block(block, data) {
+) -> Result<(Option<usize>, bool, u64, u16), ErrorPacket> {
+    let (written, duplicate, index) = match block_writer.write_block(block, data) {
         Ok((w, i)) => {
             debug!("Write block {} written size {}", block, w);
-            (Some(w), i)
+            (Some(w), false, i)
         }
         Err(StorageError::ExpectedBlock(e)) => {
             debug!(
@@ -154,12 +163,12 @@ fn write_block<W: BlockWriter>(
                 block, e.current
             );
             block = e.current;
-            (None, e.current_index)
+            (None, false, e.current_index)
         }
         Err(StorageError::AlreadyWritten(e)) => {
             debug!("Received block that was written before {}", block);
             block = e.current;
-            (None, e.current_index)
+            (None, true, e.current_index)
         }
         Err(e) => {
             error!("Failed to write block {} {}", block, e);
@@ -170,5 +179,5 @@ fn write_block<W: BlockWriter>(
         }
     };
 
-    Ok((written, index, block))
+    Ok((written, duplicate, index, block))
 }
-- 
2.43.0


From 7b8265a045dabf32f242e1adab017ff63812515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:38 +0000
Subject: [PATCH 21/24] fix: give a download up although the server repeats old
 blocks

---
 src/client/receiver.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 06fc421..c163d01 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -175,6 +175,15 @@ where
     loop {
         resize_buffer(&mut receive_buffer, max_receive_buffer_size);
 
+        // packets that bring nothing new do not keep the transfer alive
+        let elapsed = timeout.elapsed();
+        if elapsed > config.request_timeout {
+            if let Ok(s) = socket.local_addr() {
+                debug!("Received timeout for {}", s);
+            }
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+
         let mut wait_for = Duration::from_secs(1);
         // server does not send anything until it knows that the options are accepted
         if let Some(sent) = handshake_sent.as_mut() {
@@ -199,13 +208,6 @@ where
             }
         };
         let Some(received) = received else {
-            let elapsed = timeout.elapsed();
-            if elapsed > config.request_timeout {
-                if let Ok(s) = socket.local_addr() {
-                    debug!("Received timeout for {}", s);
-                }
-                return Err(PacketError::Timeout(elapsed).into());
-            }
             continue;
         };
         receive_buffer.truncate(received);
-- 
2.43.0


From 0715d7e1dec40dd3512abb37d2761de25caab397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:38 +0000
Subject: [PATCH 22/24] fix: ignore packets of others that arrive before a
 session's socket is connected

---
 std-binary/src/socket.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/std-binary/src/socket.rs b/std-binary/src/socket.rs
index 024f9bf..2ea2686 100644
--- a/std-binary/src/socket.rs
+++ b/std-binary/src/socket.rs
@@ -131,6 +131,7 @@ pub fn create_bound_socket(
     }
     let socket = UdpBoundSocket {
         socket,
+        endpoint,
         poller,
         socket_id,
         // TODO alloc in stack
@@ -235,6 +236,7 @@ impl ToSocketId for UdpUnboundSocket {
 
 pub struct UdpBoundSocket {
     socket: UdpSocket,
+    endpoint: SocketAddr,
     poller: Poller,
     socket_id: usize,
     events: Events,
@@ -251,7 +253,13 @@ impl BoundSocket for UdpBoundSocket {
                 .wait(&mut self.events, d.into())
                 .map_err(from_io_err)?;
         }
-        self.socket.recv(buff).map_err(from_io_err)
+        // before it was connected the socket might have received packets of others
+        loop {
+            let (size, from) = self.socket.recv_from(buff).map_err(from_io_err)?;
+            if from == self.endpoint {
+                return Ok(size);
+            }
+        }
     }
 
     fn send(&self, buff: &mut DataBuffer) -> io::Result<usize> {
-- 
2.43.0


From e78e608df4fa18fab1dee59c7c79d87de384eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 23/24] fix: errors for authorized clients only were sent to
 nobody

---
 src/server/connection_builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index 5602104..4d3c995 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -61,6 +61,7 @@ pub struct ConnectionBuilder<'a, Rng> {
     session_keys: Option<SessionKeys>,
     handshake_encryption: Option<Encryptor<Rng>>,
     socket_id: usize,
+    authorized: bool,
 }
 
 impl<'a, Rng> ConnectionBuilder<'a, Rng>
@@ -82,6 +83,7 @@ where
             used_extensions: PacketExtensions::new(),
             file_name: None,
             socket_id,
+            authorized: false,
         };
         #[cfg(feature = "encryption")]
         {
@@ -126,6 +128,8 @@ where
             max_window_size,
             rng,
         )?;
+        // any other key would have been refused
+        self.authorized = self.config.authorized_keys.is_some();
         self.file_name = Some(request.file_name);
         self.used_extensions = used_extensions;
         self.options = options;
@@ -339,7 +343,7 @@ where
         client: SocketAddr,
         error_packet: ErrorPacket,
     ) {
-        if self.config.error_to_authorized_only {
+        if self.config.error_to_authorized_only && !self.authorized {
             return;
         }
         reply_with_error(
-- 
2.43.0


From 851da3b4d49831a04ac5518ed8d84acae87f7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:10 +0000
Subject: [PATCH 24/24] fix: error code 8 (RFC 2347) was not understood and
 ignored until the timeout

---
 src/client/connection.rs | 6 ++++--
 src/packet.rs            | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 9245441..d522fdf 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -151,8 +151,10 @@ pub fn query_server<'a>(
             }
             (_, Ok(Packet::Error(p))) => {
                 // retry in case server does not support extensions
-                if matches!(p.code, ErrorCode::IllegalOperation | ErrorCode::Undefined)
-                    && initial
+                if matches!(
+                    p.code,
+                    ErrorCode::IllegalOperation | ErrorCode::Undefined | ErrorCode::OptionsRefused
+                ) && initial
                     && options.encryption_level == EncryptionLevel::None
                 {
                     debug!("Received error {} retrying without extensions", p.message);
diff --git a/src/packet.rs b/src/packet.rs
index afdd8ac..ddc80c4 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -464,6 +464,7 @@ pub enum ErrorCode {
     UnknownId,
     FileAlreadyExists,
     NotSuchUser,
+    OptionsRefused,
 }
 
 impl Display for ErrorCode {
@@ -477,6 +478,7 @@ impl Display for ErrorCode {
             ErrorCode::UnknownId => write!(f, "UnknownId"),
             ErrorCode::FileAlreadyExists => write!(f, "FileAlreadyExists"),
             ErrorCode::NotSuchUser => write!(f, "NotSuchUser"),
+            ErrorCode::OptionsRefused => write!(f, "OptionsRefused"),
         }
     }
 }
@@ -492,6 +494,7 @@ impl ErrorCode {
             5 => ErrorCode::UnknownId,
             6 => ErrorCode::FileAlreadyExists,
             7 => ErrorCode::NotSuchUser,
+            8 => ErrorCode::OptionsRefused,
             _ => return None,
         }
         .into()
-- 
2.43.0

