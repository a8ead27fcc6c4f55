From 58b4ca8ad5ead1f85d62e2e938fcf8a3dcdea54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 01/45] fix: bracket IPv6 addresses when formatting system
 paths

---
 core/src/actors/paths.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 7192ede..c9588dc 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -200,7 +200,8 @@ impl SystemPath {
 
 impl fmt::Display for SystemPath {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}://{}:{}", self.protocol, self.address, self.port)
+        // IPv6 addresses must be bracketed or the port can't be told apart when parsing
+        write!(fmt, "{}://{}", self.protocol, self.socket_address())
     }
 }
 
-- 
2.43.0


From 2a3d0eecc14a87ece71dbbdc670748ed0eef63b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 02/45] fix: reject routing markers inside lookup path segments
 as documented

---
 core/src/actors/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index c9588dc..2357e99 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -720,10 +720,10 @@ pub(crate) fn validate_lookup_path_segment(
     for c in segment.chars() {
         match c {
             PATH_SEP => return Err(PathParseError::IllegalCharacter(PATH_SEP)),
-            BROADCAST_MARKER if !is_last && len == 1 => {
+            BROADCAST_MARKER if !is_last || len != 1 => {
                 return Err(PathParseError::IllegalCharacter(BROADCAST_MARKER));
             }
-            SELECT_MARKER if !is_last && len == 1 => {
+            SELECT_MARKER if !is_last || len != 1 => {
                 return Err(PathParseError::IllegalCharacter(SELECT_MARKER));
             }
             UNIQUE_PATH_SEP => return Err(PathParseError::IllegalCharacter(UNIQUE_PATH_SEP)),
-- 
2.43.0


From a69bec9894cbc1ebff045922b79903142d19e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 03/45] fix: keep transport and address type apart in the
 system path header

---
 core/src/messaging/framing.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9b8d782..79bf835 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -43,7 +43,8 @@ impl BitField for PathType {
 
 impl BitField for Transport {
     const POS: usize = 0;
-    const WIDTH: usize = 5;
+    // Must not reach into the bits of the `AddressType`
+    const WIDTH: usize = 2;
 }
 
 // other direction is try_from
@@ -231,11 +232,11 @@ impl TryFrom<u8> for SystemPathHeader {
 ///
 /// # System Paths
 /// ```text
-/// +-------------------+-------------------+-----------------------+
-/// | Path type (1 bit) | Protocol (5 bits) | Address Type (2 bits) |
-/// +-------------------+-------------------+-----------------------+----------------+
-/// |                   Address (4/16/ * bytes)                  ...| Port (2 bytes) |
-/// +---------------------------------------------------------------+----------------+
+/// +-------------------+-----------------+-----------------------+-------------------+
+/// | Path type (1 bit) | Unused (3 bits) | Address Type (2 bits) | Protocol (2 bits) |
+/// +-------------------+-----------------+-----------------------+-------------------+----------------+
+/// |                   Address (4/16/ * bytes)                                    ...| Port (2 bytes) |
+/// +---------------------------------------------------------------------------------+----------------+
 /// ```
 impl Serialisable for SystemPath {
     fn ser_id(&self) -> SerId {
-- 
2.43.0


From 7d0600dd552eab995777345e4f681e64be24f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 04/45] fix: deserialise named paths without segments

---
 core/src/messaging/framing.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 79bf835..4c41ab6 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -415,15 +415,13 @@ impl Deserialiser<ActorPath> for ActorPath {
                         // this hot path.
                         String::from_utf8_unchecked(name_bytes)
                     };
-                    let parts: Vec<&str> = name.split('/').collect();
-                    if parts.is_empty() {
-                        return Err(SerError::invalid_data(
-                            "Could not determine name for Named path type",
-                        ));
+                    let path = if name.is_empty() {
+                        // the path of the system itself has no segments
+                        Vec::new()
                     } else {
-                        let path = parts.into_iter().map(|s| s.to_string()).collect();
-                        ActorPath::Named(NamedPath::with_system(system_path, path))
-                    }
+                        name.split('/').map(|s| s.to_string()).collect()
+                    };
+                    ActorPath::Named(NamedPath::with_system(system_path, path))
                 }
             }
         };
-- 
2.43.0


From bc05f0117100556c9c3a10fdafc7e393f73b691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 05/45] fix: keep reclaimed buffers in the pool when a
 reservation fails

---
 core/src/net/buffers/buffer_pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/net/buffers/buffer_pool.rs b/core/src/net/buffers/buffer_pool.rs
index b076b31..af9a813 100644
--- a/core/src/net/buffers/buffer_pool.rs
+++ b/core/src/net/buffers/buffer_pool.rs
@@ -100,6 +100,10 @@ impl BufferPool {
                 reserved.push(reclaimed);
                 required_buffers -= 1;
             } else {
+                // The buffers that were reclaimed so far must stay in the pool.
+                for buffer in reserved {
+                    self.pool.push_front(buffer);
+                }
                 return Err(BufferError::NoAvailableBuffers(format!(
                     "try_reserve failed while reserving {} bytes. \
                     chunk_size: {}, max_pool_size: {}, current pool_size {} ",
-- 
2.43.0


From 6309833fbd82c461637f746052dfed307c73e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 06/45] fix: do not rewind into a used buffer when padding
 finds the pool exhausted

---
 core/src/net/buffers/encode_buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4a4f224..df7b805 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -259,10 +259,11 @@ unsafe impl BufMut for BufferEncoder<'_> {
         if remaining < cnt {
             // We need to advance partially, swap, and then advance the rest!
             self.encode_buffer.write_offset += remaining;
-            let _ = self.chain_and_swap().map_err(|err| {
-                self.ser_error = Some(err);
-            });
-            self.encode_buffer.write_offset = cnt - remaining;
+            match self.chain_and_swap() {
+                Ok(()) => self.encode_buffer.write_offset = cnt - remaining,
+                // Stay at the end of the old buffer, its contents are still in use.
+                Err(err) => self.ser_error = Some(err),
+            }
         } else {
             self.encode_buffer.write_offset += cnt;
         }
-- 
2.43.0


From 33b46ea62e9cd88a6dfc60e33a2473e4b8c22a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 07/45] fix: let generic BufMut writers continue across chunk
 boundaries

---
 core/src/net/buffers/encode_buffer.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index df7b805..d927d6e 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -3,6 +3,9 @@ use crate::{actors::DispatcherRef, messaging::DispatchEnvelope, serialisation::S
 use bytes::{BufMut, buf::UninitSlice};
 use std::{cmp, ptr, sync::Arc};
 
+/// Size of the area that takes what is written after an error occurred
+const DISCARD_LEN: usize = 64;
+
 /// Structure used by components to continuously extract leases from BufferChunks swapped with the internal/private BufferPool
 /// Using get_buffer_encoder() we get a BufferEncoder which implements BufMut interface for the underlying Chunks
 /// The BufferEncoder uses its lifetime and Drop impl to give compile-time safety for consecutive encoding attempts
@@ -147,6 +150,8 @@ pub struct BufferEncoder<'a> {
     encode_buffer: &'a mut EncodeBuffer,
     chain_head: Option<ChunkLease>,
     ser_error: Option<SerError>,
+    /// Takes (and ignores) what is written after an error occurred
+    discard: Vec<u8>,
 }
 
 impl<'a> BufferEncoder<'a> {
@@ -160,6 +165,7 @@ impl<'a> BufferEncoder<'a> {
             encode_buffer,
             chain_head: None,
             ser_error: None,
+            discard: Vec::new(),
         }
     }
 
@@ -247,7 +253,9 @@ impl Drop for BufferEncoder<'_> {
 // `advance_mut` or `chunk_mut` updates or derives from that single source of truth.
 unsafe impl BufMut for BufferEncoder<'_> {
     fn remaining_mut(&self) -> usize {
-        self.encode_buffer.writeable_len()
+        // Further buffers are chained as needed. If there are none left, the error is returned
+        // when get_chunk_lease is called.
+        usize::MAX - self.encode_buffer.get_write_offset()
     }
 
     unsafe fn advance_mut(&mut self, cnt: usize) {
@@ -270,6 +278,16 @@ unsafe impl BufMut for BufferEncoder<'_> {
     }
 
     fn chunk_mut(&mut self) -> &mut UninitSlice {
+        if self.ser_error.is_none()
+            && self.encode_buffer.writeable_len() == 0
+            && let Err(err) = self.chain_and_swap()
+        {
+            self.ser_error = Some(err);
+        }
+        if self.ser_error.is_some() {
+            self.discard.resize(DISCARD_LEN, 0);
+            return UninitSlice::new(&mut self.discard);
+        }
         // SAFETY: `write_offset` always stays within the current buffer length, so the returned
         // uninitialised slice covers exactly the remaining writable tail.
         unsafe {
@@ -316,7 +334,7 @@ unsafe impl BufMut for BufferEncoder<'_> {
                 self.advance_mut(cnt);
             }
             // Check if we need to swap
-            if self.remaining_mut() < (src.len() - off) {
+            if self.encode_buffer.writeable_len() < (src.len() - off) {
                 // The error will be returned later when get_chunk_lease is called.
                 let _ = self.chain_and_swap().map_err(|err| {
                     self.ser_error = Some(err);
-- 
2.43.0


From 1c4e5109bf35c188699a5b172a6e64c5c988ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 08/45] fix: never expose consumed bytes when chaining chunk
 references, and allow reading exhausted chunks

---
 core/src/net/buffers/chunk_lease.rs |  3 +++
 core/src/net/buffers/chunk_ref.rs   | 25 ++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index bfc7e9c..1d5d815 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -226,6 +226,9 @@ impl Buf for ChunkLease {
     }
 
     fn chunk(&self) -> &[u8] {
+        if self.read_pointer >= self.chain_len {
+            return &[]; // nothing left to read
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index d8e0d42..9673752 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -41,9 +41,29 @@ impl ChunkRef {
         self.chain_len
     }
 
-    /// Appends `new_tail` to the end of the `ChunkRef` chain
+    /// Drops everything before the read pointer, so that the read pointer is back at 0
+    pub(crate) fn into_unread(mut self) -> ChunkRef {
+        while self.read_pointer >= self.chain_head_len {
+            match self.chain.take() {
+                Some(mut next) => {
+                    next.read_pointer += self.read_pointer - self.chain_head_len;
+                    self = *next;
+                }
+                None => break, // nothing left to read
+            }
+        }
+        let consumed = self.read_pointer.min(self.chain_head_len);
+        self.content = &self.content[consumed..];
+        self.chain_head_len -= consumed;
+        self.chain_len -= consumed;
+        self.read_pointer = 0;
+        self
+    }
+
+    /// Appends the unread part of `new_tail` to the end of the `ChunkRef` chain
     /// Use Public ChunkLease methods into_chunk_ref_as_tail or into_chunk_ref_with_tail
     pub(super) fn append_to_chain(&mut self, new_tail: ChunkRef) {
+        let new_tail = new_tail.into_unread();
         self.chain_len += new_tail.chain_len;
         if let Some(tail) = &mut self.chain {
             // recursion
@@ -76,6 +96,9 @@ impl Buf for ChunkRef {
 
     // Returns a slice starting from the read-pointer up to (possibly) the
     fn chunk(&self) -> &[u8] {
+        if self.read_pointer >= self.chain_len {
+            return &[]; // nothing left to read
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
-- 
2.43.0


From b72512ba55bb8da37dff27b772f9e2fc3f22183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 09/45] fix: embed only the unread part of forwarded messages

---
 core/src/serialisation/ser_helpers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 7120507..30c5569 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -165,7 +165,7 @@ pub fn serialise_msg_with_preserialised(
     src.serialise(buf)?; // src
     dst.serialise(buf)?; // dst
     buf.get_chunk_lease().map(|mut header| {
-        let len = header.capacity() + content.capacity() - FRAME_HEAD_LEN as usize;
+        let len = header.capacity() + content.remaining() - FRAME_HEAD_LEN as usize;
         header.insert_head(FrameHead::new(FrameType::Data, len));
         header.into_chunk_ref_with_tail(content)
     })
@@ -192,7 +192,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkLease(chunk_lease) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_lease.into_chunk_ref());
                 assert_eq!(
@@ -206,7 +206,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkRef(chunk_ref) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_ref);
                 assert_eq!(
-- 
2.43.0


From beebb6042a1e895fcf29131528dbbe1b6f54f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 10/45] fix: terminate when encoding data frames and announce
 their unread length

---
 core/src/net/frames.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index eb526b9..7caa11a 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -268,7 +268,7 @@ impl Data {
     }
 
     pub(crate) fn encoded_len(&self) -> usize {
-        self.payload.capacity()
+        self.payload.remaining()
     }
 
     /// Consumes this frame and returns the raw payload buffer
@@ -287,14 +287,12 @@ impl FrameExt for Data {
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
         // NOTE: This method _COPIES_ the owned bytes into `dst` rather than extending with the owned bytes
         assert!(dst.remaining_mut() >= (self.encoded_len()));
-        while self.payload.has_remaining() {
-            dst.put_slice(self.payload.chunk());
-        }
+        dst.put(&mut self.payload);
         Ok(())
     }
 
     fn encoded_len(&self) -> usize {
-        self.payload.chunk().len()
+        self.payload.remaining()
     }
 }
 
-- 
2.43.0


From fec46c3a9bf0e8c054224bffcd473b2878b38b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 11/45] fix: report malformed handshake frames and accept empty
 payloads instead of panicking

---
 core/src/net/buffers/decode_buffer.rs |  3 ++
 core/src/net/frames.rs                | 55 +++++++++------------------
 2 files changed, 22 insertions(+), 36 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index aca9775..18c12df 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -147,6 +147,9 @@ impl DecodeBuffer {
 
     /// Extracts a ChunkLease from the readable portion of the buffer (including the chain)
     fn read_chunk_lease(&mut self, length: usize) -> ChunkLease {
+        if length == 0 {
+            return ChunkLease::empty();
+        }
         if let Some(mut chain_head) = self.chain_head.take() {
             match chain_head.remaining().cmp(&length) {
                 Ordering::Greater => {
diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index 7caa11a..6d8cc80 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -296,25 +296,22 @@ impl FrameExt for Data {
     }
 }
 
+/// Reads the version byte, address, and port of a `Hello` or `Start` message.
+fn decode_addr(src: &mut ChunkLease) -> Result<SocketAddr, FramingError> {
+    let invalid = |_| FramingError::InvalidFrame;
+    let ip = match src.try_get_u8().map_err(invalid)? {
+        4 => IpAddr::V4(Ipv4Addr::from(src.try_get_u32().map_err(invalid)?)),
+        6 => IpAddr::V6(Ipv6Addr::from(src.try_get_u128().map_err(invalid)?)),
+        _ => return Err(FramingError::InvalidFrame),
+    };
+    let port = src.try_get_u16().map_err(invalid)?;
+    Ok(SocketAddr::new(ip, port))
+}
+
 impl FrameExt for Hello {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
-        }
+        let addr = decode_addr(&mut src)?;
+        Ok(Frame::Hello(Hello::new(addr)))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
@@ -348,25 +345,11 @@ impl FrameExt for Hello {
 
 impl FrameExt for Start {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
-        }
+        let addr = decode_addr(&mut src)?;
+        let id = src
+            .try_get_u128()
+            .map_err(|_| FramingError::InvalidFrame)?;
+        Ok(Frame::Start(Start::new(addr, SessionId::from_u128(id))))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
-- 
2.43.0


From 9a286c5548f7e2e8cfb8cf3896baea54f94e542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 12/45] fix: keep the decode buffer writeable after copying the
 overflow on a swap

---
 core/src/net/buffers/decode_buffer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 18c12df..2c48d72 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -13,6 +13,9 @@ use crate::net::frames::{
 use bytes::Buf;
 use std::{cmp::Ordering, fmt::Formatter, io};
 
+/// A buffer with no more than this many writable bytes must be swapped before further writing.
+const MIN_WRITEABLE_LEN: usize = 8;
+
 /// Incremental frame decoder backed by pooled [`BufferChunk`] storage.
 ///
 /// It supports decoding complete frames while the backing buffer is being filled,
@@ -93,7 +96,7 @@ impl DecodeBuffer {
 
     /// True if there is sufficient amount of writeable bytes
     pub(crate) fn is_writeable(&self) -> bool {
-        self.writeable_len() > 8
+        self.writeable_len() > MIN_WRITEABLE_LEN
     }
 
     /// Returns true if there is data to be decoded, else false
@@ -123,9 +126,13 @@ impl DecodeBuffer {
         if let Some(mut overflow_chunk) = overflow {
             // TODO: change the config parameter to a separate value?
             let overflow_len = overflow_chunk.remaining();
+            // copying must leave the new buffer writeable, or no further bytes could be received
+            let min_free_space = self
+                .buffer_config
+                .encode_buf_min_free_space
+                .max(MIN_WRITEABLE_LEN);
             if overflow_len < self.writeable_len()
-                && self.writeable_len() - overflow_len
-                    > self.buffer_config.encode_buf_min_free_space
+                && self.writeable_len() - overflow_len > min_free_space
             {
                 // Just copy the overflow_chunk bytes, no need to chain.
                 // the overflow must not exceed the new buffers capacity
-- 
2.43.0


From 8df3c8008fca4c9548449b6b9a3f7594ddd76069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 13/45] fix: give actor paths a serialisation id of their own

---
 core/src/serialisation/default_serialisers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 2900c58..701b463 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -19,14 +19,13 @@ pub mod serialisation_ids {
 
     /// Id for a `NamedPath`.
     pub const NAMED_PATH: SerId = 3;
-    //pub const SYSTEM_PATH_HEADER: SerId = 4; // this one is freed now...reuse in th future!
+
+    /// Id for an [ActorPath](crate::prelude::ActorPath).
+    pub const ACTOR_PATH: SerId = 4;
 
     /// Id for a `SystemPath`.
     pub const SYSTEM_PATH: SerId = 5;
 
-    /// Id for an [ActorPath](crate::prelude::ActorPath).
-    pub const ACTOR_PATH: SerId = 6;
-
     /// Id for a `String` serialiser.
     pub const STR: SerId = 6;
 
-- 
2.43.0


From 46b523187307758ed99d60bf2045a0759b62572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 14/45] fix: allow system paths to be sent locally

---
 core/src/messaging/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 4c41ab6..3c9b4fb 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -264,7 +264,7 @@ impl Serialisable for SystemPath {
     }
 
     fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
-        unimplemented!()
+        Ok(self)
     }
 }
 
-- 
2.43.0


From e5cf4ba840a54e42f4ef93bd6322c655cf635348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 15/45] fix: deserialise local messages that can't be moved
 onto the heap from their serialised form

---
 core/src/messaging/net_message.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/core/src/messaging/net_message.rs b/core/src/messaging/net_message.rs
index cffdf6d..c78de35 100644
--- a/core/src/messaging/net_message.rs
+++ b/core/src/messaging/net_message.rs
@@ -485,17 +485,16 @@ impl NetData {
     where
         D: Deserialiser<T>,
     {
-        let NetData { ser_id, data } = self;
-        match data {
-            HeapOrSer::Boxed(boxed_ser) => {
-                let b = boxed_ser.local().map_err(|_| {
-                    UnpackError::DeserError(SerError::unknown(format!(
-                        "Serialisable with id={} can't be converted to local!",
-                        ser_id
-                    )))
-                })?;
-                b.downcast::<T>().map(|b| *b).map_err(UnpackError::NoCast)
-            }
+        match self.data {
+            HeapOrSer::Boxed(boxed_ser) => match boxed_ser.local() {
+                Ok(b) => b.downcast::<T>().map(|b| *b).map_err(UnpackError::NoCast),
+                Err(ser) => {
+                    // Can't be moved onto the heap, so it must take the way over its serialised form
+                    let mut buf: Vec<u8> = Vec::with_capacity(ser.size_hint().unwrap_or(0));
+                    ser.serialise(&mut buf).map_err(UnpackError::DeserError)?;
+                    D::deserialise(&mut Bytes::from(buf)).map_err(UnpackError::DeserError)
+                }
+            },
             HeapOrSer::Serialised(mut bytes) => {
                 D::deserialise(&mut bytes).map_err(UnpackError::DeserError)
             }
-- 
2.43.0


From 20be699b225c4f0b92ae992a50f5c6f4e21cab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 16/45] fix: return errors instead of panicking when
 deserialising truncated or damaged data

---
 core/src/messaging/dispatch.rs                |  6 +--
 core/src/messaging/framing.rs                 | 28 +++++++-----
 core/src/serialisation/default_serialisers.rs | 26 +++++++----
 core/src/serialisation/ser_helpers.rs         | 14 ++++--
 core/src/serialisation/serde_serialisers.rs   | 44 +++++++------------
 5 files changed, 65 insertions(+), 53 deletions(-)

diff --git a/core/src/messaging/dispatch.rs b/core/src/messaging/dispatch.rs
index daf6aff..293b840 100644
--- a/core/src/messaging/dispatch.rs
+++ b/core/src/messaging/dispatch.rs
@@ -29,18 +29,18 @@ impl DispatchData {
                 // The chunk contains the full frame, deserialize_msg does not deserialize FrameHead so we advance the read_pointer first
                 chunk_lease.advance(FRAME_HEAD_LEN as usize);
                 //println!("to_local (from: {:?}; to: {:?})", src, dst);
-                Ok(deserialise_chunk_lease(chunk_lease).expect("s11n errors"))
+                deserialise_chunk_lease(chunk_lease)
             }
             DispatchData::Serialised(SerialisedFrame::ChunkRef(mut chunk_ref)) => {
                 // The chunk contains the full frame, deserialize_msg does not deserialize FrameHead so we advance the read_pointer first
                 chunk_ref.advance(FRAME_HEAD_LEN as usize);
                 //println!("to_local (from: {:?}; to: {:?})", src, dst);
-                Ok(deserialise_chunk_ref(chunk_ref).expect("s11n errors"))
+                deserialise_chunk_ref(chunk_ref)
             }
             DispatchData::Serialised(SerialisedFrame::Bytes(mut bytes)) => {
                 bytes.advance(FRAME_HEAD_LEN as usize);
                 //println!("to_local (from: {:?}; to: {:?})", src, dst);
-                Ok(deserialise_bytes(bytes).expect("s11n errors"))
+                deserialise_bytes(bytes)
             }
             DispatchData::NetMessage(net_message) => Ok(net_message),
         }
diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 3c9b4fb..590dea6 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -1,7 +1,15 @@
 //! Message framing (serialization and deserialization into and from byte buffers)
 
 use crate::{
-    actors::{ActorPath, NamedPath, SystemField, SystemPath, Transport, UniquePath},
+    actors::{
+        ActorPath,
+        NamedPath,
+        SystemField,
+        SystemPath,
+        Transport,
+        UniquePath,
+        validate_lookup_path,
+    },
     messaging::bitfields::{BitField, BitFieldExt},
     serialisation::{Deserialiser, SerError, SerId, Serialisable, serialisation_ids},
 };
@@ -280,7 +288,7 @@ fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) -> () {
 #[inline(always)]
 fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPath), SerError> {
     // Deserialize system path
-    let fields: u8 = buf.get_u8();
+    let fields: u8 = buf.try_get_u8().map_err(SerError::from_debug)?;
     let header = SystemPathHeader::try_from(fields)?;
     let address: IpAddr = match header.address_type {
         AddressType::IPv4 => {
@@ -306,10 +314,10 @@ fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPa
             }
         }
         AddressType::Domain => {
-            unimplemented!();
+            return Err(SerError::invalid_type("Domain names are not supported"));
         }
     };
-    let port = buf.get_u16();
+    let port = buf.try_get_u16().map_err(SerError::from_debug)?;
     let system_path = SystemPath::new(header.protocol, address, port);
     Ok((header, system_path))
 }
@@ -400,7 +408,7 @@ impl Deserialiser<ActorPath> for ActorPath {
                 }
             }
             PathType::Named => {
-                let name_len = buf.get_u16() as usize;
+                let name_len = buf.try_get_u16().map_err(SerError::from_debug)? as usize;
                 if buf.remaining() < name_len {
                     return Err(SerError::invalid_data(format!(
                         "Could not get {} bytes for path name",
@@ -409,18 +417,14 @@ impl Deserialiser<ActorPath> for ActorPath {
                 } else {
                     let mut name_bytes = vec![0u8; name_len];
                     buf.copy_to_slice(&mut name_bytes);
-                    let name = unsafe {
-                        // Paths are serialised by Kompact itself and transported with the normal
-                        // networking integrity checks in place, so we keep the unchecked decode on
-                        // this hot path.
-                        String::from_utf8_unchecked(name_bytes)
-                    };
-                    let path = if name.is_empty() {
+                    let name = String::from_utf8(name_bytes).map_err(SerError::from_debug)?;
+                    let path: Vec<String> = if name.is_empty() {
                         // the path of the system itself has no segments
                         Vec::new()
                     } else {
                         name.split('/').map(|s| s.to_string()).collect()
                     };
+                    validate_lookup_path(&path).map_err(SerError::from_debug)?;
                     ActorPath::Named(NamedPath::with_system(system_path, path))
                 }
             }
diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 701b463..1c95214 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -42,6 +42,22 @@ pub mod serialisation_ids {
     pub const PBUF: SerId = 20;
 }
 
+/// Reads a `u64` length followed by that many bytes.
+pub(crate) fn get_length_prefixed(buf: &mut dyn Buf) -> Result<Vec<u8>, SerError> {
+    let len_u64 = buf.try_get_u64().map_err(SerError::from_debug)?;
+    let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
+    if buf.remaining() < len {
+        return Err(SerError::invalid_data(format!(
+            "Expected {} bytes, but only {} are available",
+            len,
+            buf.remaining()
+        )));
+    }
+    let mut data: Vec<u8> = vec![0; len];
+    buf.copy_to_slice(data.as_mut_slice());
+    Ok(data)
+}
+
 impl Deserialiser<Never> for Never {
     const SER_ID: SerId = serialisation_ids::UNKNOWN;
 
@@ -75,12 +91,7 @@ impl Deserialiser<String> for String {
     const SER_ID: SerId = serialisation_ids::STR;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<String, SerError> {
-        let len_u64 = buf.get_u64();
-        let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
-        // If you need different guarantees, write a different String serde implementation, that fulfills them
-        let mut data: Vec<u8> = vec![0; len];
-        buf.copy_to_slice(data.as_mut_slice());
+        let data = get_length_prefixed(buf)?;
         let s = String::from_utf8(data).map_err(SerError::from_debug)?;
         Ok(s)
     }
@@ -108,8 +119,7 @@ impl Deserialiser<u64> for u64 {
     const SER_ID: SerId = serialisation_ids::U64;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<u64, SerError> {
-        let num = buf.get_u64();
-        Ok(num)
+        buf.try_get_u64().map_err(SerError::from_debug)
     }
 }
 
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 30c5569..e788952 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -230,6 +230,14 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
     })
 }
 
+/// Reads a serialisation id, if the buffer holds enough bytes for one
+fn try_get_ser_id<B: Buf>(buffer: &mut B) -> Result<SerId, SerError> {
+    if buffer.remaining() < std::mem::size_of::<SerId>() {
+        return Err(SerError::invalid_data("Could not get serialisation id"));
+    }
+    Ok(buffer.get_ser_id())
+}
+
 /// Extracts a [NetMessage](NetMessage) from the provided buffer
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
@@ -241,7 +249,7 @@ pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, Ser
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer.into_chunk_ref());
 
@@ -259,7 +267,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer);
 
@@ -272,7 +280,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 pub fn deserialise_bytes(mut buffer: Bytes) -> Result<NetMessage, SerError> {
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = try_get_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_bytes(ser_id, src, dst, buffer);
 
diff --git a/core/src/serialisation/serde_serialisers.rs b/core/src/serialisation/serde_serialisers.rs
index a8ae4f4..8863730 100644
--- a/core/src/serialisation/serde_serialisers.rs
+++ b/core/src/serialisation/serde_serialisers.rs
@@ -490,7 +490,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(SerError::from_debug)?;
         let v = num != 0u8; // treat everything except 0 as true
         visitor.visit_bool(v)
     }
@@ -499,7 +499,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i8();
+        let num = self.buffer.try_get_i8().map_err(SerError::from_debug)?;
         visitor.visit_i8(num)
     }
 
@@ -507,7 +507,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i16();
+        let num = self.buffer.try_get_i16().map_err(SerError::from_debug)?;
         visitor.visit_i16(num)
     }
 
@@ -515,7 +515,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i32();
+        let num = self.buffer.try_get_i32().map_err(SerError::from_debug)?;
         visitor.visit_i32(num)
     }
 
@@ -523,7 +523,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i64();
+        let num = self.buffer.try_get_i64().map_err(SerError::from_debug)?;
         visitor.visit_i64(num)
     }
 
@@ -531,7 +531,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(SerError::from_debug)?;
         visitor.visit_u8(num)
     }
 
@@ -539,7 +539,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u16();
+        let num = self.buffer.try_get_u16().map_err(SerError::from_debug)?;
         visitor.visit_u16(num)
     }
 
@@ -547,7 +547,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32().map_err(SerError::from_debug)?;
         visitor.visit_u32(num)
     }
 
@@ -555,7 +555,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u64();
+        let num = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         visitor.visit_u64(num)
     }
 
@@ -563,7 +563,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f32();
+        let num = self.buffer.try_get_f32().map_err(SerError::from_debug)?;
         visitor.visit_f32(num)
     }
 
@@ -571,7 +571,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f64();
+        let num = self.buffer.try_get_f64().map_err(SerError::from_debug)?;
         visitor.visit_f64(num)
     }
 
@@ -579,7 +579,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32().map_err(SerError::from_debug)?;
         let v = std::char::from_u32(num).ok_or_else(|| {
             SerError::unknown(format!("Number {} does not represent a valid char!", num))
         })?;
@@ -599,12 +599,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
-        let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
-        // If you need different guarantees, write a different String serde implementation, that fulfills them
-        let mut data: Vec<u8> = vec![0; len];
-        self.buffer.copy_to_slice(data.as_mut_slice());
+        let data = get_length_prefixed(self.buffer)?;
         let s = String::from_utf8(data).map_err(SerError::from_debug)?;
         visitor.visit_string(s)
     }
@@ -621,12 +616,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
-        let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
-        // If you need different guarantees, write a different serde implementation, that fulfills them
-        let mut data: Vec<u8> = vec![0; len];
-        self.buffer.copy_to_slice(data.as_mut_slice());
+        let data = get_length_prefixed(self.buffer)?;
         visitor.visit_byte_buf(data)
     }
 
@@ -634,7 +624,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(SerError::from_debug)?;
         if num == 0 {
             visitor.visit_none()
         } else {
@@ -683,7 +673,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_seq(self.counting(len))
     }
@@ -717,7 +707,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(SerError::from_debug)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_map(self.counting(len))
     }
-- 
2.43.0


From 199f124ff222f6b5df2f177e2c17d98a9a8baba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 17/45] fix: do not poll a local future in place in a map it
 can grow

A future spawned with spawn_local that spawned another one while being polled
made the map of local futures reallocate, and left the waker it was being
polled with dangling.
---
 core/src/component/context.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b81bdc..c612d3b 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -268,13 +268,15 @@ where
     }
 
     pub(super) fn run_nonblocking_task(&mut self, tag: Uuid) -> HandlerResult {
-        if let Some(future) = self.non_blocking_futures.get_mut(&tag) {
+        // Take the future out of the map while it runs: it may itself spawn further local futures,
+        // and thus cause the map to move its entries while they are in use.
+        if let Some(mut future) = self.non_blocking_futures.remove(&tag) {
             match future.run() {
-                Poll::Pending => Handled::OK,
-                Poll::Ready(handled) => {
-                    self.non_blocking_futures.remove(&tag);
-                    handled
+                Poll::Pending => {
+                    self.non_blocking_futures.insert(tag, future);
+                    Handled::OK
                 }
+                Poll::Ready(handled) => handled,
             }
         } else {
             warn!(
-- 
2.43.0


From d4b8ba5d811fb0edb0eac29e0d126b1f7fd80ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 18/45] fix: account for queued timeouts that were cancelled
 before being handled

Such a timeout ended the handling of timeouts early and was never taken off the
component's work count, so that the component was rescheduled forever.
---
 core/src/component/actual_component.rs | 5 +++++
 core/src/timer/timer_manager.rs        | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ca1a77a..a695e2c 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -521,6 +521,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             count += 1;
                             res
                         }
+                        ExecuteAction::Cancelled => {
+                            // nothing to run, but the queued timeout was accounted for as work
+                            count += 1;
+                            continue;
+                        }
                         ExecuteAction::None => break,
                     };
                     check_and_handle_blocking!(self, guard, count, res);
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 7957055..856ae01 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -212,6 +212,8 @@ pub(crate) struct Timeout(pub(crate) Uuid);
 
 pub(crate) enum ExecuteAction<C: ComponentDefinition> {
     None,
+    /// The timeout has been cancelled after it was queued already
+    Cancelled,
     Periodic(Uuid, Rc<dyn Fn(&mut C, Uuid) -> HandlerResult>),
     Once(Uuid, Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult>),
 }
@@ -251,7 +253,7 @@ impl<C: ComponentDefinition> TimerManager<C> {
                     );
                     ExecuteAction::Periodic(timeout.0, action2)
                 }
-                _ => ExecuteAction::None,
+                None => ExecuteAction::Cancelled,
             }
         } else {
             ExecuteAction::None
-- 
2.43.0


From ca2e9e526b6f30c15dd20577fb9b1814b9464004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 19/45] fix: ignore control events that follow a kill

A start queued behind a kill brought the destroyed component back to life, and
local futures woken at the same time still ran after on_kill.
---
 core/src/component/actual_component.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index a695e2c..fdc81e1 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -461,7 +461,10 @@ impl<CD: ComponentTraits> Component<CD> {
                         Ok(Handled::Ok) => match event {
                             lifecycle::ControlEvent::Start => self.notify_started(),
                             lifecycle::ControlEvent::Stop => self.set_passive(),
-                            lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                            lifecycle::ControlEvent::Kill => {
+                                self.set_destroyed();
+                                return SchedulingDecision::NoWork;
+                            }
                             lifecycle::ControlEvent::Poll(_) => (),
                         },
                         Ok(Handled::BlockOn(blocking_future)) => {
@@ -490,7 +493,10 @@ impl<CD: ComponentTraits> Component<CD> {
                             match event {
                                 lifecycle::ControlEvent::Start => self.notify_started(),
                                 lifecycle::ControlEvent::Stop => self.set_passive(),
-                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                                lifecycle::ControlEvent::Kill => {
+                                    self.set_destroyed();
+                                    return SchedulingDecision::NoWork;
+                                }
                                 lifecycle::ControlEvent::Poll(_) => (),
                             }
                         }
-- 
2.43.0


From 34ae2f45abf4dd12276202a479463de012730118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 20/45] fix: complete the kill notification of components that
 were never started

---
 core/src/supervision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 24975fd..88d8ef4 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -326,11 +326,12 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                                 id
                             );
                         }
-                        self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
-                        self.drop_listeners(&id);
                     }
+                    // may have never been started
                     None => warn!(self.ctx.log(), "An untracked Component({}) was killed.", id),
                 }
+                self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
+                self.drop_listeners(&id);
                 self.shutdown_if_no_more_children()
             }
             SupervisorMsg::Faulty(recover_handler) => {
-- 
2.43.0


From e752ce7f4fdee36562842f280d89c847a8c5fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:02 +0000
Subject: [PATCH 21/45] fix: poll the future a blocking future wants to block
 on next

It was stored without being polled, so nothing ever woke the component again.
---
 core/src/component/context.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index c612d3b..0b40bb7 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -223,7 +223,12 @@ where
             .take()
             .expect("Called run_blocking while not blocking!");
         let component = self.typed_component();
-        match blocking_state.future.run(&component) {
+        let mut run_result = blocking_state.future.run(&component);
+        // a future newly blocked on must be polled, or it is never going to wake the component
+        while let BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) = run_result {
+            run_result = f.run(&component);
+        }
+        match run_result {
             BlockingRunResult::BlockOn(f) => {
                 blocking_state.future = f;
                 assert!(
@@ -232,14 +237,6 @@ where
                 );
                 BlockingTaskResult::Pending
             }
-            BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) => {
-                blocking_state.future = f;
-                assert!(
-                    self.blocking_future.replace(blocking_state).is_none(),
-                    "Replacing a blocking future without completing it first is invalid!"
-                );
-                BlockingTaskResult::Pending
-            }
             BlockingRunResult::Unblock(Ok(Handled::Shutdown))
                 if blocking_state.unblock_state == StateTransition::Destroyed =>
             {
-- 
2.43.0


From 37513c77d7c6fc0a5ee3739b031d70770e8da593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 22/45] fix: a local future that blocks a stopped component
 must not start it

Once the blocking future was done the component was set active without having
been started.
---
 core/src/component/actual_component.rs | 11 ++++++++++-
 core/src/component/context.rs          |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index fdc81e1..e5af2cf 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -230,6 +230,10 @@ impl<CD: ComponentTraits> Component<CD> {
         lifecycle::set_active(&self.core.state)
     }
 
+    pub(super) fn set_still_passive(&self) {
+        lifecycle::set_passive(&self.core.state)
+    }
+
     pub(super) fn set_passive(&self) {
         lifecycle::set_passive(&self.core.state);
         if let Some(ref supervisor) = self.supervisor {
@@ -472,7 +476,12 @@ impl<CD: ComponentTraits> Component<CD> {
                                 lifecycle::ControlEvent::Start => StateTransition::Started,
                                 lifecycle::ControlEvent::Stop => StateTransition::Passive,
                                 lifecycle::ControlEvent::Kill => StateTransition::Destroyed,
-                                _ => StateTransition::Active,
+                                lifecycle::ControlEvent::Poll(_)
+                                    if !lifecycle::is_active(&self.core.state) =>
+                                {
+                                    StateTransition::StillPassive
+                                }
+                                lifecycle::ControlEvent::Poll(_) => StateTransition::Active,
                             };
                             guard
                                 .definition
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 0b40bb7..396dd10 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -11,6 +11,8 @@ pub(super) enum StateTransition {
     #[default]
     Active,
     Started,
+    /// Was passive before blocking and returns to that without reporting it again
+    StillPassive,
     Passive,
     Destroyed,
 }
@@ -255,6 +257,7 @@ where
                             component.set_active();
                             component.notify_started();
                         }
+                        StateTransition::StillPassive => component.set_still_passive(),
                         StateTransition::Passive => component.set_passive(),
                         StateTransition::Destroyed => component.set_destroyed(),
                     }
-- 
2.43.0


From 196b8a24206b9f8d4f479fc9057decdd6dc48f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:08 +0000
Subject: [PATCH 23/45] fix: wakers of local tasks must not keep their
 component alive

A component owns its local tasks, and each task owned a waker with a strong
reference to the component. A component destroyed with unfinished tasks was
never deallocated, and whatever those tasks held (e.g. the promises of
unanswered asks) was never dropped.
---
 core/src/component/future_task.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/component/future_task.rs b/core/src/component/future_task.rs
index 055f324..69c1f00 100644
--- a/core/src/component/future_task.rs
+++ b/core/src/component/future_task.rs
@@ -109,7 +109,7 @@ where
     let id = Uuid::new_v4();
     let future = f(ComponentDefinitionAccess::from_ref(component));
     let core = component.ctx().component();
-    let waker = task_waker::create(id, core);
+    let waker = task_waker::create(id, Arc::downgrade(&core));
     let boxed = Box::pin(future);
     NonBlockingFuture {
         future: boxed,
@@ -185,21 +185,23 @@ unsafe impl<CD> Send for ComponentDefinitionAccess<CD> where CD: ComponentDefini
 mod task_waker {
     use super::*;
 
-    pub fn create(id: Uuid, core: Arc<dyn CoreContainer>) -> Waker {
+    pub fn create(id: Uuid, core: Weak<dyn CoreContainer>) -> Waker {
         waker(Arc::new(TaskWaker { id, core }))
     }
 
+    // The component owns its tasks and each task owns its waker, so a strong reference here
+    // would keep a component with unfinished tasks allocated forever.
     #[derive(Debug)]
     struct TaskWaker {
         id: Uuid,
-        core: Arc<dyn CoreContainer>,
+        core: Weak<dyn CoreContainer>,
     }
 
     impl ArcWake for TaskWaker {
         fn wake_by_ref(arc_self: &Arc<Self>) {
-            arc_self
-                .core
-                .enqueue_control(ControlEvent::Poll(arc_self.id));
+            if let Some(core) = arc_self.core.upgrade() {
+                core.enqueue_control(ControlEvent::Poll(arc_self.id));
+            }
         }
     }
 }
-- 
2.43.0


From 5acd5d97fa200a2c9e890aff05fb2a880d2300c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 24/45] fix: enforce the minimum of one message and one event
 per execution

With a small throughput or an extreme message priority the allotment of
messages was rounded down to zero (or, through float rounding, up to all of the
throughput), so that messages were not handled as long as events kept coming,
although the documentation of the setting rules that out.
---
 core/src/runtime/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/runtime/config.rs b/core/src/runtime/config.rs
index e756896..d9b3324 100644
--- a/core/src/runtime/config.rs
+++ b/core/src/runtime/config.rs
@@ -563,7 +563,9 @@ impl KompactConfig {
         let tpf = self.throughput as f32;
         let mmf = tpf * self.msg_priority;
         assert!(mmf >= 0.0, "msg_priority can not be negative!");
-        mmf as usize
+        // at least one message and, where the throughput allows for it, at least one event
+        let max = self.throughput.saturating_sub(1).max(1);
+        (mmf as usize).clamp(1, max)
     }
 
     pub(crate) fn override_from_config(&mut self, conf: &Config) -> Result<(), ConfigError> {
-- 
2.43.0


From e0691e8702421fbb3e0a3552564ed2f35a6cd9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 25/45] fix: continue with the next port after a handler
 blocked or failed

Execution resumed at the very port whose handler ended the previous one, so a
busy port whose handlers block or report (benign) errors kept all other ports
of the component from ever being served.
---
 macros/component-definition-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/component-definition-derive/src/lib.rs b/macros/component-definition-derive/src/lib.rs
index cd9713f..389f1e3 100644
--- a/macros/component-definition-derive/src/lib.rs
+++ b/macros/component-definition-derive/src/lib.rs
@@ -90,13 +90,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                     Ok(Handled::Ok) => (),
                                     Ok(Handled::BlockOn(blocking_future)) => {
                                         self.ctx_mut().set_blocking(blocking_future);
-                                        return ExecuteResult::new(true, count, #i);
+                                        return ExecuteResult::new(true, count, #i + 1);
                                     }
                                     Ok(Handled::Shutdown) => {
                                         return ExecuteResult::shutdown(count, #i);
                                     }
                                     Err(error) => {
-                                        return ExecuteResult::error(error, count, #i);
+                                        return ExecuteResult::error(error, count, #i + 1);
                                     }
                                 }
                             }
@@ -126,13 +126,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                 Ok(Handled::Ok) => (),
                                 Ok(Handled::BlockOn(blocking_future)) => {
                                     self.ctx_mut().set_blocking(blocking_future);
-                                    return ExecuteResult::new(true, count, #i);
+                                    return ExecuteResult::new(true, count, #i + 1);
                                 }
                                 Ok(Handled::Shutdown) => {
                                     return ExecuteResult::shutdown(count, #i);
                                 }
                                 Err(error) => {
-                                    return ExecuteResult::error(error, count, #i);
+                                    return ExecuteResult::error(error, count, #i + 1);
                                 }
                             }
                         }
-- 
2.43.0


From 19d49b1371e0703cfbfd1a1720d6ec94bf6ade8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:53 +0000
Subject: [PATCH 26/45] fix: end the thread of a dedicated component that
 became faulty

---
 core/src/dedicated_scheduler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/dedicated_scheduler.rs b/core/src/dedicated_scheduler.rs
index 016726c..2df11c2 100644
--- a/core/src/dedicated_scheduler.rs
+++ b/core/src/dedicated_scheduler.rs
@@ -101,7 +101,7 @@ impl DedicatedThreadScheduler {
         let backoff = Backoff::new();
         'main: loop {
             let res = c.execute();
-            if c.is_destroyed() || stop.load(Ordering::Relaxed) {
+            if c.is_destroyed() || c.is_faulty() || stop.load(Ordering::Relaxed) {
                 break 'main;
             }
             let park = match res {
-- 
2.43.0


From c8b8b2b013bdff1a03be8b924db4f2690c787270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:53 +0000
Subject: [PATCH 27/45] fix: run port events and timeouts of dedicated
 components on their own thread

---
 core/src/ports.rs               | 6 ++----
 core/src/timer/timer_manager.rs | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/ports.rs b/core/src/ports.rs
index bf222a2..a81f8a2 100644
--- a/core/src/ports.rs
+++ b/core/src/ports.rs
@@ -393,8 +393,7 @@ impl<P: Port + 'static> ProvidedRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
@@ -465,8 +464,7 @@ impl<P: Port + 'static> RequiredRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 856ae01..e8c3baf 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -358,8 +358,7 @@ impl TimerActorRef {
                 let res = c.core().increment_work();
                 q.push(timeout);
                 if let SchedulingDecision::Schedule = res {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 Ok(())
             }
-- 
2.43.0


From abe7578194859ed4f6addfaa42fbe1f22a8e666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:15 +0000
Subject: [PATCH 28/45] fix: keep the memory of a chunk until all leases and
 references are gone

Dropping an encode buffer, a decode buffer or a buffer pool released the memory of
its chunks even when leases or chunk references into them still existed, e.g. when
a component was deallocated while its messages were still in transit through the
local dispatcher, which drops locked chunks.
---
 core/src/net/buffers/chunk_lease.rs | 10 ++--
 core/src/net/buffers/chunk_ref.rs   |  6 +--
 core/src/net/buffers/mod.rs         | 76 ++++++++++++++++++++---------
 3 files changed, 62 insertions(+), 30 deletions(-)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index 1d5d815..466819b 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -1,7 +1,7 @@
-use super::ChunkRef;
+use super::{ChunkLock, ChunkRef};
 use crate::net::frames::FrameHead;
 use bytes::{Buf, BufMut, Bytes, buf::UninitSlice};
-use std::{cmp::Ordering, ptr::NonNull, sync::Arc};
+use std::{cmp::Ordering, ptr::NonNull};
 
 /// A ChunkLease is a smart-pointer to a byte-slice, implementing [Buf](bytes::Buf) and
 /// [BufMut](bytes::BufMut) interfaces. They are created with one or many distinct slices of
@@ -13,7 +13,7 @@ pub struct ChunkLease {
     write_pointer: usize,
     read_pointer: usize,
     chain_head_len: usize,
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkLease>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ pub struct ChunkLease {
 
 impl ChunkLease {
     /// Creates a new `ChunkLease` from a static byte-slice with already written bytes and a `lock`.
-    pub(crate) fn new(content: &'static mut [u8], lock: Arc<()>) -> ChunkLease {
+    pub(crate) fn new(content: &'static mut [u8], lock: ChunkLock) -> ChunkLease {
         let capacity = content.len();
         let write_pointer = content.len();
         ChunkLease {
@@ -42,7 +42,7 @@ impl ChunkLease {
         unsafe {
             ChunkLease::new(
                 std::slice::from_raw_parts_mut(NonNull::dangling().as_ptr(), 0),
-                Arc::new(()),
+                ChunkLock::empty(),
             )
         }
     }
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index 9673752..0611e04 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -1,5 +1,5 @@
+use super::ChunkLock;
 use crate::prelude::Buf;
-use std::sync::Arc;
 
 /// A `ChunkRef` is created from a `ChunkLease`, or from a `ChunkRef` and a `ChunkLease`.
 /// It is immutable and may be cloned and shared and chained with many other `ChunkRefs`.
@@ -10,7 +10,7 @@ pub struct ChunkRef {
     chain_head_len: usize,
     /// The presence of the `lock` field prevents the parent chunk lease from unlocking, while the chunk ref is allocated.
     #[allow(dead_code)]
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkRef>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ impl ChunkRef {
         content: &'static [u8],
         read_pointer: usize,
         chain_head_len: usize,
-        lock: Arc<()>,
+        lock: ChunkLock,
         chain: Option<Box<ChunkRef>>,
         chain_len: usize,
     ) -> Self {
diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index 4a07143..a94c4dc 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -206,29 +206,62 @@ impl Chunk for DefaultChunk {
 /// All modifications to the Chunk goes through the get_slice method
 pub struct BufferChunk {
     chunk: *mut dyn Chunk,
-    allocator: Arc<dyn ChunkAllocator>,
-    ref_count: Arc<()>,
+    memory: Arc<ChunkMemory>,
     locked: bool,
 }
 
+/// Owns the memory of a [Chunk](Chunk)
+///
+/// It is shared by the [BufferChunk](BufferChunk) and its locks, so that the memory is only
+/// released once nobody can access any part of it anymore.
+struct ChunkMemory {
+    chunk: *mut dyn Chunk,
+    allocator: Arc<dyn ChunkAllocator>,
+}
+
+impl Drop for ChunkMemory {
+    fn drop(&mut self) {
+        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()`, and neither the
+        // `BufferChunk` nor any lock on it exists anymore.
+        unsafe { self.allocator.release(self.chunk) };
+    }
+}
+
+// SAFETY: `ChunkMemory` never dereferences its pointer, but only hands it back to the allocator,
+// which is `Send` and `Sync`, when the last owner is gone.
+unsafe impl Send for ChunkMemory {}
+// SAFETY: same reasoning as for `Send`.
+unsafe impl Sync for ChunkMemory {}
+
+/// A lock that keeps the memory of a [BufferChunk](BufferChunk) from being reused or released
+#[derive(Clone)]
+pub struct ChunkLock {
+    _memory: Option<Arc<ChunkMemory>>,
+}
+
+impl ChunkLock {
+    /// A lock that does not refer to any memory
+    pub(crate) fn empty() -> Self {
+        ChunkLock { _memory: None }
+    }
+}
+
+impl Debug for ChunkLock {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        f.debug_struct("ChunkLock").finish()
+    }
+}
+
 impl Debug for BufferChunk {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("BufferChunk")
             .field("Lock", &self.locked)
             .field("Length", &self.len())
-            .field("RefCount", &Arc::strong_count(&self.ref_count))
+            .field("RefCount", &Arc::strong_count(&self.memory))
             .finish()
     }
 }
 
-impl Drop for BufferChunk {
-    fn drop(&mut self) {
-        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and this `BufferChunk`
-        // owns the allocation uniquely at drop time.
-        unsafe { self.allocator.release(self.chunk) };
-    }
-}
-
 // SAFETY: a `BufferChunk` owns a uniquely referenced allocation plus a lock counter. The raw
 // pointer is only dereferenced behind `&self`/`&mut self`, and the underlying chunk memory is not
 // shared mutably across threads without taking ownership of the whole `BufferChunk`.
@@ -238,20 +271,17 @@ impl BufferChunk {
     /// Allocate a new Default BufferChunk
     pub fn new(size: usize) -> Self {
         let allocator: Arc<dyn ChunkAllocator> = Arc::new(DefaultAllocator { chunk_size: size });
-        BufferChunk {
-            chunk: allocator.get_chunk(),
-            allocator,
-            ref_count: Arc::new(()),
-            locked: false,
-        }
+        Self::from_chunk(allocator.get_chunk(), allocator)
     }
 
     /// Creates a BufferChunk using the given Chunk
     pub fn from_chunk(raw_chunk: *mut dyn Chunk, allocator: Arc<dyn ChunkAllocator>) -> Self {
         BufferChunk {
             chunk: raw_chunk,
-            allocator,
-            ref_count: Arc::new(()),
+            memory: Arc::new(ChunkMemory {
+                chunk: raw_chunk,
+                allocator,
+            }),
             locked: false,
         }
     }
@@ -300,14 +330,16 @@ impl BufferChunk {
     }
 
     /// Clones the lock, the BufferChunk will be locked until all given locks are deallocated
-    pub fn get_lock(&self) -> Arc<()> {
-        self.ref_count.clone()
+    pub fn get_lock(&self) -> ChunkLock {
+        ChunkLock {
+            _memory: Some(self.memory.clone()),
+        }
     }
 
     /// Returns true if this BufferChunk is available again
     pub fn free(&mut self) -> bool {
         if self.locked {
-            if Arc::strong_count(&self.ref_count) < 2 {
+            if Arc::strong_count(&self.memory) < 2 {
                 self.locked = false;
                 true
             } else {
-- 
2.43.0


From 45aff38b2b049e8f96d1d6231cccea2d5f6b2a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 29/45] fix: refuse to register actors at paths that are only
 valid for lookups

Inserting an actor at a named path that ends in a broadcast or select
marker was accepted, although it can never be found there. Aliases and
segments are checked already.
---
 core/src/dispatch/lookup/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/dispatch/lookup/mod.rs b/core/src/dispatch/lookup/mod.rs
index cd958c3..30e5290 100644
--- a/core/src/dispatch/lookup/mod.rs
+++ b/core/src/dispatch/lookup/mod.rs
@@ -216,6 +216,7 @@ impl ActorLookup for ActorStore {
                 }
                 ActorPath::Named(np) => {
                     let keys = np.into_path();
+                    crate::actors::validate_insert_path(&keys)?;
                     let prev = self.name_map.insert_owned(keys, ActorTreeEntry::Ref(actor));
                     Ok(prev.into())
                 }
-- 
2.43.0


From dc8df04b912d76f6457f12c8b22cddda37e06352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:28 +0000
Subject: [PATCH 30/45] fix: do not overflow when the reaper interval grows

With a large maximum or increment, growing the interval overflowed: a
panic in debug builds, and an interval below the minimum in release ones.
---
 core/src/dispatch/lookup/gc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/dispatch/lookup/gc.rs b/core/src/dispatch/lookup/gc.rs
index 865266b..389cf6f 100644
--- a/core/src/dispatch/lookup/gc.rs
+++ b/core/src/dispatch/lookup/gc.rs
@@ -164,8 +164,8 @@ impl UpdateStrategy {
     pub fn incr(&mut self) -> u64 {
         use self::FeedbackAlgorithm::*;
         self.curr = match self.algo {
-            Aimd => self.curr + self.incr,
-            Mimd => self.curr * self.incr,
+            Aimd => self.curr.saturating_add(self.incr),
+            Mimd => self.curr.saturating_mul(self.incr),
         }
         .min(self.max);
         self.curr
-- 
2.43.0


From 2d91ebdb4f5c0714cdb994ca2893c9cea343a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:58 +0000
Subject: [PATCH 31/45] fix: do not panic when routing to a group without
 members

Round-robin and hash routing took the index modulo the number of members.
One message to an empty group, e.g., after all its members had been garbage
collected or before the first one registered, took the dispatcher down.
---
 core/src/routing/groups.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/routing/groups.rs b/core/src/routing/groups.rs
index 0775d09..83d7fba 100644
--- a/core/src/routing/groups.rs
+++ b/core/src/routing/groups.rs
@@ -141,6 +141,10 @@ impl Default for RoundRobinRouting {
 }
 impl RoutingPolicy<DynActorRef, NetMessage> for RoundRobinRouting {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Routing group has no members. Dropping message.");
+            return;
+        }
         let index = self.get_and_increment_index(members.len());
         trace!(logger, "Routing msg to member at index={}", index);
         members[index].tell(msg);
@@ -242,6 +246,10 @@ impl<H: BuildHasher + Clone + Send + Sync + 'static> RoutingPolicy<DynActorRef,
     for SenderHashBucketRouting<H>
 {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Routing group has no members. Dropping message.");
+            return;
+        }
         let index = self.get_bucket(&msg, members.len());
         trace!(
             logger,
-- 
2.43.0


From 11d73f4af5fb88d211a534076a013c8569dd9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 32/45] fix: reject non-ASCII byte sizes before the parser sees
 them

---
 core/src/config/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/config/mod.rs b/core/src/config/mod.rs
index 8ff7790..cb6db7d 100644
--- a/core/src/config/mod.rs
+++ b/core/src/config/mod.rs
@@ -279,7 +279,9 @@ impl ConfigValue {
     pub fn as_bytes(&self) -> Option<u64> {
         match &self.inner {
             ConfigValueInner::Integer(v) if *v >= 0 => Some(*v as u64),
-            ConfigValueInner::String(v) => byte_unit::Byte::parse_str(v, true)
+            // No byte size has other than ASCII characters, and the parser must not see them: for
+            // its error it builds a `char` from their UTF-8 bytes, which need not be a valid one.
+            ConfigValueInner::String(v) if v.is_ascii() => byte_unit::Byte::parse_str(v, true)
                 .ok()
                 .map(|bytes| bytes.as_u64()),
             _ => None,
-- 
2.43.0


From ffc6d969e1f230d8f61c4f18c82ef9840078c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:06 +0000
Subject: [PATCH 33/45] fix: do not send the rest of a partly written frame, or
 a Bye, on a new connection

---
 network/src/transport/network_channel.rs | 84 ++++++++++++++++--------
 1 file changed, 55 insertions(+), 29 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 47f77ea..4169b6e 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -56,9 +56,18 @@ impl ChannelState {
     }
 }
 
+/// A frame waiting to be written
+struct OutboundFrame {
+    frame: SerialisedFrame,
+    /// Part of the frame was written already, `frame` holds only the rest of it
+    started: bool,
+    /// The frame belongs to the connection (handshake or closing), it must not be sent on any other
+    control: bool,
+}
+
 pub(crate) struct TcpChannel {
     stream: TcpStream,
-    outbound_queue: VecDeque<SerialisedFrame>,
+    outbound_queue: VecDeque<OutboundFrame>,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -116,8 +125,7 @@ impl TcpChannel {
         let mut bytes = BytesMut::with_capacity(len);
         bytes.truncate(len);
         if let Ok(()) = frame.encode_into(&mut bytes) {
-            self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bytes.freeze()));
+            self.enqueue_control(SerialisedFrame::Bytes(bytes.freeze()));
             // If there is a fatal error during a handshake the connection will be re-attempted
             let _ = self.try_drain();
         } else {
@@ -191,12 +199,21 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Removes all frames which could still be sent on another connection.
+    ///
+    /// A frame which was written in part can't be, as only its end is left.
+    /// Frames that belong to this connection (such as `Bye`) are discarded as well.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
-        let mut ret = Vec::new();
-        while let Some(frame) = self.outbound_queue.pop_front() {
-            ret.push(frame);
-        }
-        ret
+        self.outbound_queue
+            .drain(..)
+            .filter(|outbound| !outbound.started && !outbound.control)
+            .map(|outbound| outbound.frame)
+            .collect()
+    }
+
+    /// Returns true if there are frames which have not been written completely
+    pub fn has_outbound(&self) -> bool {
+        !self.outbound_queue.is_empty()
     }
 
     /// Performs receive and decode, should be called repeatedly
@@ -274,8 +291,7 @@ impl TcpChannel {
         let len = bye.encoded_len() + FRAME_HEAD_LEN as usize;
         bye_bytes.truncate(len);
         if let Ok(()) = bye.encode_into(&mut bye_bytes) {
-            self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bye_bytes.freeze()));
+            self.enqueue_control(SerialisedFrame::Bytes(bye_bytes.freeze()));
             let _ = self.try_drain(); // Try to drain outgoing
         } else {
             panic!("Unable to send bye bytes, failed to encode!");
@@ -335,55 +351,65 @@ impl TcpChannel {
     /// Enqueues the frame for sending on the channel.
     /// Enquing to a non-connected channel is disallowed.
     pub fn enqueue_serialised(&mut self, serialized: SerialisedFrame) {
-        self.outbound_queue.push_back(serialized);
+        self.outbound_queue.push_back(OutboundFrame {
+            frame: serialized,
+            started: false,
+            control: false,
+        });
+    }
+
+    fn enqueue_control(&mut self, serialized: SerialisedFrame) {
+        self.outbound_queue.push_back(OutboundFrame {
+            frame: serialized,
+            started: false,
+            control: true,
+        });
     }
 
     /// Tries to drain the outbound buffer into
     pub fn try_drain(&mut self) -> io::Result<usize> {
         let mut sent_bytes: usize = 0;
         let mut interrupts = 0;
-        while let Some(mut serialized_frame) = self.outbound_queue.pop_front() {
-            match self.write_serialized(&serialized_frame) {
+        while let Some(mut outbound) = self.outbound_queue.pop_front() {
+            match self.write_serialized(&outbound.frame) {
                 Ok(n) => {
                     sent_bytes += n;
-                    match &mut serialized_frame {
+                    let complete = match &mut outbound.frame {
                         // Split the data and continue sending the rest later if we sent less than the full frame
                         SerialisedFrame::Bytes(bytes) => {
-                            if n < bytes.len() {
-                                let _ = bytes.split_to(n); // Discard the already sent split off part.
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
+                            let _ = bytes.split_to(n); // Discard the already sent split off part.
+                            bytes.is_empty()
                         }
                         SerialisedFrame::ChunkLease(chunk) => {
-                            if n < chunk.remaining() {
-                                chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
+                            chunk.advance(n);
+                            !chunk.has_remaining()
                         }
                         SerialisedFrame::ChunkRef(chunk) => {
-                            if n < chunk.remaining() {
-                                chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
+                            chunk.advance(n);
+                            !chunk.has_remaining()
                         }
+                    };
+                    if !complete {
+                        outbound.started |= n > 0;
+                        self.outbound_queue.push_front(outbound);
                     }
                     // Continue looping for the next message
                 }
                 // Would block "errors" are the OS's way of saying that the
                 // connection is not actually ready to perform this I/O operation.
                 Err(ref err) if would_block(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Ok(sent_bytes);
                 }
                 Err(err) if interrupted(&err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     interrupts += 1;
                     if interrupts >= MAX_INTERRUPTS {
                         return Err(err);
                     }
                 }
                 Err(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Err(err);
                 }
             }
-- 
2.43.0


From bb2e39fa2deb6bf42485cff1e08f7f1ce9dc5d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:06 +0000
Subject: [PATCH 34/45] fix: finish writing before answering a Bye counts as
 done

---
 network/src/transport/network_thread.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b743632..55450d8 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -448,7 +448,9 @@ impl NetworkThread {
                     self.lost_connection(channel);
                 }
                 Ok(_) => {
-                    if let ChannelState::CloseReceived(addr, id) = channel.state {
+                    if let ChannelState::CloseReceived(addr, id) = channel.state
+                        && !channel.has_outbound()
+                    {
                         channel.state = ChannelState::Closed(addr, id);
                         debug!(self.log, "Connection to {} shutdown gracefully", &addr);
                         self.deregister_channel(channel.deref_mut());
-- 
2.43.0


From 4ce45f91f2eeac5fb55ef990f6115d1c2c2b15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:16 +0000
Subject: [PATCH 35/45] fix: unexpected or undecodable frames must not panic
 the network thread

---
 network/src/transport/network_channel.rs | 13 ++++++--
 network/src/transport/network_thread.rs  | 41 +++++++++++++++++++-----
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 4169b6e..1a483b4 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -185,13 +185,17 @@ impl TcpChannel {
         self.address
     }
 
-    pub fn handle_ack(&mut self) {
+    /// Returns true if the Ack completes the handshake.
+    pub fn handle_ack(&mut self) -> bool {
         if let ChannelState::Initialised(addr, id) = self.state {
             // An Ack was received. Transition the channel.
             self.stream
                 .set_nodelay(self.nodelay)
                 .expect("set nodelay failed");
             self.state = ChannelState::Connected(addr, id);
+            true
+        } else {
+            false
         }
     }
 
@@ -240,8 +244,11 @@ impl TcpChannel {
         match self.decode() {
             Ok(Frame::Hello(hello)) => Ok(Some(Frame::Hello(hello))),
             Ok(Frame::Ack()) => {
-                self.handle_ack();
-                Ok(Some(Frame::Ack()))
+                if self.handle_ack() {
+                    Ok(Some(Frame::Ack()))
+                } else {
+                    Err(Error::new(ErrorKind::InvalidData, "Unexpected Ack"))
+                }
             }
             Ok(Frame::Bye()) => {
                 self.handle_bye();
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 55450d8..cd96651 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -365,11 +365,25 @@ impl NetworkThread {
                         return;
                     }
                     Ok(Some(Frame::Data(data))) => {
-                        self.handle_data_frame(
-                            data,
-                            channel
-                                .session_id()
-                                .expect("Connected Channel must have a SessionId"),
+                        if let Some(session) = channel.session_id() {
+                            self.handle_data_frame(data, session);
+                        } else {
+                            warn!(
+                                self.log,
+                                "Data before the handshake from {}, dropping the connection",
+                                channel.address()
+                            );
+                            self.drop_channel(&mut channel);
+                            return;
+                        }
+                    }
+                    Ok(Some(Frame::Start(_)))
+                        if !matches!(channel.state, ChannelState::Initialising) =>
+                    {
+                        warn!(
+                            self.log,
+                            "Ignoring unexpected Start from {}",
+                            channel.address()
                         );
                     }
                     Ok(Some(Frame::Start(start))) => {
@@ -559,9 +573,20 @@ impl NetworkThread {
 
     fn handle_data_frame(&self, data: Data, session: SessionId) {
         let buf = data.payload();
-        let mut envelope = deserialise_chunk_lease(buf).expect("s11n errors");
-        envelope.set_session(session);
-        self.deliver_net_message(envelope);
+        match deserialise_chunk_lease(buf) {
+            Ok(mut envelope) => {
+                envelope.set_session(session);
+                self.deliver_net_message(envelope);
+            }
+            Err(e) => {
+                warn!(
+                    self.log,
+                    "Could not deserialise data frame of session {:?}, dropping message: {}",
+                    session,
+                    e
+                );
+            }
+        }
     }
 
     fn deliver_net_message(&self, envelope: NetMessage) {
-- 
2.43.0


From 23a3e33db4d814a57f31259cde4c75766dd4e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:11 +0000
Subject: [PATCH 36/45] fix: ignore a Hello on a connection that did not ask
 for one

---
 network/src/transport/network_thread.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index cd96651..2098b50 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -386,6 +386,15 @@ impl NetworkThread {
                             channel.address()
                         );
                     }
+                    Ok(Some(Frame::Hello(_)))
+                        if !matches!(channel.state, ChannelState::Requested(_, _)) =>
+                    {
+                        warn!(
+                            self.log,
+                            "Ignoring unexpected Hello from {}",
+                            channel.address()
+                        );
+                    }
                     Ok(Some(Frame::Start(start))) => {
                         self.handle_start(event, &mut channel, &start);
                         return;
-- 
2.43.0


From 5007e0079cadd696704d123f07fc0e53bdf6e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:11 +0000
Subject: [PATCH 37/45] fix: a bad UDP datagram or an unsendable one must not
 affect others

---
 core/src/net/buffers/decode_buffer.rs |  7 +++++++
 network/src/transport/udp_state.rs    | 14 ++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 2c48d72..1c7fe5c 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -111,6 +111,13 @@ impl DecodeBuffer {
         Ok(false)
     }
 
+    /// Discards all bytes that were buffered but not decoded.
+    pub fn clear(&mut self) {
+        self.read_offset = self.write_offset;
+        self.next_frame_head = None;
+        self.chain_head = None;
+    }
+
     /// Swaps the underlying buffer in place with `other`.
     ///
     /// Afterwards `other` owns the used up bytes and is locked.
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 8ea914a..ec6fe13 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -69,10 +69,15 @@ impl UdpState {
                         return Err(err);
                     }
                 }
-                // Other errors we'll consider fatal.
+                // Other errors concern only this frame (e.g. it is too large), so it is dropped.
                 Err(err) => {
-                    self.outbound_queue.push_front((addr, frame));
-                    return Err(err);
+                    warn!(
+                        self.logger,
+                        "Could not send UDP frame of {} bytes to {}, dropping it: {}",
+                        frame.len(),
+                        addr,
+                        err
+                    );
                 }
             }
         }
@@ -105,11 +110,12 @@ impl UdpState {
                 match self.socket.recv_from(buf) {
                     Ok((0, addr)) => {
                         debug!(self.logger, "Got empty UDP datagram from {}", addr);
-                        return Ok(());
                     }
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
                         self.decode_message(addr);
+                        // Whatever is left does not belong to the next datagram
+                        self.input_buffer.clear();
                     }
                     Err(err) if would_block(&err) => {
                         return Ok(());
-- 
2.43.0


From 5c830a0b41af5d8975fbdef832779467692ee97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 38/45] fix: allowing a system lifts its block, and blocking it
 ends its permission (N05)

---
 network/src/dispatcher.rs               | 6 +++++-
 network/src/transport/network_thread.rs | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index d3ab418..e16a758 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -542,7 +542,11 @@ impl NetworkDispatcher {
                         .trigger(NetworkStatus::BlockedIpNet(ip_net));
                 }
                 NetworkStatus::AllowedSystem(system_path) => {
-                    self.connections.remove(&system_path.socket_address());
+                    // Allowing a system that wasn't blocked leaves its connection as it is.
+                    let addr = system_path.socket_address();
+                    if let Some(ConnectionState::Blocked) = self.connections.get(&addr) {
+                        self.connections.remove(&addr);
+                    }
                     self.network_status_port
                         .trigger(NetworkStatus::AllowedSystem(system_path));
                 }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 2098b50..f688d49 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1249,14 +1249,14 @@ impl BlockList {
 
     /// Returns true if the rule-set has been modified
     fn block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
-        self.allowed_socket_addr.remove(&socket_addr)
-            || self.blocked_socket_addr.insert(socket_addr)
+        let was_allowed = self.allowed_socket_addr.remove(&socket_addr);
+        self.blocked_socket_addr.insert(socket_addr) || was_allowed
     }
 
     /// Returns true if the rule-set has been modified
     fn allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
-        self.blocked_socket_addr.remove(socket_addr)
-            || self.allowed_socket_addr.insert(*socket_addr)
+        let was_blocked = self.blocked_socket_addr.remove(socket_addr);
+        self.allowed_socket_addr.insert(*socket_addr) || was_blocked
     }
 
     /// Returns true if the IpAddr is fully blocked, i.e. it's Blocked and there's no Allowed SocketAddr with the given IP
-- 
2.43.0


From 4b7c5511069aa58f60790df298003c111b28369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:30 +0000
Subject: [PATCH 39/45] fix: a connect, close or retry request must not cut off
 a handshake or closing in progress (N02)

A connection replaced by a newer one is reported as lost and its frames are kept,
a peer's abandoned attempt does not replace a working connection, a closing
connection writes everything before it ends, and messages sent while rejected
ones are on their way back do not overtake them.
---
 network/src/dispatcher.rs                |  6 +++
 network/src/transport/network_channel.rs | 43 ++++++++++++------
 network/src/transport/network_thread.rs  | 55 ++++++++++++++++++------
 3 files changed, 77 insertions(+), 27 deletions(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index e16a758..1b4e123 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -570,6 +570,12 @@ impl NetworkDispatcher {
                 // These are messages which we routed to a network-thread before they lost the connection.
                 self.queue_manager.enqueue_priority_data(*data, addr);
                 self.retry_map.entry(addr).or_insert(0);
+                // The connection is about to end, later messages must not overtake the rejected ones
+                if let Some(state) = self.connections.get_mut(&addr)
+                    && let ConnectionState::Connected(id) = *state
+                {
+                    *state = ConnectionState::Lost(id);
+                }
             }
         }
     }
diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 1a483b4..1a9fe4a 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -16,6 +16,7 @@ use std::{
     io,
     io::{Error, ErrorKind, Read, Write},
     net::{Shutdown::Both, SocketAddr},
+    time::{Duration, Instant},
 };
 
 /// Received connection: Initialising -> Say Hello, Receive Start -> Connected, Send Ack
@@ -75,6 +76,8 @@ pub(crate) struct TcpChannel {
     pub messages: u32,
     own_addr: SocketAddr,
     nodelay: bool,
+    /// When the handshake or the closing in progress began
+    since: Instant,
 }
 
 impl TcpChannel {
@@ -98,6 +101,7 @@ impl TcpChannel {
             messages: 0,
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
+            since: Instant::now(),
         }
     }
 
@@ -119,6 +123,25 @@ impl TcpChannel {
         self.state.session_id()
     }
 
+    /// How long the handshake or the closing is in progress.
+    pub fn in_progress_for(&self) -> Duration {
+        self.since.elapsed()
+    }
+
+    /// Returns true if there is an error on the socket
+    pub fn is_broken(&self) -> bool {
+        !matches!(self.stream.take_error(), Ok(None))
+    }
+
+    /// Returns true if the remote end closed the connection and everything it sent was read
+    pub fn is_closed_by_peer(&self) -> bool {
+        let mut buf = [0u8; 1];
+        match self.stream.peek(&mut buf) {
+            Ok(n) => n == 0,
+            Err(err) => !would_block(&err) && !interrupted(&err),
+        }
+    }
+
     /// Internal helper function for special frames
     fn send_frame(&mut self, mut frame: Frame) {
         let len = frame.encoded_len() + FRAME_HEAD_LEN as usize;
@@ -133,20 +156,6 @@ impl TcpChannel {
         }
     }
 
-    /// Checks the socket for errors and returns the current state
-    pub fn read_state(&mut self) -> &ChannelState {
-        match self.stream.take_error() {
-            Ok(Some(error)) => {
-                self.state = ChannelState::Error(error);
-            }
-            Err(error) => {
-                self.state = ChannelState::Error(error);
-            }
-            _ => (), // ignore
-        }
-        &self.state
-    }
-
     pub fn initialise(&mut self, addr: &SocketAddr) {
         if let ChannelState::Initialising = self.state {
             // We must send enqueue Hello and await reply
@@ -316,10 +325,15 @@ impl TcpChannel {
         match self.state {
             ChannelState::Connected(addr, id) => {
                 self.state = ChannelState::CloseReceived(addr, id);
+                self.since = Instant::now();
                 if self.send_bye().is_ok() {
                     self.state = ChannelState::Closed(addr, id);
                 }
             }
+            // The own Bye may still wait behind other frames
+            ChannelState::CloseRequested(addr, id) if self.has_outbound() => {
+                self.state = ChannelState::CloseReceived(addr, id)
+            }
             ChannelState::CloseRequested(addr, id) => self.state = ChannelState::Closed(addr, id),
             _ => {}
         }
@@ -330,6 +344,7 @@ impl TcpChannel {
     pub fn initiate_graceful_shutdown(&mut self) {
         if let ChannelState::Connected(addr, id) = self.state {
             self.state = ChannelState::CloseRequested(addr, id);
+            self.since = Instant::now();
             let _ = self.send_bye();
         }
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index f688d49..133d3fe 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -653,21 +653,23 @@ impl NetworkThread {
                 self.log,
                 "Merging channels {:?} and {:?}", channel, other_channel
             );
-            match other_channel.read_state() {
-                ChannelState::Connected(_, _) => {
-                    if other_channel.messages == 0 {
-                        self.drop_channel(channel);
-                        return;
-                    } else {
-                        self.lost_connection(other_channel);
-                    }
-                }
-                ChannelState::Requested(_, other_id) if other_id.as_u128() > start.id.as_u128() => {
+            match other_channel.state {
+                // Without messages, or with a peer that gave the new one up, the old one prevails
+                ChannelState::Connected(_, _)
+                    if !other_channel.is_broken()
+                        && (other_channel.messages == 0 || channel.is_closed_by_peer()) =>
+                {
                     self.drop_channel(channel);
                     return;
                 }
-                ChannelState::Initialised(_, other_id)
-                    if other_id.as_u128() > start.id.as_u128() =>
+                ChannelState::Connected(_, _)
+                | ChannelState::CloseRequested(_, _)
+                | ChannelState::CloseReceived(_, _) => {
+                    self.lost_connection(other_channel);
+                    self.drop_channel(&mut other_channel_rc.borrow_mut());
+                }
+                ChannelState::Requested(_, other_id) | ChannelState::Initialised(_, other_id)
+                    if other_id.as_u128() > start.id.as_u128() && !other_channel.is_broken() =>
                 {
                     self.drop_channel(channel);
                     return;
@@ -753,6 +755,24 @@ impl NetworkThread {
                     );
                     return;
                 }
+                ChannelState::Requested(_, _)
+                | ChannelState::Initialised(_, _)
+                | ChannelState::CloseRequested(_, _)
+                | ChannelState::CloseReceived(_, _)
+                    if channel.in_progress_for() < self.retry_interval() / 2
+                        && !channel.is_broken() =>
+                {
+                    debug!(
+                        self.log,
+                        "Requested connection to host while connecting or closing {}", &address
+                    );
+                    return;
+                }
+                ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _) => {
+                    // Will be re-requested
+                    self.lost_connection(channel);
+                    return;
+                }
                 _ => {
                     self.drop_channel(&mut channel);
                 }
@@ -796,6 +816,10 @@ impl NetworkThread {
         }
     }
 
+    fn retry_interval(&self) -> Duration {
+        Duration::from_millis(self.network_config.get_connection_retry_interval())
+    }
+
     fn receive_stream(&mut self) -> io::Result<()> {
         while let Ok((stream, address)) = self.tcp_listener.accept() {
             if self.block_list.ip_addr_is_blocked(&address.ip()) {
@@ -914,7 +938,12 @@ impl NetworkThread {
             if channel_mut.connected() {
                 channel_mut.initiate_graceful_shutdown();
                 self.update_lru(&channel_mut.token);
-            } else {
+            } else if !matches!(
+                channel_mut.state,
+                ChannelState::CloseRequested(_, _)
+                    | ChannelState::CloseReceived(_, _)
+                    | ChannelState::Closed(_, _)
+            ) {
                 self.drop_channel(channel_mut.deref_mut());
             }
         }
-- 
2.43.0


From 368ac27c1910c34e8ee99c72e7436a6a9050ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:30 +0000
Subject: [PATCH 40/45] fix: messages must not overtake earlier ones when a
 connection closes and the peer opens the next (N02)

Nothing is sent on the next connection before the dispatcher acknowledged the end
of the previous one, and what comes while closing stays behind the unsent frames.
---
 network/src/dispatcher.rs                |  3 +
 network/src/events.rs                    |  2 +
 network/src/transport/network_channel.rs | 32 +++++++++-
 network/src/transport/network_thread.rs  | 75 +++++++++++++++++-------
 4 files changed, 90 insertions(+), 22 deletions(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index 1b4e123..ba608bf 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -566,6 +566,9 @@ impl NetworkDispatcher {
                     .trigger(NetworkStatus::HardConnectionLimitReached),
                 NetworkStatus::CriticalNetworkFailure => self.handle_network_failure(),
             },
+            NetworkDispatcherEvent::Deferred(addr) => {
+                self.retry_map.entry(addr).or_insert(0);
+            }
             NetworkDispatcherEvent::RejectedData((addr, data)) => {
                 // These are messages which we routed to a network-thread before they lost the connection.
                 self.queue_manager.enqueue_priority_data(*data, addr);
diff --git a/network/src/events.rs b/network/src/events.rs
index 2484392..3c49386 100644
--- a/network/src/events.rs
+++ b/network/src/events.rs
@@ -72,6 +72,8 @@ pub enum NetworkStatusRequest {
 pub(crate) enum NetworkDispatcherEvent {
     /// A status update from the transport threads.
     Network(NetworkStatus),
+    /// Data waits for a closing connection to end, a new one is needed afterwards.
+    Deferred(SocketAddr),
     /// Data that the transport thread could not deliver and must requeue.
     RejectedData((SocketAddr, Box<DispatchData>)),
 }
diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 1a9fe4a..6e779fa 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -1,6 +1,6 @@
 use super::*;
 use crate::{
-    messaging::SerialisedFrame,
+    messaging::{DispatchData, SerialisedFrame},
     net::{
         buffers::{BufferChunk, BufferPool, DecodeBuffer},
         frames::{FRAME_HEAD_LEN, Frame, FramingError, Hello, Start},
@@ -69,6 +69,8 @@ struct OutboundFrame {
 pub(crate) struct TcpChannel {
     stream: TcpStream,
     outbound_queue: VecDeque<OutboundFrame>,
+    /// Messages that came while the channel was closing, they go out on the next connection
+    deferred: Vec<DispatchData>,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -78,6 +80,9 @@ pub(crate) struct TcpChannel {
     nodelay: bool,
     /// When the handshake or the closing in progress began
     since: Instant,
+    /// The dispatcher did not acknowledge the end of the previous connection to the same address yet.
+    /// Until then it isn't told about this one, and nothing it sends may go out here.
+    pub unannounced: bool,
 }
 
 impl TcpChannel {
@@ -94,6 +99,7 @@ impl TcpChannel {
         TcpChannel {
             stream,
             outbound_queue: VecDeque::new(),
+            deferred: Vec::new(),
             token,
             address,
             input_buffer,
@@ -102,6 +108,7 @@ impl TcpChannel {
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
             since: Instant::now(),
+            unannounced: false,
         }
     }
 
@@ -224,6 +231,24 @@ impl TcpChannel {
             .collect()
     }
 
+    /// Returns true if the channel is being closed in either direction
+    pub fn closing(&self) -> bool {
+        matches!(
+            self.state,
+            ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _)
+        )
+    }
+
+    /// Keeps a message behind the outbound frames, without sending it.
+    pub fn defer(&mut self, data: DispatchData) {
+        self.deferred.push(data);
+    }
+
+    /// Removes all messages which came while the channel was closing.
+    pub fn take_deferred(&mut self) -> Vec<DispatchData> {
+        std::mem::take(&mut self.deferred)
+    }
+
     /// Returns true if there are frames which have not been written completely
     pub fn has_outbound(&self) -> bool {
         !self.outbound_queue.is_empty()
@@ -352,7 +377,10 @@ impl TcpChannel {
     /// Shuts down the channel stream
     pub fn shutdown(&mut self) {
         let _ = self.stream.shutdown(Both); // Discard errors while closing channels for now...
-        if let ChannelState::Connected(addr, id) = self.state {
+        if let ChannelState::Connected(addr, id)
+        | ChannelState::CloseRequested(addr, id)
+        | ChannelState::CloseReceived(addr, id) = self.state
+        {
             self.state = ChannelState::Closed(addr, id);
         }
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 133d3fe..24de58d 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -477,10 +477,7 @@ impl NetworkThread {
                         channel.state = ChannelState::Closed(addr, id);
                         debug!(self.log, "Connection to {} shutdown gracefully", &addr);
                         self.deregister_channel(channel.deref_mut());
-                        self.notify_network_status(NetworkStatus::ConnectionClosed(
-                            SystemPath::with_socket(Transport::Tcp, channel.address()),
-                            id,
-                        ));
+                        self.notify_closed(&channel, id);
                         self.reject_outbound_for_channel(&mut channel);
                     }
                 }
@@ -509,7 +506,7 @@ impl NetworkThread {
         if let Some(channel_rc) = self.get_channel_by_address(&address) {
             let mut channel = channel_rc.borrow_mut();
             self.update_lru(&channel.token);
-            if channel.connected() {
+            if channel.connected() && !channel.unannounced {
                 match self.serialise_dispatch_data(data) {
                     Ok(frame) => {
                         channel.enqueue_serialised(frame);
@@ -527,6 +524,12 @@ impl NetworkThread {
                         error!(self.log, "Error serialising message {}", e);
                     }
                 }
+            } else if channel.closing() && !channel.unannounced {
+                // It must stay behind the frames that are not sent yet
+                channel.defer(data);
+                self.dispatcher_ref.tell(DispatchEnvelope::Event(Box::new(
+                    NetworkDispatcherEvent::Deferred(address),
+                )));
             } else {
                 trace!(
                     self.log,
@@ -667,6 +670,11 @@ impl NetworkThread {
                 | ChannelState::CloseReceived(_, _) => {
                     self.lost_connection(other_channel);
                     self.drop_channel(&mut other_channel_rc.borrow_mut());
+                    channel.unannounced = true;
+                }
+                ChannelState::Closed(_, _) => {
+                    self.drop_channel(other_channel.deref_mut());
+                    channel.unannounced = true;
                 }
                 ChannelState::Requested(_, other_id) | ChannelState::Initialised(_, other_id)
                     if other_id.as_u128() > start.id.as_u128() && !other_channel.is_broken() =>
@@ -683,21 +691,20 @@ impl NetworkThread {
         channel.handle_start(start);
         self.retry_event(event);
         self.check_soft_connection_limit();
-        self.notify_network_status(NetworkStatus::ConnectionEstablished(
-            SystemPath::with_socket(Transport::Tcp, start.addr),
-            start.id,
-        ));
+        if !channel.unannounced {
+            self.notify_network_status(NetworkStatus::ConnectionEstablished(
+                SystemPath::with_socket(Transport::Tcp, start.addr),
+                start.id,
+            ));
+        }
     }
 
     fn handle_bye(&mut self, channel: &mut TcpChannel) {
         match channel.state {
-            ChannelState::Closed(addr, id) => {
+            ChannelState::Closed(_, id) => {
                 debug!(self.log, "Connection shutdown gracefully");
                 self.deregister_channel(channel);
-                self.notify_network_status(NetworkStatus::ConnectionClosed(
-                    SystemPath::with_socket(Transport::Tcp, addr),
-                    id,
-                ));
+                self.notify_closed(channel, id);
                 self.reject_outbound_for_channel(channel);
             }
             ChannelState::CloseReceived(_, _) => {}
@@ -710,10 +717,23 @@ impl NetworkThread {
     fn handle_closed_ack(&mut self, address: SocketAddr) {
         if let Some(channel_rc) = self.get_channel_by_address(&address) {
             let mut channel = channel_rc.borrow_mut();
-            if let ChannelState::Connected(_, _) = channel.state {
-                error!(self.log, "ClosedAck for connected Channel: {:#?}", &channel);
-            } else {
-                self.drop_channel(&mut channel)
+            let unannounced = std::mem::take(&mut channel.unannounced);
+            match channel.state {
+                // The next connection came up before the end of the previous one was acknowledged
+                ChannelState::Connected(addr, id)
+                | ChannelState::CloseRequested(addr, id)
+                | ChannelState::CloseReceived(addr, id)
+                    if unannounced =>
+                {
+                    self.notify_network_status(NetworkStatus::ConnectionEstablished(
+                        SystemPath::with_socket(Transport::Tcp, addr),
+                        id,
+                    ));
+                }
+                ChannelState::Connected(_, _) => {
+                    error!(self.log, "ClosedAck for connected Channel: {:#?}", &channel);
+                }
+                _ => self.drop_channel(&mut channel),
             }
         } else {
             error!(
@@ -723,6 +743,15 @@ impl NetworkThread {
         }
     }
 
+    fn notify_closed(&self, channel: &TcpChannel, id: SessionId) {
+        if !channel.unannounced {
+            self.notify_network_status(NetworkStatus::ConnectionClosed(
+                SystemPath::with_socket(Transport::Tcp, channel.address()),
+                id,
+            ));
+        }
+    }
+
     fn drop_channel(&mut self, channel: &mut TcpChannel) {
         self.deregister_channel(channel);
         self.address_map.remove(&channel.address());
@@ -760,7 +789,8 @@ impl NetworkThread {
                 | ChannelState::CloseRequested(_, _)
                 | ChannelState::CloseReceived(_, _)
                     if channel.in_progress_for() < self.retry_interval() / 2
-                        && !channel.is_broken() =>
+                        && !channel.is_broken()
+                        && !channel.is_closed_by_peer() =>
                 {
                     debug!(
                         self.log,
@@ -952,7 +982,9 @@ impl NetworkThread {
     /// Handles all logic necessary to shutdown a channel for which the connection has been lost.
     fn lost_connection(&mut self, mut channel: RefMut<TcpChannel>) {
         trace!(self.log, "Lost connection to address {}", channel.address());
-        if let Some(id) = channel.session_id() {
+        if let Some(id) = channel.session_id()
+            && !channel.unannounced
+        {
             self.notify_network_status(NetworkStatus::ConnectionLost(
                 SystemPath::with_socket(Transport::Tcp, channel.address()),
                 id,
@@ -969,6 +1001,9 @@ impl NetworkThread {
         for rejected_frame in channel.take_outbound() {
             self.reject_dispatch_data(channel.address(), DispatchData::Serialised(rejected_frame));
         }
+        for data in channel.take_deferred() {
+            self.reject_dispatch_data(channel.address(), data);
+        }
     }
 
     fn stop(&mut self) {
-- 
2.43.0


From edbc240445312e9d059bc335ad15641f72f05833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:24 +0000
Subject: [PATCH 41/45] fix: a connection that the remote end closed was kept,
 using up the connection limit and buffers

---
 network/src/transport/network_channel.rs | 8 ++++++++
 network/src/transport/network_thread.rs  | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 6e779fa..74ad82d 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -78,6 +78,8 @@ pub(crate) struct TcpChannel {
     pub messages: u32,
     own_addr: SocketAddr,
     nodelay: bool,
+    /// The remote end will send nothing more
+    ended: bool,
     /// When the handshake or the closing in progress began
     since: Instant,
     /// The dispatcher did not acknowledge the end of the previous connection to the same address yet.
@@ -107,6 +109,7 @@ impl TcpChannel {
             messages: 0,
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
+            ended: false,
             since: Instant::now(),
             unannounced: false,
         }
@@ -289,6 +292,10 @@ impl TcpChannel {
                 Ok(Some(Frame::Bye()))
             }
             Ok(frame) => Ok(Some(frame)),
+            Err(FramingError::NoData) if self.ended => Err(Error::new(
+                ErrorKind::ConnectionReset,
+                "The remote end closed the connection",
+            )),
             Err(FramingError::NoData) => Ok(None),
             Err(_) => Err(Error::new(ErrorKind::InvalidData, "Framing Error")),
         }
@@ -304,6 +311,7 @@ impl TcpChannel {
                 .ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "No Buffer Space"))?;
             match self.stream.read(buf) {
                 Ok(0) => {
+                    self.ended = true;
                     return Ok(());
                 }
                 Ok(n) => {
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 24de58d..0cfb88f 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -426,7 +426,13 @@ impl NetworkThread {
                             "Connection lost, reset by peer {}",
                             channel.address()
                         );
-                        self.lost_connection(channel);
+                        match channel.state {
+                            ChannelState::Connected(_, _)
+                            | ChannelState::CloseRequested(_, _)
+                            | ChannelState::CloseReceived(_, _) => self.lost_connection(channel),
+                            // The dispatcher knows of no connection that has ended
+                            _ => self.drop_channel(&mut channel),
+                        }
                         return;
                     }
                     Err(e) => {
-- 
2.43.0


From d4ee967828544223079f8b6a574c55770cb9f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:00 +0000
Subject: [PATCH 42/45] fix: a connection with undecodable data was kept, using
 up the connection limit and buffers

---
 network/src/transport/network_thread.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 0cfb88f..c49eee0 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -426,13 +426,7 @@ impl NetworkThread {
                             "Connection lost, reset by peer {}",
                             channel.address()
                         );
-                        match channel.state {
-                            ChannelState::Connected(_, _)
-                            | ChannelState::CloseRequested(_, _)
-                            | ChannelState::CloseReceived(_, _) => self.lost_connection(channel),
-                            // The dispatcher knows of no connection that has ended
-                            _ => self.drop_channel(&mut channel),
-                        }
+                        self.end_connection(channel);
                         return;
                     }
                     Err(e) => {
@@ -442,6 +436,10 @@ impl NetworkThread {
                             channel.address(),
                             &e
                         );
+                        if !interrupted(&e) {
+                            // Nothing that can be read follows
+                            self.end_connection(channel);
+                        }
                         return;
                     }
                 }
@@ -985,6 +983,17 @@ impl NetworkThread {
         }
     }
 
+    /// Removes a channel from which nothing can be read any more.
+    fn end_connection(&mut self, mut channel: RefMut<TcpChannel>) {
+        match channel.state {
+            ChannelState::Connected(_, _)
+            | ChannelState::CloseRequested(_, _)
+            | ChannelState::CloseReceived(_, _) => self.lost_connection(channel),
+            // The dispatcher knows of no connection that has ended
+            _ => self.drop_channel(&mut channel),
+        }
+    }
+
     /// Handles all logic necessary to shutdown a channel for which the connection has been lost.
     fn lost_connection(&mut self, mut channel: RefMut<TcpChannel>) {
         trace!(self.log, "Lost connection to address {}", channel.address());
-- 
2.43.0


From d4178614c8ef151c7c3f1bb145ac5696e67fdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:37 +0000
Subject: [PATCH 43/45] fix: one rejected connection that had ended already
 left other pending connections unaccepted

---
 network/src/transport/network_thread.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index c49eee0..a20d4c1 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -861,7 +861,7 @@ impl NetworkThread {
                     self.log,
                     "Rejecting connection request from blocked source: {}", &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                let _ = stream.shutdown(Shutdown::Both); // It may have ended already
             } else if self.check_hard_connection_limit() {
                 warn!(
                     self.log,
@@ -869,7 +869,7 @@ impl NetworkThread {
                 request from {}",
                     &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                let _ = stream.shutdown(Shutdown::Both); // It may have ended already
             } else if let Some(buffer) = self.get_buffer() {
                 trace!(self.log, "Accepting connection from {}", &address);
                 self.store_stream(stream, address, ChannelState::Initialising, buffer);
@@ -880,7 +880,7 @@ impl NetworkThread {
                 request from {}",
                     &address
                 );
-                stream.shutdown(Shutdown::Both)?;
+                let _ = stream.shutdown(Shutdown::Both); // It may have ended already
             }
         }
         Ok(())
-- 
2.43.0


From 6486668e92addd6b3ac7d39c63f0e0d76097e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:19 +0000
Subject: [PATCH 44/45] fix: a connection attempt that its peer gave up cut off
 the connection being closed (N07)

---
 network/src/transport/network_thread.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index a20d4c1..1a81dec 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -660,11 +660,15 @@ impl NetworkThread {
                 self.log,
                 "Merging channels {:?} and {:?}", channel, other_channel
             );
+            if channel.is_closed_by_peer() {
+                // The peer gave the new one up
+                self.drop_channel(channel);
+                return;
+            }
             match other_channel.state {
-                // Without messages, or with a peer that gave the new one up, the old one prevails
+                // Without messages the old one prevails
                 ChannelState::Connected(_, _)
-                    if !other_channel.is_broken()
-                        && (other_channel.messages == 0 || channel.is_closed_by_peer()) =>
+                    if !other_channel.is_broken() && other_channel.messages == 0 =>
                 {
                     self.drop_channel(channel);
                     return;
-- 
2.43.0


From e8db00552413f0a017332ed7fd9b254da71d99e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:05 +0000
Subject: [PATCH 45/45] fix: a request to connect to a system that is not
 reached over TCP must not panic the dispatcher (N02)

---
 network/src/dispatcher.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index ba608bf..227048a 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -1069,10 +1069,14 @@ impl Provide<NetworkStatusPort> for NetworkDispatcher {
                 self.close_channel(system_path.socket_address());
             }
             NetworkStatusRequest::ConnectSystem(system_path) => {
-                if let Some(bridge) = &self.net_bridge {
-                    bridge
-                        .connect(system_path.protocol(), system_path.socket_address())
-                        .unwrap();
+                if let Some(bridge) = &self.net_bridge
+                    && let Err(e) =
+                        bridge.connect(system_path.protocol(), system_path.socket_address())
+                {
+                    error!(
+                        self.ctx.log(),
+                        "Could not connect to {}: {:?}", system_path, e
+                    );
                 }
             }
             NetworkStatusRequest::BlockIp(ip_addr) => {
-- 
2.43.0

