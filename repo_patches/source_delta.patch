From 508651db453a2d270f73f45331f77241836a64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 01/12] fix: write_byte fails instead of dropping the byte when
 the transport takes nothing, and retries interrupted writes

---
 src/thrift/protocol/compact_stream_write.rs | 3 ++-
 src/thrift/protocol/compact_write.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index d842eee..ea9d69b 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -273,6 +273,7 @@ where
     //
 
     async fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).await.map_err(From::from)
+        self.transport.write_all(&[b]).await?;
+        Ok(1)
     }
 }
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index 906d579..f8330e1 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -244,7 +244,8 @@ where
     //
 
     fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).map_err(From::from)
+        self.transport.write_all(&[b])?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 48f3750cc250614e21053638c2ec2ffade770856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 02/12] fix: async write_map_begin counts the bytes of the map
 size

---
 src/thrift/protocol/compact_stream_write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index ea9d69b..cb1e8d4 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -244,7 +244,8 @@ where
         if identifier.size == 0 {
             self.write_byte(0).await
         } else {
-            self.transport.write_varint_async(identifier.size).await?;
+            let mut written = 0;
+            written += self.transport.write_varint_async(identifier.size).await?;
 
             let key_type = identifier
                 .key_type
@@ -257,7 +258,8 @@ where
             let val_type_byte = collection_type_to_u8(val_type);
 
             let map_type_header = key_type_byte | val_type_byte;
-            self.write_byte(map_type_header).await
+            written += self.write_byte(map_type_header).await?;
+            Ok(written)
         }
     }
 
-- 
2.43.0


From c840f93f09343315ee715755e1e9079904426aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 03/12] fix: async read_struct_begin charges the size limit
 like the sync one

---
 src/thrift/protocol/compact_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 25e26be..f5f8afb 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -123,6 +123,7 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
+        self.update_remaining::<i16>(1)?;
         self.read_field_id_stack.push(self.last_read_field_id);
         self.last_read_field_id = 0;
         Ok(None)
-- 
2.43.0


From 2f6b4699c24d952ed62cb6198f72534763fd8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 04/12] fix: read_bytes reports a truncated payload instead of
 returning the bytes it found

---
 src/thrift/protocol/compact.rs        | 3 +++
 src/thrift/protocol/compact_stream.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index ec6b329..f2c31b9 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -223,6 +223,9 @@ where
             .by_ref()
             .take(len.try_into()?)
             .read_to_end(&mut buf)?;
+        if buf.len() != len as usize {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index f5f8afb..243a15a 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -217,6 +217,9 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
             .take(len.try_into()?)
             .read_to_end(&mut buf)
             .await?;
+        if buf.len() != len as usize {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
-- 
2.43.0


From 614ecabc81deeaa8d8a04cc3f9dd9ad1d03229d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 05/12] fix: field id deltas over the range of i16 no longer
 overflow

---
 src/thrift/protocol/compact_stream_write.rs | 2 +-
 src/thrift/protocol/compact_write.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index cb1e8d4..8f983c7 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -51,7 +51,7 @@ where
     async fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self
                 .write_byte(((field_delta as u8) << 4) | field_type)
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index f8330e1..5e8a8ad 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -45,7 +45,7 @@ where
     fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self.write_byte(((field_delta as u8) << 4) | field_type)?;
         } else {
-- 
2.43.0


From f10e78bf2cb6995b67b58e638280e8423e993a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 06/12] fix: read_list does not allocate from the declared
 length alone

---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 168aedd..15c7be0 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -211,7 +211,7 @@ pub trait TInputProtocol: Sized {
 
     fn read_list<P: ReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin()?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
         for _ in 0..list_ident.size {
             val.push(P::read_from_in_protocol(self)?);
         }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index ee04bd2..64a8c28 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -118,7 +118,7 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     async fn read_list<P: AsyncReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin().await?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
         for _ in 0..list_ident.size {
             val.push(P::stream_from_in_protocol(self).await?);
         }
-- 
2.43.0


From e3fbae2cb2374f3dea7dbc7d6c681fa392105b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 07/12] fix: read_varint retries interrupted reads like
 read_exact does

---
 src/thrift/varint/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thrift/varint/decode.rs b/src/thrift/varint/decode.rs
index ae032af..1dd23be 100644
--- a/src/thrift/varint/decode.rs
+++ b/src/thrift/varint/decode.rs
@@ -257,7 +257,10 @@ impl<R: io::Read> VarIntReader for R {
         let mut p = VarIntProcessor::new::<VI>();
 
         while !p.finished() {
-            let read = self.read(&mut buf)?;
+            let read = match self.read(&mut buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                read => read?,
+            };
 
             // EOF
             if read == 0 && p.i == 0 {
-- 
2.43.0


From 75527c8f301a938c95b3d8f74215aa194bab16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 08/12] fix: skip_till_depth rejects negative depths

---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 15c7be0..b4f0e86 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -148,7 +148,7 @@ pub trait TInputProtocol: Sized {
     }
     /// Skip a field with type `field_type` recursively up to `depth` levels.
     fn skip_till_depth(&mut self, field_type: TType, depth: i8) -> crate::thrift::Result<()> {
-        if depth == 0 {
+        if depth <= 0 {
             return Err(crate::thrift::Error::Protocol(ProtocolError {
                 kind: ProtocolErrorKind::DepthLimit,
                 message: format!("cannot parse past {:?}", field_type),
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index 64a8c28..f606d8e 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -134,7 +134,7 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     /// Skip a field with type `field_type` recursively up to `depth` levels.
     async fn skip_till_depth(&mut self, field_type: TType, depth: i8) -> Result<()> {
-        if depth == 0 {
+        if depth <= 0 {
             return Err(Error::Protocol(ProtocolError {
                 kind: ProtocolErrorKind::DepthLimit,
                 message: format!("cannot parse past {:?}", field_type),
-- 
2.43.0


From 9aa3c70255b4d9a04d6b6bc7096b3844e7c0c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 09/12] fix: accept both encodings of the bool element type and
 of a false element

---
 src/thrift/protocol/compact.rs        | 6 ++++--
 src/thrift/protocol/compact_stream.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index f2c31b9..5f3c83c 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -202,7 +202,8 @@ where
                 let b = self.read_byte()?;
                 match b {
                     0x01 => Ok(true),
-                    0x02 => Ok(false),
+                    // some writers encode false as 0
+                    0x00 | 0x02 => Ok(false),
                     unkn => Err(Error::Protocol(ProtocolError {
                         kind: ProtocolErrorKind::InvalidData,
                         message: format!("cannot convert {} into bool", unkn),
@@ -314,7 +315,8 @@ where
 
 pub(super) fn collection_u8_to_type(b: u8) -> Result<TType> {
     match b {
-        0x01 => Ok(TType::Bool),
+        // writers in use declare bool elements as either
+        0x01 | 0x02 => Ok(TType::Bool),
         o => u8_to_type(o),
     }
 }
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 243a15a..441e389 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -196,7 +196,8 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
                 let b = self.read_byte().await?;
                 match b {
                     0x01 => Ok(true),
-                    0x02 => Ok(false),
+                    // some writers encode false as 0
+                    0x00 | 0x02 => Ok(false),
                     unkn => Err(Error::Protocol(ProtocolError {
                         kind: ProtocolErrorKind::InvalidData,
                         message: format!("cannot convert {} into bool", unkn),
-- 
2.43.0


From 5785798313e48ee74de5d944e6a6cfc5afc969a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 10/12] fix: skip binary fields that are not UTF-8

---
 src/thrift/protocol/mod.rs    | 3 ++-
 src/thrift/protocol/stream.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index b4f0e86..ab5a86d 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -162,7 +162,8 @@ pub trait TInputProtocol: Sized {
             TType::I32 => self.read_i32().map(|_| ()),
             TType::I64 => self.read_i64().map(|_| ()),
             TType::Double => self.read_double().map(|_| ()),
-            TType::String => self.read_string().map(|_| ()),
+            // also the type of binary fields
+            TType::String => self.read_bytes().map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin()?;
                 loop {
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index f606d8e..d4ebe44 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -148,7 +148,8 @@ pub trait TInputStreamProtocol: Send + Sized {
             TType::I32 => self.read_i32().await.map(|_| ()),
             TType::I64 => self.read_i64().await.map(|_| ()),
             TType::Double => self.read_double().await.map(|_| ()),
-            TType::String => self.read_string().await.map(|_| ()),
+            // also the type of binary fields
+            TType::String => self.read_bytes().await.map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin().await?;
                 loop {
-- 
2.43.0


From 7a4a88894ef18fe7ba0c9b68ac0f01d41ce01299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 11/12] fix: skipping ends every field it begins

---
 src/thrift/errors.rs          | 1 +
 src/thrift/protocol/mod.rs    | 1 +
 src/thrift/protocol/stream.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/thrift/errors.rs b/src/thrift/errors.rs
index 4ba78fd..61c0f5c 100644
--- a/src/thrift/errors.rs
+++ b/src/thrift/errors.rs
@@ -112,6 +112,7 @@ impl Error {
                 }
                 _ => {
                     i.skip(field_ident.field_type)?;
+                    i.read_field_end()?;
                 }
             }
         }
diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index ab5a86d..e226670 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -172,6 +172,7 @@ pub trait TInputProtocol: Sized {
                         break;
                     }
                     self.skip_till_depth(field_ident.field_type, depth - 1)?;
+                    self.read_field_end()?;
                 }
                 self.read_struct_end()
             }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index d4ebe44..032af2a 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -159,6 +159,7 @@ pub trait TInputStreamProtocol: Send + Sized {
                     }
                     self.skip_till_depth(field_ident.field_type, depth - 1)
                         .await?;
+                    self.read_field_end().await?;
                 }
                 self.read_struct_end().await
             }
-- 
2.43.0


From 023039e54bed6f9a6afe9799529a2a31b4b77130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:42 +0000
Subject: [PATCH 12/12] fix: the value of a boolean field does not outlive its
 field

---
 src/thrift/protocol/compact.rs        | 6 ++++++
 src/thrift/protocol/compact_stream.rs | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index 5f3c83c..6c464b8 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -192,6 +192,8 @@ where
     }
 
     fn read_field_end(&mut self) -> Result<()> {
+        // not taken if the field was read as something other than a boolean
+        self.pending_read_bool_value = None;
         Ok(())
     }
 
@@ -309,6 +311,10 @@ where
     R: io::Seek + Read,
 {
     fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        if pos != io::SeekFrom::Current(0) {
+            // belongs to where the reader was
+            self.pending_read_bool_value = None;
+        }
         self.reader.seek(pos)
     }
 }
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 441e389..1da0ae4 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -186,6 +186,8 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_field_end(&mut self) -> Result<()> {
+        // not taken if the field was read as something other than a boolean
+        self.pending_read_bool_value = None;
         Ok(())
     }
 
-- 
2.43.0

