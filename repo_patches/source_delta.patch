From a467dd6dfe983d293f162a05fc1815cbbf8fff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 01/54] hook: expose table and traits modules under
 cfg(level_db_mc)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c1c3131..aa3ff82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,9 +3,15 @@
 extern crate core;
 
 pub mod db;
+#[cfg(not(level_db_mc))]
 mod table;
+#[cfg(level_db_mc)]
+pub mod table;
 pub mod util;
+#[cfg(not(level_db_mc))]
 mod traits;
+#[cfg(level_db_mc)]
+pub mod traits;
 
 #[global_allocator]
 static ALLOC: jemallocator::Jemalloc = jemallocator::Jemalloc;
-- 
2.43.0


From 205097b62eecb7dceda33813fc33e7acb442c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 02/54] fix: CRC::extend result must not depend on buffer
 alignment or length mod 16

---
 src/util/crc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..c0963f6 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
-- 
2.43.0


From a9ecceac0ebc56e87adcea4f6260813dc44624dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 03/54] fix: CRC::unmask must wrap like CRC::mask does

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c0963f6..22ad506 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From 9d7a1fd2f202c615429af04c37cd28c809a77e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 04/54] fix: log writer must recompute the room left in the
 block for every fragment

---
 src/db/log_writer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..fa9502f 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,12 +39,11 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
                     self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
-- 
2.43.0


From 2c9f77ca6f732b13208d07af0ad269158580d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 05/54] fix: log record checksum is a fixed 32 bit field

---
 src/db/log_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index fa9502f..c4f8bcd 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -74,7 +74,7 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-- 
2.43.0


From 76abec460ba621e0f00f71f304127044830bd71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 06/54] fix: log writer must not lose bytes on short writes

---
 src/db/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index c4f8bcd..2f0e51a 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -46,7 +46,7 @@ impl LogWriter {
             let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -78,10 +78,10 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From ea83418f891f85d2782ee8172311442cf8e41fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:17 +0000
Subject: [PATCH 07/54] fix: log reader must reassemble fragments, stop at end
 of file and report damaged records

---
 src/db/log_reader.rs | 69 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..bd1f90f 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -1,8 +1,8 @@
 use std::fs::File;
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_HEADER_SIZE, K_LAST_TYPE, K_MIDDLE_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -14,6 +14,8 @@ pub struct LogReader {
     checksum: bool,
     read_pos: usize,
     eof: bool,
+    /// started after the beginning of the file, maybe in the middle of a record
+    resyncing: bool,
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
     buf_read_idx: usize,
@@ -37,6 +39,7 @@ impl LogReader {
             checksum,
             read_pos: block_start_location,
             eof: false,
+            resyncing: block_start_location > 0,
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
             buf_read_idx: 0,
@@ -46,14 +49,49 @@ impl LogReader {
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            if self.buf_len - self.buf_read_idx < K_HEADER_SIZE {
+                // block trailer, or a header cut off by a crash at the end of the file
+                if self.eof {
+                    self.buf_read_idx = self.buf_len;
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
             }
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
             self.buf_read_idx += 7;
+            if data_len > self.buf_len - self.buf_read_idx {
+                // the rest of the block can not be parsed any more
+                self.buf_read_idx = self.buf_len;
+                if self.eof {
+                    // payload cut off by a crash at the end of the file
+                    return Ok(None);
+                }
+                return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
+            }
             // CRC check
-            self.check_crc(data_len)?;
+            if let Err(e) = self.check_crc(data_len) {
+                self.buf_read_idx = self.buf_len;
+                return Err(e);
+            }
+            if self.resyncing {
+                // started in the middle of a record, skip to the beginning of the next one
+                if record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE {
+                    self.buf_read_idx += data_len;
+                    continue;
+                }
+                self.resyncing = false;
+            }
+            if tmp.is_some() && (record_type == K_FULL_TYPE || record_type == K_FIRST_TYPE) {
+                // keep this record for the next call
+                self.buf_read_idx -= 7;
+                return Err(Status::wrapper(LevelError::KCorruption, "partial record without end".into()));
+            }
+            if tmp.is_none() && (record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE) {
+                self.buf_read_idx += data_len;
+                return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
+            }
             match record_type {
                 K_FULL_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
@@ -63,11 +101,14 @@ impl LogReader {
                 }
                 K_FIRST_TYPE => {
                     tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
+                    let partial_data = &self.buf[self.buf_read_idx..self.buf_read_idx + data_len];
                     tmp.as_mut().unwrap().write(partial_data)?;
+                    self.buf_read_idx += data_len;
                 }
                 K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
+                    let partial_data = &self.buf[self.buf_read_idx..self.buf_read_idx + data_len];
+                    tmp.as_mut().unwrap().write(partial_data)?;
+                    self.buf_read_idx += data_len;
                 }
                 K_LAST_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
@@ -78,6 +119,7 @@ impl LogReader {
                     return Ok(Some(Slice::from_vec(data)));
                 }
                 _ => {
+                    self.buf_read_idx = self.buf_len;
                     return Err(Status::wrapper(LevelError::KCorruption,
                                                format!("bad record_type: {}", record_type).into()));
                 }
@@ -87,7 +129,20 @@ impl LogReader {
 
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
+        self.buf_len = 0;
+        // a single read may return less than a block before the end of the file
+        while self.buf_len < K_BLOCK_SIZE {
+            match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(0) => break,
+                Ok(n) => self.buf_len += n,
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => {
+                    self.buf_len = 0;
+                    self.eof = true;
+                    return Err(e.into());
+                }
+            }
+        }
         if self.buf_len < K_BLOCK_SIZE {
             self.eof = true;
         }
-- 
2.43.0


From 08e350faa5e9c52d0f3e710b29d4d25152dd2696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:19 +0000
Subject: [PATCH 08/54] fix: decoded slices must own memory with the layout
 their Vec frees

---
 src/util/coding.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..a6e0afa 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
 use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -430,11 +429,12 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
     // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
+    let mut dst = Vec::<u8>::with_capacity(len);
     // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
+    intrinsics::copy_nonoverlapping(ptr, dst.as_mut_ptr(), len);
+    dst.set_len(len);
     // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    Slice::from_vec(dst)
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From a57c3be70d946e5b8264239b8ec36d92a5f4d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 09/54] fix: checked decoder reads must reject lengths that
 overflow the offset

---
 src/util/coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index a6e0afa..4fea61a 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -135,7 +135,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $offset.saturating_add($read_len) > $limit {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
-- 
2.43.0


From 1ff9506306161c49c9e95be6f4343d6dea97eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:49 +0000
Subject: [PATCH 10/54] fix: checked varint reads must reject truncated and
 over-long varints

---
 src/util/coding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 4fea61a..fcabb61 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -957,6 +957,11 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            let data = &self.data;
+            // 最后一个解码的byte >= 128, 说明varint不完整
+            if unsafe { *get_ptr!(data).add(res.1 - 1) } & 128 != 0 {
+                return Err(LevelError::corruption_string("bad varint", "truncated or too long"));
+            }
             self.offset = res.1;
             Ok(res.0)
         }
@@ -1073,7 +1078,7 @@ impl<'a> Decoder<'a> {
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
         check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
+        let size = self.get_varint32()? as usize;
         check_length!(self.offset, size, self.limit, read);
         unsafe { Ok(self.uncheck_get_buf(size)) }
     }
-- 
2.43.0


From de55deb960dbca3bca2c870e1bab6db6ff7b2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:50 +0000
Subject: [PATCH 11/54] fix: get_buf must advance the decoder like every other
 read

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index fcabb61..423e4f1 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1128,10 +1128,10 @@ impl<'a> Decoder<'a> {
     ///  // [1, 2, 3]
     ///  let buf = decoder.get_buf(3)?;
     /// ```
-    pub fn get_buf(&self, len: usize) -> Result<Slice> {
+    pub fn get_buf(&mut self, len: usize) -> Result<Slice> {
         check_length!(self.offset, len, self.limit, read);
         unsafe {
-            Ok(uncheck_read_buf(&self.data, self.offset, len))
+            Ok(self.uncheck_get_buf(len))
         }
     }
 
-- 
2.43.0


From db57461a0600e3b8ba6aa4664f7f3a0e160ec7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:26 +0000
Subject: [PATCH 12/54] fix: Slice::starts_with must answer false for a longer
 prefix

---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..c1b2868 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From f9e987ac6ee48bdfd60f0af316b85dceac9b9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 13/54] fix: Slice range IndexMut must honour the start of the
 range

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index c1b2868..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -239,7 +239,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From d052dbe8027d00f4b7fd01e88461c8a38706737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 14/54] fix: UnsafeSlice::new_with_arena must keep the pointer
 and length of its data

---
 src/util/unsafe_slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..b280f0f 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,6 +1,5 @@
 use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
-use std::io::Write;
 use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
@@ -27,8 +26,8 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From 51492b4ca20d16d517313800ebcf3d012148656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:31 +0000
Subject: [PATCH 15/54] fix: UnsafeSlice::to_slice must copy the data

---
 src/util/unsafe_slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index b280f0f..3b066ee 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,4 +1,3 @@
-use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
 use std::mem::ManuallyDrop;
 
@@ -63,10 +62,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From 7913564b9ebff78ae3b6b0da526f26216f6b77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 16/54] fix: UnsafeSlice::sub_slice must allow ranges that end
 at the end

---
 src/util/unsafe_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 3b066ee..906ae80 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -52,7 +52,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start + len <= self.len, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
-- 
2.43.0


From 71e3ca6b0dc82097d4d40c464321d33284b05dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 17/54] fix: Arena must serve a zero byte allocation before its
 first block

---
 src/util/arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..ff2718f 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,7 +56,7 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
-        if bytes <= self.alloc_bytes_remaining {
+        if bytes <= self.alloc_bytes_remaining && self.alloc_ptr.is_some() {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
             unsafe {
-- 
2.43.0


From c4552daca1c6e9a57962f6e05a77eeaf7cf7db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:46 +0000
Subject: [PATCH 18/54] fix: an empty skip list must link its head to its tail

---
 src/db/skip_list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..d119749 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -52,11 +52,16 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let head = Node::create_head(arena.clone());
+        let tail = Node::create_tail();
+        for l in 0..MAX_LEVEL {
+            unsafe { (&mut *head).set_node(l, tail); }
+        }
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head,
+            tail,
             cmp: comparator,
             arena,
         }
-- 
2.43.0


From 5b02bebd60bfc64eec10d6ed7979d4a475575fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:48 +0000
Subject: [PATCH 19/54] fix: skip list iterator is valid when it stands on an
 element

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index d119749..89f8247 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -444,7 +444,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From f6716961c0bd7f7b3058c5e99dc6cfce0b892edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 20/54] fix: skip list seek_to_last must reach the greatest
 element from anywhere

---
 src/db/skip_list.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 89f8247..4195f78 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -362,20 +362,14 @@ impl Node {
             return None;
         }
         let mut pre = self;
-        let mut cur = &*self.next_top_node();
-        loop {
-            if cur.is_tail() {
-                return Some(pre as *const Node as *mut Node);
+        for l in (0..self.level).rev() {
+            let mut cur = &*pre.get_node(l);
+            while !cur.is_tail() {
+                pre = cur;
+                cur = &*pre.get_node(l);
             }
-            pre = cur;
-            cur = &*cur.next_top_node();
         }
-    }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
+        Some(pre as *const Node as *mut Node)
     }
 }
 
@@ -458,7 +452,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            self.current = (&*self.head).seek_to_last().unwrap_or(self.tail)
         }
     }
 
-- 
2.43.0


From 8303bf6d29e5f2686386d9671c1b227dc836f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 21/54] fix: dropping a skip list must free its nodes

---
 src/db/skip_list.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 4195f78..50102ca 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -260,6 +260,19 @@ impl<Cmp: Comparator> SkipList<Cmp> {
     }
 }
 
+impl<Cmp: Comparator> Drop for SkipList<Cmp> {
+    fn drop(&mut self) {
+        let mut current = self.head;
+        while !current.is_null() {
+            unsafe {
+                let next = if (&*current).is_tail() { null_mut() } else { (&*current).get_node(0) };
+                drop(Box::from_raw(current));
+                current = next;
+            }
+        }
+    }
+}
+
 impl<Cmp: Comparator> ToString for SkipList<Cmp> {
     fn to_string(&self) -> String {
         let mut tree = String::with_capacity(1024);
-- 
2.43.0


From 95852daebb9cefc4639e6c8c4945eba5606a9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:52 +0000
Subject: [PATCH 22/54] fix: MemTable::add must not dead lock on its arena and
 must write the value length

---
 src/db/mem_table.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..324db4f 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -70,13 +70,13 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        // 写入跳表时需要获取 arena 的锁, 这里不能持有
+        let mut buf = vec![0_u8; encoded_len];
+        let mut encoder = Encoder::with_buf(&mut buf);
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
@@ -85,6 +85,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
             encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From 686812057a7a83a43494d69ebd008d091656497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:54 +0000
Subject: [PATCH 23/54] fix: LookupKey must be encoded into its own buffer with
 the internal key size first

---
 src/db/db_format.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..0d7ce5d 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -258,13 +258,12 @@ impl LookupKey {
         let user_key_size = user_key.size();
         let need = user_key_size + 13; // A conservative estimate
         let mut data = Vec::with_capacity(need);
-        let buf = data.as_mut_slice();
-        let mut encoder = Encoder::with_buf(buf);
+        let mut encoder = Encoder::with_vec(&mut data);
         // write key size
         let klength = varint_length((user_key_size + 8) as u64);
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            encoder.uncheck_put_varint32((user_key_size + 8) as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From 85155c59091ed48dfdae3dc5e5beeacd15b300d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:56 +0000
Subject: [PATCH 24/54] fix: VersionEdit::encode_to must write names and keys

---
 src/db/db_format.rs    |  4 ++++
 src/db/version_edit.rs | 12 ++++--------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 0d7ce5d..699a0ba 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -188,6 +188,10 @@ impl InternalKey {
     }
 
     /// 取得  Slice的长度
+    pub(crate) fn rep(&self) -> &Slice {
+        &self.rep_
+    }
+
     pub fn encode_len(&self) -> usize {
         self.rep_.size()
     }
diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index ec0a502..c249223 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -205,9 +205,7 @@ impl VersionEdit {
         let mut encoder = Encoder::with_vec(target);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
-            encoder.put_varint32(self.comparator_.len() as u32)?;
-            // fixme 需要正确使用 put_length_prefixed_slice  将slice长度及slice内容编码到target
-            // encoder.put_length_prefixed_slice(self.comparator_.len())?;
+            encoder.put_length_prefixed_slice(&Slice::from(&self.comparator_))?;
         }
         if self.has_log_number_ {
             encoder.put_varint32(Tag::kLogNumber.get_value() as u32)?;
@@ -232,8 +230,7 @@ impl VersionEdit {
         for i in 0..self.compact_pointers_.len() {
             encoder.put_varint32(Tag::kCompactPointer.get_value() as u32)?;
             encoder.put_varint32(self.compact_pointers_[i].0)?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( self.compact_pointers_[i].1.encode_len())?;
+            encoder.put_length_prefixed_slice(self.compact_pointers_[i].1.rep())?;
         }
 
         for i in 0..self.deleted_files_.len() {
@@ -249,9 +246,8 @@ impl VersionEdit {
             encoder.put_varint32(self.new_files_[i].0)?;
             encoder.put_varint64(f.get_number())?;
             encoder.put_varint64(f.get_file_size())?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
-            // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
+            encoder.put_length_prefixed_slice(f.get_smallest().rep())?;
+            encoder.put_length_prefixed_slice(f.get_largest().rep())?;
         }
         Ok(())
     }
-- 
2.43.0


From d5adf05440233dba33e6efeef66f2fac65eb2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 25/54] fix: find_shortest_separator must return start
 unchanged when it can not be shortened

---
 src/util/comparator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..ca84886 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -78,10 +78,11 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                start_char_vec.truncate(diff_index + 1);
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
+        let shortest_separator: &[u8] = &start_char_vec;
         let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
         shortest_separator_val
     }
-- 
2.43.0


From fd802a87c0957522b8f6d6e9a6a9cb2e8f19f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 26/54] fix: filter block start_block must stop once the block
 has its filters

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..4882012 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -161,7 +161,7 @@ impl FilterBlock for FilterBlockBuilder {
         assert!(filters_number >= len);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From f019657968b0b4d9cab94871ffe8a7d1295c6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 27/54] fix: filter block finish must append the offset array
 to the filter data

---
 src/table/filter_block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 4882012..0dd4b22 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -185,9 +185,8 @@ impl FilterBlock for FilterBlockBuilder {
         let array_offset = self.result.len() as u32;
 
         // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
-        // let mut dst_append = self.result.as_mut_slice();
-        let mut encoder = Encoder::with_vec(dst);
+        let mut tail: Vec<u8> = Vec::new();
+        let mut encoder = Encoder::with_vec(&mut tail);
         for i in 0..self.filter_offsets.len() {
             encoder.put_fixed32(self.filter_offsets[i])?;
         }
@@ -195,6 +194,7 @@ impl FilterBlock for FilterBlockBuilder {
 
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
+        self.result.append(&mut tail);
 
         Ok(Slice::from_buf(&self.result))
     }
-- 
2.43.0


From 9264d325a60ef8d61cf3d94d69878122e4acd67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 28/54] fix: filter block keys are arbitrary bytes

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 0dd4b22..ee4fc04 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -173,7 +173,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.write(key.as_ref()).expect("add_key error!");
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From d431694831870addee89df43b4f7fe43632943b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 29/54] fix: dropping a linked list must free its nodes

---
 src/util/linked_list.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/linked_list.rs b/src/util/linked_list.rs
index 8ffb8e6..5de16ca 100644
--- a/src/util/linked_list.rs
+++ b/src/util/linked_list.rs
@@ -250,6 +250,15 @@ impl<T> Default for LinkedList<T> {
     }
 }
 
+impl<T> Drop for LinkedList<T> {
+    fn drop(&mut self) {
+        while let Some(node) = self.head {
+            let node = unsafe { Box::from_raw(node.as_ptr()) };
+            self.head = node.next;
+        }
+    }
+}
+
 impl<T> LinkedListBuilder<T> for LinkedList<T> {
     #[inline]
     fn new() -> Self {
-- 
2.43.0


From 11e734e14b10eccef21ba0119e528f8e92da2b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 30/54] fix: removing the head of a hash bucket must unlink it
 from its successor

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..fe09ee2 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,9 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    if let Some(mut next_hash) = handle_mut.next_hash {
+                        unsafe { next_hash.as_mut() }.prev_hash = None;
+                    }
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From 80a65b6b1ef3c65ec2434247de07caca99b6fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 31/54] fix: cache handles must be freed only after their last
 use

---
 src/util/cache.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index fe09ee2..1ddf861 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -204,7 +204,7 @@ impl<T> HandleTable<T> {
         Ok(())
     }
 
-    /// 从hash表中删除数据, 并回收内存
+    /// 从hash表中删除数据, 内存由调用方回收
     pub fn remove(&mut self, key: &Slice, hash: u32) -> Result<Option<HandleRef<T>>> {
         let index = self.find_index(hash);
         let mut head = self.list[index];
@@ -233,8 +233,6 @@ impl<T> HandleTable<T> {
                         next_hash_ptr.prev_hash = handle_mut.prev_hash;
                     }
                 }
-                // 回收内存
-                Self::drop_handle(handle.as_ptr());
                 self.elements -= 1;
                 return Ok(Some(handle));
             }
@@ -430,8 +428,9 @@ impl<T> LRUCache<T> {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
                 self.lru_remove(tail)?;
-                // 于从hash表中删除链表尾, 同时回收内存
+                // 于从hash表中删除链表尾, 再回收内存
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+                HandleTable::drop_handle(tail.as_ptr());
             }
         }
 
@@ -459,12 +458,14 @@ impl<T> LRUCache<T> {
     /// 从lru缓存中删除数据, 同时回收内存
     pub fn erase(&mut self, key: &Slice, hash: u32) -> Result<usize> {
         let mut charge = 0;
-        // 先从hash表中删除, 同时回收内存
+        // 先从hash表中删除
         let removed_handle = self.table.remove(key, hash)?;
         if let Some(removed) = removed_handle {
             // 再删除lru链表中的数据
             self.lru_remove(removed)?;
             charge = unsafe { removed.as_ref().charge };
+            // 最后回收内存
+            HandleTable::drop_handle(removed.as_ptr());
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From 5bee92f30185550dacfc7d6f8167cb9b8718013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 32/54] fix: cache insert must replace an entry with the same
 key

---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 1ddf861..d277109 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -410,6 +410,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        // 相同的key只保留最新的值
+        self.erase(&key, hash)?;
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From c96ebe31041f3884f94bf67f47daad50479e7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 33/54] fix: cache must evict until the usage is below the
 capacity

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index d277109..d05b0c6 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -425,7 +425,7 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
+        while self.usage >= self.capacity {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
@@ -433,6 +433,8 @@ impl<T> LRUCache<T> {
                 // 于从hash表中删除链表尾, 再回收内存
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
                 HandleTable::drop_handle(tail.as_ptr());
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From bcb55ecd0b81406adb1ec2de4db333c4d1454afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 34/54] fix: cache prune must free every entry of a hash bucket

---
 src/util/cache.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index d05b0c6..1438390 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -244,9 +244,13 @@ impl<T> HandleTable<T> {
 
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
-        for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
+        for head in self.list.iter() {
+            let mut head = *head;
+            while let Some(handle) = head {
+                head = unsafe { handle.as_ref() }.next_hash;
+                // 回收内存
+                Self::drop_handle(handle.as_ptr());
+            }
         }
         // 清空list恢复内存
         self.list.clear();
-- 
2.43.0


From e1c80af2d01dd138af2234c4aa42875eaa3b646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:49 +0000
Subject: [PATCH 35/54] fix: dropping a cache must free its entries

---
 src/util/cache.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 1438390..da4d1e1 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -567,6 +567,12 @@ impl<T> LRUCache<T> {
     }
 }
 
+impl<T> Drop for LRUCache<T> {
+    fn drop(&mut self) {
+        self.table.prune();
+    }
+}
+
 macro_rules! cache_element {
     ($shard:expr, $capacity:expr, $default_length:expr) => (RwLock::new(LRUCache::new_with_capacity($shard, pre_shard($capacity), $default_length)));
 }
-- 
2.43.0


From 27e092c47001dfbec3c9bba5acf9669120e8b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 36/54] fix: a refused skip list insertion must leave the list
 unchanged

---
 src/db/skip_list.rs | 45 +++++++++++----------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 50102ca..3473c4f 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -104,46 +104,19 @@ impl<Cmp: Comparator> SkipList<Cmp> {
     unsafe fn insert_elen(&mut self, key: UnsafeSlice) -> Result<()> {
         let mut current = self.head;
         let node_height = rand_level();
-        let node_top_level = node_height - 1;
         debug!("insert {}, level: {}", &key, node_height);
-        let node_ptr = Node::create(key, node_height, self.arena.clone());
-        let node = unsafe { &mut *node_ptr };
+        // predecessors at each level; nothing is linked before all of them are known
+        let mut prevs = [self.head; MAX_LEVEL];
         // loop from highest level to 0
         for l in (0..self.height).rev() {
             'inner_loop: loop {
                 let ele_ptr = unsafe { (&*current).get_node(l) };
                 let ele = unsafe { &mut *ele_ptr };
                 if ele.is_tail() {
-                    if l <= node_top_level {
-                        // ele is tail node, add node to last
-                        (&mut *current).set_node(l, node_ptr);
-                        node.set_node(l, self.tail);
-                        debug!("bind: {} before: {}, after: <tail>, at level: {}",
-                                        node.key.unwrap(),
-                                        (&*current).key.unwrap(),
-                                        l);
-                    }
                     break 'inner_loop;
                 } else {
-                    match self.cmp.compare(node.key.unwrap().as_ref(), ele.key.unwrap().as_ref()) {
+                    match self.cmp.compare(key.as_ref(), ele.key.unwrap().as_ref()) {
                         Some(Ordering::Less) => {
-                            // node higher than current level at ele
-                            if node_top_level >= l {
-                                (&mut *current).set_node(l, node_ptr);
-                                node.set_node(l, ele_ptr);
-                                if (&*current).is_head() {
-                                    debug!("bind: {} before: <head>, after: {}, at level: {}",
-                                        node.key.unwrap(),
-                                        ele.key.unwrap(),
-                                        l);
-                                } else {
-                                    debug!("bind: {} before: {}, after: {}, at level: {}",
-                                        node.key.unwrap(),
-                                        (&*current).key.unwrap(),
-                                        ele.key.unwrap(),
-                                        l);
-                                }
-                            }
                             break 'inner_loop;
                         }
                         Some(Ordering::Greater) => {
@@ -159,13 +132,17 @@ impl<Cmp: Comparator> SkipList<Cmp> {
                     }
                 }
             }
+            prevs[l] = current;
+        }
+        let node_ptr = Node::create(key, node_height, self.arena.clone());
+        let node = unsafe { &mut *node_ptr };
+        for l in 0..node_height {
+            let prev = &mut *prevs[l];
+            node.set_node(l, prev.get_node(l));
+            prev.set_node(l, node_ptr);
         }
         // if head level is less than new node, then fix head node height
         if self.height < node_height {
-            for l in (self.height()..node_height).rev() {
-                (&mut *self.head).set_node(l, node_ptr);
-                node.set_node(l, self.tail);
-            }
             self.height = node_height;
         }
         self.num += 1;
-- 
2.43.0


From ca2e9ba9bafa3bd8a5f4d35b62c4c309fb97dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 37/54] fix: a cache may be shared between threads only if its
 values may

---
 src/util/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index da4d1e1..c45ea6d 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -635,10 +635,10 @@ fn pre_shard(capacity: usize) -> usize {
 }
 
 /// 所有权可以多线程传递
-unsafe impl<T> Send for ShardLRUCache<T> {}
+unsafe impl<T: Send + Sync> Send for ShardLRUCache<T> {}
 
 /// 不可变借用可以多线程共享, 内部shard具有可变性并且加锁, 可以安全的在多线程环境下使用
-unsafe impl<T> Sync for ShardLRUCache<T> {}
+unsafe impl<T: Send + Sync> Sync for ShardLRUCache<T> {}
 
 impl<T> ShardLRUCache<T> {
     /// 私有化构造器
-- 
2.43.0


From b34b9adf47e566d41539ec769033a3d0cbb31e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 38/54] fix: a shared cache must start with the table length
 asked for

---
 src/util/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index c45ea6d..635f4fc 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -714,10 +714,10 @@ impl<T> ShardLRUCache<T> {
         } else {
             default_length
         };
-        let default_length_per_shard = default_length / K_NUM_SHARDS;
+        let default_length = default_length / K_NUM_SHARDS;
         Arc::new(Self {
             shard: arr!([cache_element; 32]),
-            default_length: default_length_per_shard,
+            default_length,
             capacity,
         })
     }
-- 
2.43.0


From 4c33a9ea6a839d9d4a8e66e5c88fa4be8b0fd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 39/54] fix: data borrowed from a slice must not outlive it

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 433f247..fa01782 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -111,7 +111,7 @@ impl Slice {
 
 impl<'a> Slice {
     /// 借取 Slice 中的数据, 调用方只拥有读权限
-    pub fn borrow_data(&self) -> Cow<'a, String> {
+    pub fn borrow_data(&'a self) -> Cow<'a, String> {
         unsafe {
             // String & Vec<u8> has the same layout
             let s: &String = mem::transmute(&self.data);
-- 
2.43.0


From 283691b7e63025c08ca1758f37af52b996ee94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 40/54] fix: a refused read of a length-prefixed slice leaves
 the position where it was

---
 src/util/coding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 423e4f1..7bf3b53 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1078,8 +1078,13 @@ impl<'a> Decoder<'a> {
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
         check_length!(self.offset, self.limit);
+        let start = self.offset;
         let size = self.get_varint32()? as usize;
-        check_length!(self.offset, size, self.limit, read);
+        let data_start = self.offset;
+        // 失败时偏移量不变
+        self.offset = start;
+        check_length!(data_start, size, self.limit, read);
+        self.offset = data_start;
         unsafe { Ok(self.uncheck_get_buf(size)) }
     }
 
-- 
2.43.0


From 442a2a6b7635bda83e07d48d2c587293924615e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:50 +0000
Subject: [PATCH 41/54] fix: a refused write of a length-prefixed slice writes
 nothing

---
 src/util/coding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 7bf3b53..7593037 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -806,6 +806,8 @@ impl<'a> Encoder<'a> {
     ///  encoder.put_length_prefixed_slice(&slice)?;
     /// ```
     pub fn put_length_prefixed_slice(&mut self, slice: &Slice) -> Result<()> {
+        // 写入长度前检查总长度, 失败时不写入任何数据
+        if let MutVector(_) = self.data {} else { check_length!(self.offset, varint_length(slice.size() as u64) + slice.size(), self.len(), write) };
         self.put_varint32(slice.size() as u32)?;
         self.put_buf(slice)?;
         Ok(())
-- 
2.43.0


From 3e8a11b9aa122881376d103ec3c872059b3140f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 42/54] fix: the share of a shard is right for capacities up to
 the largest number

---
 src/util/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 635f4fc..3c539df 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -631,7 +631,8 @@ fn shard(hash: u32) -> usize {
 
 #[inline]
 fn pre_shard(capacity: usize) -> usize {
-    (capacity + (K_NUM_SHARDS - 1)) / K_NUM_SHARDS
+    // 向上取整, 先加再除在容量接近usize::MAX时会溢出
+    capacity / K_NUM_SHARDS + usize::from(capacity % K_NUM_SHARDS != 0)
 }
 
 /// 所有权可以多线程传递
-- 
2.43.0


From 13470294a80ab2cfe27d014e75694bca9e11000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 43/54] fix: a charge beyond all capacity does not overflow the
 usage of a shard

---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 3c539df..b442f71 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -416,6 +416,8 @@ impl<T> LRUCache<T> {
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
         // 相同的key只保留最新的值
         self.erase(&key, hash)?;
+        // 达到容量的数据不会被保留, 超出的部分不需要计算, 否则使用量会溢出
+        let charge = charge.min(self.capacity);
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From 4ecd6fb95cb44c1f965202139ddb221ddb50b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 44/54] fix: a success made of two messages has no message
 either

---
 src/util/status.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/util/status.rs b/src/util/status.rs
index c41900f..f97d086 100644
--- a/src/util/status.rs
+++ b/src/util/status.rs
@@ -74,10 +74,7 @@ impl Status {
     pub fn wrappers(err: LevelError, mut slice1: Slice, slice2: Slice) -> Status {
         slice1.merge(slice2, Some(String::from(COLON_WHITE_SPACE)));
 
-        Self {
-            err,
-            msg: slice1
-        }
+        Status::wrapper(err, slice1)
     }
 
     pub fn is_ok(&self) -> bool {
-- 
2.43.0


From 7a9b4d56b5122cf8baf998a75ff4d34e9c8e2c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 45/54] fix: an array whose length is no integer literal is not
 empty

---
 custom_proc_macro/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/custom_proc_macro/src/lib.rs b/custom_proc_macro/src/lib.rs
index 868ee8c..6863368 100644
--- a/custom_proc_macro/src/lib.rs
+++ b/custom_proc_macro/src/lib.rs
@@ -28,15 +28,27 @@ pub fn arr(input: TokenStream) -> TokenStream {
     let repeat_expr: ExprRepeat = parse(input)
         .expect("Like arr!([Test::new(); 16])");
 
-    let mut len = 0;
+    let mut len = None;
     // 获取表达式中的长度信息并转为usize
     if let Expr::Lit(expr_lit) = repeat_expr.len.deref() {
         if let Lit::Int(int_lit) = &expr_lit.lit {
-            len = int_lit.base10_parse::<usize>().expect("Failed to parse integer literal");
+            len = Some(int_lit.base10_parse::<usize>().expect("Failed to parse integer literal"));
         }
     }
     // 解析并拼接成数组
     let _expr = repeat_expr.expr;
+    let len = match len {
+        Some(len) => len,
+        // 长度不是整数字面量(常量, 表达式等)时, 宏展开阶段无法得知长度, 由编译器求值
+        None => {
+            let _len = repeat_expr.len;
+            let _element = match _expr.as_ref() {
+                Expr::Path(path) => quote! { |_i| #path!(_i, capacity, default_length) },
+                _ => quote! { |_| #_expr },
+            };
+            return quote! { ::std::array::from_fn::<_, { #_len }, _>(#_element) }.into();
+        }
+    };
     // 1.生成数组的集合
     let mut _all = quote!();
     for _i in 0..len {
-- 
2.43.0


From 9495b327fbc1f7f1c685de8b5c4ee2ce809c6018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 46/54] fix: a log read from an offset does not return records
 that start before it

---
 src/db/log_reader.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index bd1f90f..5e9b79e 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -12,6 +12,9 @@ use crate::util::status::{LevelError, Status};
 pub struct LogReader {
     file_reader: Box<dyn SeekableReader>,
     checksum: bool,
+    /// records that start before this offset are not returned
+    initial_offset: usize,
+    /// offset of the end of the buffer in the file
     read_pos: usize,
     eof: bool,
     /// started after the beginning of the file, maybe in the middle of a record
@@ -37,9 +40,10 @@ impl LogReader {
         Self {
             file_reader,
             checksum,
+            initial_offset,
             read_pos: block_start_location,
             eof: false,
-            resyncing: block_start_location > 0,
+            resyncing: initial_offset > 0,
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
             buf_read_idx: 0,
@@ -75,6 +79,11 @@ impl LogReader {
                 self.buf_read_idx = self.buf_len;
                 return Err(e);
             }
+            if self.read_pos - self.buf_len + self.buf_read_idx - K_HEADER_SIZE < self.initial_offset {
+                // a fragment before the offset, of a record that starts before it too
+                self.buf_read_idx += data_len;
+                continue;
+            }
             if self.resyncing {
                 // started in the middle of a record, skip to the beginning of the next one
                 if record_type == K_MIDDLE_TYPE || record_type == K_LAST_TYPE {
@@ -146,6 +155,7 @@ impl LogReader {
         if self.buf_len < K_BLOCK_SIZE {
             self.eof = true;
         }
+        self.read_pos += self.buf_len;
         Ok(())
     }
 
-- 
2.43.0


From d82cec82c90169b5c03ea3b720d7f3824dcf75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 47/54] fix: sub_slice refuses ranges whose end overflows

---
 src/util/unsafe_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 906ae80..0556e5e 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -52,7 +52,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len <= self.len, "sub_slice out of range");
+        assert!(start <= self.len && len <= self.len - start, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
-- 
2.43.0


From 37d09987b788a188fc92e74caf9b804929392161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 48/54] fix: hashing of more than 5.2 GiB does not overflow

---
 src/util/hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/hash.rs b/src/util/hash.rs
index 71a0219..8fb5d05 100644
--- a/src/util/hash.rs
+++ b/src/util/hash.rs
@@ -1,4 +1,4 @@
-use std::ops::{BitXor, Mul};
+use std::ops::BitXor;
 use std::mem::size_of;
 use std::slice as stds;
 use crate::util::coding::Decoder;
@@ -137,7 +137,7 @@ impl Hash {
         let r: u32 = 24;
 
         let limit: usize = n;
-        let mul_first = n.mul(murmur_hash as usize); // x = data_size * murmur_hash
+        let mul_first = n.wrapping_mul(murmur_hash as usize); // x = data_size * murmur_hash
         let mut h: u32 = seed.bitxor(mul_first as u32);  // h = seed ^ x
 
         let mut decoder = Decoder::with_buf(data);
-- 
2.43.0


From 06950659675602598ac9ead3ce3f0da3ed2dca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 49/54] fix: the arena hands out no region when the allocator
 refuses one

---
 src/util/arena.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index ff2718f..c4ea9f7 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -1,5 +1,5 @@
 use std::slice;
-use std::alloc::{alloc, dealloc, Layout};
+use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
 use std::ptr::NonNull;
 use std::sync::{Arc, Mutex};
 
@@ -75,16 +75,14 @@ impl Arena {
 
     fn allocate_fallback(&mut self, bytes: usize, align: usize) -> &mut [u8] {
         if bytes > ARENA_BLOCK_SIZE / 4 {
-            unsafe {
-                let layout = Layout::from_size_align_unchecked(bytes, align);
-                return self.allocate_new_block(layout);
-            }
+            let layout = Layout::from_size_align(bytes, align).expect("layout of the block");
+            return self.allocate_new_block(layout);
         }
         unsafe {
-            self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
-            let layout = Layout::from_size_align_unchecked(ARENA_BLOCK_SIZE, align);
+            let layout = Layout::from_size_align(ARENA_BLOCK_SIZE, align).expect("layout of the block");
             let new_block = self.allocate_new_block(layout);
             let ptr = new_block.as_ptr() as *mut u8;
+            self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
             let result = slice::from_raw_parts_mut(ptr, bytes);
             self.alloc_ptr = Some(NonNull::new_unchecked(ptr.offset(bytes as isize)));
             result
@@ -96,6 +94,9 @@ impl Arena {
     fn allocate_new_block(&mut self, layout: Layout) -> &mut [u8] {
         unsafe {
             let data = alloc(layout);
+            if data.is_null() {
+                handle_alloc_error(layout);
+            }
             self.memory_usage += layout.size();
             self.blocks.push((NonNull::new_unchecked(data), layout));
             slice::from_raw_parts_mut(data, layout.size())
-- 
2.43.0


From a1d571c003598ded460afa5967eec88a2c100575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 50/54] fix: a slice whose length does not fit 32 bits is
 refused, not written with a wrong length

---
 src/util/coding.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index 7593037..8f2ea20 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -806,6 +806,10 @@ impl<'a> Encoder<'a> {
     ///  encoder.put_length_prefixed_slice(&slice)?;
     /// ```
     pub fn put_length_prefixed_slice(&mut self, slice: &Slice) -> Result<()> {
+        // 长度编码为 varint32, 超出的长度无法表示
+        if slice.size() > u32::MAX as usize {
+            return Err(LevelError::invalid_argument(Slice::from("length of slice must fit 32 bits"), Slice::from(format!("length = {}", slice.size()))));
+        }
         // 写入长度前检查总长度, 失败时不写入任何数据
         if let MutVector(_) = self.data {} else { check_length!(self.offset, varint_length(slice.size() as u64) + slice.size(), self.len(), write) };
         self.put_varint32(slice.size() as u32)?;
-- 
2.43.0


From aabf985310c167b1df399fe13b82ad100fda8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 51/54] fix: MemTable::add refuses keys and values whose length
 does not fit 32 bits

---
 src/db/mem_table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 324db4f..f4ffdf8 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -8,6 +8,7 @@ use crate::util::arena::ArenaRef;
 use crate::util::slice::Slice;
 use crate::util::{Arena, Result};
 use crate::util::coding::{Encoder, varint_length};
+use crate::util::status::LevelError;
 use crate::util::unsafe_slice::UnsafeSlice;
 
 /// 内存表
@@ -70,6 +71,10 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
+        // 长度编码为 varint32, 超出的长度无法表示
+        if internal_key_size > u32::MAX as usize || value_size > u32::MAX as usize {
+            return Err(LevelError::invalid_argument(Slice::from("length of key or value must fit 32 bits"), Slice::default()));
+        }
         let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
-- 
2.43.0


From 0d629aa68b42ce959e5bfc96520cae4818162619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 52/54] fix: standard deviation of equal values is never NaN

Rounding of the sums may leave the variance slightly below zero, whose square
root is NaN.
---
 src/util/histogram.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/histogram.rs b/src/util/histogram.rs
index f5d76ca..e9643bc 100644
--- a/src/util/histogram.rs
+++ b/src/util/histogram.rs
@@ -387,7 +387,8 @@ impl Histogram {
             return 0.0;
         }
         let variance = (self.sum_squares * self.num - self.sum * self.sum) / (self.num * self.num);
-        return variance.sqrt();
+        // 舍入误差可能使方差略小于 0
+        return variance.max(0.0).sqrt();
     }
 }
 
-- 
2.43.0


From 0e7526741ffa8731e90fcee5083b763b2827e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 53/54] fix: a log written on after a device error keeps what
 is acknowledged

After a write that failed midway the writer's place in the block no longer
agreed with the device, and the next records came to lie behind a torn
fragment, where a reader gives up the rest of the block. Keep the place in
step with the bytes taken and begin the next record in the next block.
---
 src/db/log_writer.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 2f0e51a..98e7a08 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -1,4 +1,4 @@
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use crate::util::coding::Encoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::slice::Slice;
@@ -23,6 +23,8 @@ pub struct LogWriter {
     file_writer: Box<dyn Write>,
     /// Offset in current block
     block_offset: usize,
+    // 上一次写入中途失败, 当前块内留有不完整的数据
+    torn: bool,
 
     type_crc: [u32; K_MAX_RECORD_TYPE + 1],
 }
@@ -34,11 +36,13 @@ impl LogWriter {
         Self {
             file_writer,
             block_offset: 0,
+            torn: false,
             type_crc,
         }
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
+        self.skip_torn()?;
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
@@ -46,7 +50,7 @@ impl LogWriter {
             let left_over = K_BLOCK_SIZE - self.block_offset;
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
+                    self.write(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -78,15 +82,39 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write_all(header.as_ref())?;
-        self.block_offset += K_HEADER_SIZE;
-        if !data.is_empty() {
-            self.file_writer.write_all(data)?;
-            self.block_offset += data.len();
+        let start = self.block_offset;
+        if let Err(e) = self.write(header.as_ref()).and_then(|_| self.write(data)) {
+            self.torn = self.block_offset > start;
+            return Err(e);
         }
         self.file_writer.flush()?;
         Ok(())
     }
+
+    // 写入全部数据, 失败时 block_offset 仍与设备上的数据一致
+    fn write(&mut self, mut data: &[u8]) -> Result<()> {
+        while !data.is_empty() {
+            match self.file_writer.write(data) {
+                Ok(0) => return Err(std::io::Error::from(ErrorKind::WriteZero).into()),
+                Ok(n) => {
+                    self.block_offset += n;
+                    data = &data[n..];
+                }
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
+        Ok(())
+    }
+
+    // 读取时不完整的分片使块的剩余部分作废, 之后的记录从下一个块开始
+    fn skip_torn(&mut self) -> Result<()> {
+        if self.torn {
+            self.write(&[0; K_BLOCK_SIZE][self.block_offset..])?;
+            self.torn = false;
+        }
+        Ok(())
+    }
 }
 
 fn init_type_crc(type_crc: &mut [u32]) {
-- 
2.43.0


From 7f99d2dee92a55020865f0cf2697aff1def3813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 54/54] fix: a log reader whose device cannot seek reports it
 instead of panicking

---
 src/db/log_reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 5e9b79e..4b9e08e 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -22,6 +22,8 @@ pub struct LogReader {
     buf: [u8; K_BLOCK_SIZE],
     buf_len: usize,
     buf_read_idx: usize,
+    // 定位到起始位置时的错误, 由第一次读取返回
+    seek_error: Option<std::io::Error>,
 }
 
 pub trait SeekableReader: Read + Seek {}
@@ -36,7 +38,7 @@ impl LogReader {
         if offset_in_block > K_BLOCK_SIZE - 6 {
             block_start_location += K_BLOCK_SIZE;
         }
-        file_reader.seek(Start(block_start_location as u64)).expect("seek to initial_offset");
+        let seek_error = file_reader.seek(Start(block_start_location as u64)).err();
         Self {
             file_reader,
             checksum,
@@ -47,10 +49,15 @@ impl LogReader {
             buf: [0; K_BLOCK_SIZE],
             buf_len: 0,
             buf_read_idx: 0,
+            seek_error,
         }
     }
 
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
+        if let Some(e) = self.seek_error.take() {
+            self.eof = true;
+            return Err(e.into());
+        }
         let mut tmp: Option<Vec<u8>> = None;
         loop {
             if self.buf_len - self.buf_read_idx < K_HEADER_SIZE {
-- 
2.43.0

