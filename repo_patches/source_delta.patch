From 26d739de1174af59d52b315976cb1132b68fc320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:34 +0000
Subject: [PATCH 01/34] fix: read memory mapped file slices that are not page
 aligned

---
 body-image-futio/src/mem_map_buf.rs | 6 ++++--
 body-image/src/_mem_handle_ext.rs   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/body-image-futio/src/mem_map_buf.rs b/body-image-futio/src/mem_map_buf.rs
index 7d02cf9..a6765b0 100644
--- a/body-image-futio/src/mem_map_buf.rs
+++ b/body-image-futio/src/mem_map_buf.rs
@@ -40,9 +40,11 @@ impl MemMapBuf {
     }
 
     /// Advise that we will be sequentially accessing the memory map region,
-    /// and that aggressive read-ahead is warranted.
+    /// and that aggressive read-ahead is warranted. This is only a hint, which
+    /// can't be given for a region that doesn't start on a page boundary, as
+    /// with a map of a file slice.
     pub(crate) fn advise_sequential(&self) -> Result<(), io::Error> {
-        let _new_advice = self.mm.advise(MemAdvice::Sequential)?;
+        let _new_advice = self.mm.advise(MemAdvice::Sequential);
         #[cfg(unix)] {
             debug!("MemMapBuf advise Sequential, obtained {:?}", _new_advice);
         }
diff --git a/body-image/src/_mem_handle_ext.rs b/body-image/src/_mem_handle_ext.rs
index b54ae66..7d39ffb 100644
--- a/body-image/src/_mem_handle_ext.rs
+++ b/body-image/src/_mem_handle_ext.rs
@@ -19,7 +19,9 @@ impl<T> MemHandleExt for MemHandle<T>
         where F: FnOnce() -> Result<R, S>,
               S: From<MemAdviseError>
     {
-        let _new_advice = self.advise(advice)?;
+        // Advice is only a hint, and can't be given for a region which
+        // doesn't start on a page boundary, as with a map of a file slice.
+        let _new_advice = self.advise(advice);
 
         #[cfg(unix)]
         {
@@ -28,7 +30,7 @@ impl<T> MemHandleExt for MemHandle<T>
         }
 
         let res = f();
-        self.advise(MemAdvice::Normal)?;
+        let _ = self.advise(MemAdvice::Normal);
         res
     }
 }
-- 
2.43.0


From 86b937319b0e3d37b91089627cb192b7cec8c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:46 +0000
Subject: [PATCH 02/34] fix: limit copy and map of file bodies to the body
 length

---
 body-image/src/lib.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..06058ae 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,7 +53,7 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
@@ -522,10 +522,10 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                map_slice(&ReadSlice::new(file.clone(), 0, self.len))?
             }
             ImageState::FsReadSlice(ref rslice) => {
-                rslice.mem_map()?
+                map_slice(rslice)?
             }
             _ => return Ok(self)
         };
@@ -675,7 +675,7 @@ impl BodyImage {
     }
 
     /// Write self to `out` and return length. If `FsRead` this is performed
-    /// using `std::io::copy` with `ReadPos` as input.
+    /// using `std::io::copy` with `ReadSlice` as input.
     ///
     /// The `Write` is passed by reference for backward compatibility with its
     /// original non-generic form as `&mut dyn Write`. [C-RW-VALUE] prefers
@@ -698,18 +698,46 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                let mut rs = ReadSlice::new(f.clone(), 0, self.len);
+                if io::copy(&mut rs, out)? < self.len {
+                    return Err(file_too_short().into());
+                }
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-                io::copy(&mut rs, out)?;
+                if io::copy(&mut rs, out)? < self.len {
+                    return Err(file_too_short().into());
+                }
             }
         }
         Ok(self.len)
     }
 }
 
+// Error for a backing file that ends before the end of the body.
+fn file_too_short() -> io::Error {
+    io::Error::new(
+        ErrorKind::UnexpectedEof,
+        "file is shorter than the body length"
+    )
+}
+
+// Memory map the slice, if found to be fully contained by its file. Access to
+// any mapped pages beyond the end of the file would otherwise fault.
+#[cfg(feature = "mmap")]
+fn map_slice(rslice: &ReadSlice) -> Result<Mmap, io::Error> {
+    let mut last = rslice.clone();
+    last.seek(SeekFrom::End(-1))?;
+    last.read_exact(&mut [0u8; 1]).map_err(|e| {
+        if e.kind() == ErrorKind::UnexpectedEof {
+            file_too_short()
+        } else {
+            e
+        }
+    })?;
+    rslice.mem_map()
+}
+
 // Create a new `FsRead` instance based on an existing `File`.
 fn image_from_file(file: File, length: u64) -> BodyImage {
     if length > 0 {
-- 
2.43.0


From a804b1ee1360f8595bd9dac9ac6759d81e4c26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:14 +0000
Subject: [PATCH 03/34] fix: start a body from the start of its file slice

---
 body-image/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 06058ae..624f6de 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -754,7 +754,8 @@ fn image_from_file(file: File, length: u64) -> BodyImage {
 fn image_from_read_slice(rslice: ReadSlice) -> BodyImage {
     let len = rslice.len();
     if len > 0 {
-        BodyImage { state: ImageState::FsReadSlice(rslice), len }
+        // The clone is positioned at its start, regardless of prior reads.
+        BodyImage { state: ImageState::FsReadSlice(rslice.clone()), len }
     } else {
         BodyImage::empty()
     }
-- 
2.43.0


From ff987d9d1dac32e402e2ab980c52bc5d83568f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:40 +0000
Subject: [PATCH 04/34] fix: count spilled bytes against the maximum body
 length

A body that moved from RAM to a file while being read was checked against
max_body by its later part only, so up to max_body_ram bytes more were
accepted.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 624f6de..8f6d792 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -769,7 +769,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From ca5bc322881990acfdc6e5c0b802ff50ed0d7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:40 +0000
Subject: [PATCH 05/34] fix: limit RAM buffers to the configured size when
 reading a body

BytesMut::remaining_mut no longer reports the unused capacity, so the fill
loop never ended before the end of the input and the whole body collected in
one growing RAM buffer, regardless of max_body_ram.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 8f6d792..9385e84 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -649,7 +649,7 @@ impl BodyImage {
                 }
                 unsafe { buf.advance_mut(len); }
 
-                if buf.remaining_mut() < 1024 {
+                if buf.capacity() - buf.len() < 1024 {
                     break 'fill;
                 }
             }
-- 
2.43.0


From f0c470f327eb11c31aa73e373ab3093aa003f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:59 +0000
Subject: [PATCH 06/34] fix: drop a partial write when appending to a body file
 fails

The bytes already written stayed in the file without being counted, so any
further append left the body with these in place of its own.
---
 body-image/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 9385e84..2752324 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -282,7 +282,7 @@ impl BodySink {
                 let buf = buf.as_ref();
                 let len = buf.len() as u64;
                 if len > 0 {
-                    f.write_all(buf)?;
+                    append(f, self.len, buf)?;
                     self.len += len;
                 }
             }
@@ -305,7 +305,7 @@ impl BodySink {
                     v.push(Bytes::copy_from_slice(buf));
                 }
                 SinkState::FsWrite(ref mut f) => {
-                    f.write_all(buf)?;
+                    append(f, self.len, buf)?;
                 }
             }
             self.len += len;
@@ -365,6 +365,15 @@ impl BodySink {
     }
 }
 
+// Write buf to the end (pos) of file. On error, restore this position so that
+// any partial write is replaced by the next.
+fn append(file: &mut File, pos: u64, buf: &[u8]) -> Result<(), io::Error> {
+    file.write_all(buf).map_err(|e| {
+        let _ = file.seek(SeekFrom::Start(pos));
+        e
+    })
+}
+
 impl Default for BodySink {
     fn default() -> BodySink { BodySink::empty() }
 }
-- 
2.43.0


From 69144b2e5f26852ac291ca6aac35c0df44b88599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:01 +0000
Subject: [PATCH 07/34] fix: end the stream of a truncated body file with an
 error

A file shorter than the body length ended the stream as if complete.
---
 body-image-futio/src/stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 9b1478b..2ba0bdc 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -187,7 +187,12 @@ impl<B, BA> AsyncBodyImage<B, BA>
                 )};
                 loop {
                     match rs.read(&mut b[..rlen]) {
-                        Ok(0) => break Poll::Ready(None),
+                        Ok(0) => {
+                            break Poll::Ready(Some(Err(io::Error::new(
+                                io::ErrorKind::UnexpectedEof,
+                                "file is shorter than the body length"
+                            ))));
+                        }
                         Ok(len) => {
                             unsafe { buf.advance_mut(len); }
                             debug!("read chunk (len: {})", len);
-- 
2.43.0


From 5ceaa68c52e2a3670ddea9850632c780d35143d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:12 +0000
Subject: [PATCH 08/34] fix: read header blocks of more than 128 headers

---
 barc/src/lib.rs | 53 +++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..1c2a900 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1040,32 +1040,37 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
-    let mut headbuf = [httparse::EMPTY_HEADER; 128];
-
-    // FIXME: httparse will return TooManyHeaders if headbuf isn't
-    // large enough. Hyper 0.11.15 allocates 100, so 128 is room for
-    // _even more_ (sigh). Might be better to just replace this with
-    // our own parser, as the grammar isn't particularly complex.
-
-    match httparse::parse_headers(buf, &mut headbuf) {
-        Ok(httparse::Status::Complete((size, heads))) => {
-            let mut hmap = http::HeaderMap::with_capacity(heads.len());
-            assert_eq!(size, buf.len());
-            for h in heads {
-                let name = h.name.parse::<HeaderName>()
-                    .map_err(|e| BarcError::InvalidHeader(e.into()))?;
-                let value = HeaderValue::from_bytes(h.value)
-                    .map_err(|e| BarcError::InvalidHeader(e.into()))?;
-                hmap.append(name, value);
+    // 128 is usually sufficient, but there is no limit to the number of
+    // headers besides the block size. Grow and retry when needed.
+    let mut headbuf = vec![httparse::EMPTY_HEADER; 128];
+
+    loop {
+        match httparse::parse_headers(buf, &mut headbuf) {
+            Ok(httparse::Status::Complete((size, heads))) => {
+                let mut hmap = http::HeaderMap::with_capacity(
+                    cmp::min(heads.len(), 128)
+                );
+                assert_eq!(size, buf.len());
+                for h in heads {
+                    let name = h.name.parse::<HeaderName>()
+                        .map_err(|e| BarcError::InvalidHeader(e.into()))?;
+                    let value = HeaderValue::from_bytes(h.value)
+                        .map_err(|e| BarcError::InvalidHeader(e.into()))?;
+                    hmap.append(name, value);
+                }
+                return Ok(hmap);
             }
-            Ok(hmap)
-        }
-        Ok(httparse::Status::Partial) => {
-            Err(BarcError::InvalidHeader(
-                Box::new(httparse::Error::TooManyHeaders)
-            ))
+            Ok(httparse::Status::Partial) => {
+                return Err(BarcError::InvalidHeader(
+                    Box::new(httparse::Error::TooManyHeaders)
+                ));
+            }
+            Err(httparse::Error::TooManyHeaders) => {
+                let len = headbuf.len() * 2;
+                headbuf = vec![httparse::EMPTY_HEADER; len];
+            }
+            Err(e) => return Err(BarcError::InvalidHeader(e.into()))
         }
-        Err(e) => Err(BarcError::InvalidHeader(e.into()))
     }
 }
 
-- 
2.43.0


From e0b1c52303282be15248e28f4ec147edf57d0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:58 +0000
Subject: [PATCH 09/34] fix: convert records decoded as compress or identity,
 or of HTTP/3, to dialogs

A dialog with one of these encodings or this version was converted to a
record, and written, but the record was then refused on conversion back.
---
 barc/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 1c2a900..a0243a4 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
@@ -517,10 +518,12 @@ impl TryFrom<Record> for Dialog {
                 for enc in dcds.split(',') {
                     let enc = enc.trim();
                     encodes.push(match enc {
-                        "chunked" => Encoding::Chunked,
-                        "deflate" => Encoding::Deflate,
-                        "gzip"    => Encoding::Gzip,
-                        "br"      => Encoding::Brotli,
+                        "chunked"  => Encoding::Chunked,
+                        "deflate"  => Encoding::Deflate,
+                        "gzip"     => Encoding::Gzip,
+                        "br"       => Encoding::Brotli,
+                        "compress" => Encoding::Compress,
+                        "identity" => Encoding::Identity,
                         _ => {
                             return Err(DialogConvertError::InvalidResDecoded(
                                 enc.to_string()
-- 
2.43.0


From 9e28a566aaec5ab16058afc13de29becf50df5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:50 +0000
Subject: [PATCH 10/34] fix: keep the reader offset when reading a record fails

The offset is documented as advanced by each successful read, but was left
somewhere within the record when the read failed.
---
 barc/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index a0243a4..3efb8c2 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -831,6 +831,18 @@ impl BarcReader {
     /// buffered in a file, or deferred via a `ReadSlice`.
     pub fn read(&mut self, tune: &Tunables)
         -> Result<Option<Record>, BarcError>
+    {
+        let start = self.file.tell();
+        let res = self.read_next(tune);
+        if res.is_err() {
+            // Only advance on success
+            self.file.seek(SeekFrom::Start(start))?;
+        }
+        res
+    }
+
+    fn read_next(&mut self, tune: &Tunables)
+        -> Result<Option<Record>, BarcError>
     {
         let fin = &mut self.file;
         let start = fin.tell();
-- 
2.43.0


From d5c16b90db396c6516bf7a5bdaffd8fca79f835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:41 +0000
Subject: [PATCH 11/34] fix: return errors, not panics, for malformed record
 heads and header blocks

Lengths too short to include the padding, lengths in excess of the record
length, an empty line within a header block, and more header names than a
header map can hold, are all reported as errors.
---
 barc/src/lib.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 3efb8c2..70d15f4 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -599,6 +599,9 @@ const CRLF: &[u8] = b"\r\n";
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
+// Maximum distinct names that may be added to a `HeaderMap`, without panic.
+const MAX_HEADER_NAMES: usize = 24_576;
+
 const V2_RESERVE_HEAD: RecordHead = RecordHead {
     len: 0,
     rec_type: RecordType::Reserved,
@@ -882,7 +885,9 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
+        let body_len = rhead.len
+            .checked_sub(fin.tell() - start - (V2_HEAD_SIZE as u64))
+            .ok_or(BarcError::ReadInvalidRecHead)?;
 
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
@@ -1031,7 +1036,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1065,8 +1072,18 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
                 let mut hmap = http::HeaderMap::with_capacity(
                     cmp::min(heads.len(), 128)
                 );
-                assert_eq!(size, buf.len());
+                if size != buf.len() {
+                    // Empty line before the end of the block
+                    return Err(BarcError::InvalidHeader(
+                        Box::new(httparse::Error::NewLine)
+                    ));
+                }
                 for h in heads {
+                    if hmap.keys_len() >= MAX_HEADER_NAMES {
+                        return Err(BarcError::InvalidHeader(
+                            Box::new(httparse::Error::TooManyHeaders)
+                        ));
+                    }
                     let name = h.name.parse::<HeaderName>()
                         .map_err(|e| BarcError::InvalidHeader(e.into()))?;
                     let value = HeaderValue::from_bytes(h.value)
@@ -1098,7 +1115,9 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1168,7 +1187,9 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
     let offset = rp.tell();
 
     // Seek past the body, as if read.
-- 
2.43.0


From 1abf3ca6a89b199087a9862e5d2cb830ce1813ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:43 +0000
Subject: [PATCH 12/34] fix: return an error for a record extending past the
 end of the file

With bodies deferred as slices of the file, a truncated record was returned
as if complete, and its body could be memory mapped past the end of file.
---
 barc/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 70d15f4..48672fe 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -866,6 +866,15 @@ impl BarcReader {
             return Ok(None);
         }
 
+        // Check that the file contains the whole record, since bodies may be
+        // deferred as slices of it.
+        if rhead.len > 0 {
+            let pos = fin.tell();
+            fin.seek(SeekFrom::Start(pos + rhead.len - 1))?;
+            fin.read_exact(&mut [0u8])?;
+            fin.seek(SeekFrom::Start(pos))?;
+        }
+
         if rhead.compress != Compression::Plain {
             let end = fin.tell() + rhead.len;
             let rec = read_compressed(
-- 
2.43.0


From b25f714b1964e60be4220b6556ffaabcaf9f8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:45 +0000
Subject: [PATCH 13/34] fix: return an error when a compressed request body
 ends early

When written to a file, the body was silently shortened, unlike when it was
read to RAM.
---
 barc/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 48672fe..49fb41f 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1176,7 +1176,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
-- 
2.43.0


From 465258429f01a983a9119a4799171a653dbaa0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:30 +0000
Subject: [PATCH 14/34] fix: drop the partial record when a write fails

The reserved head of a record that failed to be written was left in the
file. It ended any sequential read, making records of later, successful
writes unreachable.
---
 barc/src/lib.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 49fb41f..5cc6df3 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -664,6 +664,32 @@ impl<'a> BarcWriter<'a> {
         rec: &dyn MetaRecorded,
         strategy: &dyn CompressStrategy)
         -> Result<u64, BarcError>
+    {
+        let file: &mut File = self.guard.as_mut().unwrap();
+        let start = file.seek(SeekFrom::End(0))?;
+
+        if let Err(e) = self.write_next(rec, strategy) {
+            // Drop the partial record, which would otherwise hide the records
+            // of any subsequent writes from a sequential read.
+            let file: &mut File = self.guard.as_mut().unwrap();
+            file.set_len(start).ok();
+            return Err(e);
+        }
+
+        // Seek to end and flush
+        let file: &mut File = self.guard.as_mut().unwrap();
+        file.seek(SeekFrom::End(0))?;
+        file.flush()?;
+
+        Ok(start)
+    }
+
+    // Write a complete record, including final head, to the end of the file.
+    fn write_next(
+        &mut self,
+        rec: &dyn MetaRecorded,
+        strategy: &dyn CompressStrategy)
+        -> Result<(), BarcError>
     {
         // BarcFile::writer() guarantees Some(File)
         let file: &mut File = self.guard.as_mut().unwrap();
@@ -693,11 +719,7 @@ impl<'a> BarcWriter<'a> {
         file.seek(SeekFrom::Start(start))?;
         write_record_head(file, &head)?;
 
-        // Seek to end and flush
-        file.seek(SeekFrom::End(0))?;
-        file.flush()?;
-
-        Ok(start)
+        Ok(())
     }
 }
 
-- 
2.43.0


From e9ee61468b6a2a435f7e922a4389837d36f8ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:47 +0000
Subject: [PATCH 15/34] fix: report failure to write the end of a brotli stream

The compressor ignores write errors while finishing its stream, in which
case a record that could not be read back was written as if successful.
---
 barc/src/compress.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..7b5d0d8 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -376,7 +376,30 @@ enum Encoder<'a> {
     Plain(&'a File),
     Gzip(Box<GzEncoder<&'a File>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<NotedFile<'a>>>)
+}
+
+// File reference noting any write error, as `brotli::CompressorWriter` ignores
+// errors when finishing its stream.
+#[cfg(feature = "brotli")]
+struct NotedFile<'a> {
+    file: &'a File,
+    error: Option<io::ErrorKind>,
+}
+
+#[cfg(feature = "brotli")]
+impl<'a> Write for NotedFile<'a> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        let res = self.file.write(buf);
+        if let Err(ref e) = res {
+            self.error = Some(e.kind());
+        }
+        res
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.file.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -404,7 +427,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                NotedFile { file, error: None },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -434,6 +457,9 @@ impl<'a> EncodeWrapper<'a> {
             #[cfg(feature = "brotli")]
             Encoder::Brotli(mut bcw) => {
                 bcw.flush()?;
+                if let Some(kind) = bcw.into_inner().error {
+                    return Err(io::Error::from(kind).into());
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 120cf382662a094d4779df522c7360e7060398c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:10 +0000
Subject: [PATCH 16/34] fix: write the record type last and reread heads, for
 concurrent readers

A record head can be observed while only partly overwritten, in particular
when it crosses a page boundary. Readers then found missing or wrong sections.
The final head is now written as still reserved, followed by its type alone.
Readers read a head again once its type is final.
---
 barc/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 5cc6df3..214916a 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -599,6 +599,9 @@ const CRLF: &[u8] = b"\r\n";
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
+// Position of the record type flag in the record head.
+const V2_REC_TYPE_POS: usize = 19;
+
 // Maximum distinct names that may be added to a `HeaderMap`, without panic.
 const MAX_HEADER_NAMES: usize = 24_576;
 
@@ -715,9 +718,15 @@ impl<'a> BarcWriter<'a> {
                   orig_len, head.len);
         }
 
-        // Seek back and write final record head, with known size
+        // Seek back and write final record head, with known size. A
+        // concurrent reader could observe this only partly written, so the
+        // record remains reserved until its type flag is written last.
+        let rec_type = head.rec_type;
+        head.rec_type = RecordType::Reserved;
         file.seek(SeekFrom::Start(start))?;
         write_record_head(file, &head)?;
+        file.seek(SeekFrom::Start(start + V2_REC_TYPE_POS as u64))?;
+        write_all_len(file, &[rec_type.flag() as u8])?;
 
         Ok(())
     }
@@ -888,6 +897,14 @@ impl BarcReader {
             return Ok(None);
         }
 
+        // The type is written last, but might also have been read last, after
+        // other parts of the same head. Read it again to be certain.
+        fin.seek(SeekFrom::Start(start))?;
+        let rhead = match read_record_head(fin)? {
+            Some(rh) => rh,
+            None => return Ok(None)
+        };
+
         // Check that the file contains the whole record, since bodies may be
         // deferred as slices of it.
         if rhead.len > 0 {
@@ -1000,7 +1017,7 @@ fn read_record_head<R>(rin: &mut R)
     }
 
     let len       = parse_hex(&buf[6..18])?;
-    let rec_type  = RecordType::from_byte(buf[19])?;
+    let rec_type  = RecordType::from_byte(buf[V2_REC_TYPE_POS])?;
     let compress  = Compression::from_byte(buf[20])?;
     let meta      = parse_hex(&buf[22..27])?;
     let req_h     = parse_hex(&buf[28..33])?;
-- 
2.43.0


From 90d60fc6d7923ff0d3c3e999e9f8570c7a3d62bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:08 +0000
Subject: [PATCH 17/34] fix: treat a partly written reserve head as the end of
 records

A reader concurrent with the writer could find only the first bytes of a
reserve head, and fail with an incomplete record head error.
---
 barc/src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 214916a..9bd3ffe 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -883,7 +883,10 @@ impl BarcReader {
 
         let rhead = match read_record_head(fin) {
             Ok(Some(rh)) => rh,
-            Ok(None) => return Ok(None),
+            Ok(None) => {
+                fin.seek(SeekFrom::Start(start))?;
+                return Ok(None);
+            }
             Err(e) => return Err(e)
         };
 
@@ -902,7 +905,10 @@ impl BarcReader {
         fin.seek(SeekFrom::Start(start))?;
         let rhead = match read_record_head(fin)? {
             Some(rh) => rh,
-            None => return Ok(None)
+            None => {
+                fin.seek(SeekFrom::Start(start))?;
+                return Ok(None);
+            }
         };
 
         // Check that the file contains the whole record, since bodies may be
@@ -998,7 +1004,8 @@ fn read_compressed(rslice: ReadSlice, rhead: &RecordHead, tune: &Tunables)
     Ok(Record { rec_type, meta, req_headers, req_body, res_headers, res_body })
 }
 
-// Return RecordHead or None if EOF
+// Return RecordHead or None if EOF, or only the start of a reserve head is found
+// before EOF.
 fn read_record_head<R>(rin: &mut R)
     -> Result<Option<RecordHead>, BarcError>
     where R: Read + ?Sized
@@ -1010,6 +1017,12 @@ fn read_record_head<R>(rin: &mut R)
         return Ok(None);
     }
     if size != V2_HEAD_SIZE {
+        // Possibly the start of a reserve head, while it is being written
+        let mut reserve = Vec::with_capacity(V2_HEAD_SIZE);
+        write_record_head(&mut reserve, &V2_RESERVE_HEAD)?;
+        if reserve.starts_with(&buf[..size]) {
+            return Ok(None);
+        }
         return Err(BarcError::ReadIncompleteRecHead(size));
     }
     if &buf[0..6] != b"BARC2 " {
-- 
2.43.0


From 54c181f9ed0b9074915dc90acdf965f8f89962fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:41 +0000
Subject: [PATCH 18/34] fix: report the remaining length as HTTP body size hint

The size hint of a body used as an HTTP message body stayed at the total
length while data was delivered. The HTTP body interface defines it as the
length that remains.
---
 body-image-futio/src/stream.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 2ba0bdc..08d9204 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -339,7 +339,7 @@ impl<B, BA> http_body::Body for AsyncBodyImage<B, BA>
     }
 
     fn size_hint(&self) -> http_body::SizeHint {
-        http_body::SizeHint::with_exact(self.len)
+        http_body::SizeHint::with_exact(self.len - self.consumed)
     }
 
     fn is_end_stream(&self) -> bool {
@@ -465,7 +465,7 @@ pub struct DispatchBodyImage<B>
     where B: OutputBuf
 {
     state: DispatchState<B>,
-    len: u64,
+    remaining: u64,
 }
 
 type DispatchReturn<B> = (
@@ -485,10 +485,10 @@ impl<B> StreamWrapper for DispatchBodyImage<B>
     where B: OutputBuf
 {
     fn new(body: BodyImage, tune: FutioTunables) -> Self {
-        let len = body.len();
+        let remaining = body.len();
         DispatchBodyImage {
             state: DispatchState::Image(Some(AsyncBodyImage::new(body, tune))),
-            len,
+            remaining,
         }
     }
 }
@@ -516,6 +516,7 @@ impl<B> Stream for DispatchBodyImage<B>
                     // Recurse for correct waking
                     return Pin::new(this).poll_next(cx);
                 }
+                this.remaining = ob.len - ob.consumed;
                 res
             }
             DispatchState::Dispatch(ref mut db) => {
@@ -525,6 +526,7 @@ impl<B> Stream for DispatchBodyImage<B>
                     Poll::Ready(Ok((res, ob))) => (res, ob),
                 };
                 debug_assert_eq!(ob.arbiter.state(), Blocking::Void);
+                this.remaining = ob.len - ob.consumed;
                 this.state = DispatchState::Image(Some(ob));
                 res
             }
@@ -551,7 +553,7 @@ impl<B> http_body::Body for DispatchBodyImage<B>
     }
 
     fn size_hint(&self) -> http_body::SizeHint {
-        http_body::SizeHint::with_exact(self.len)
+        http_body::SizeHint::with_exact(self.remaining)
     }
 
     fn is_end_stream(&self) -> bool {
-- 
2.43.0


From b3c850f17f2836c98b50519dd0e74c436fd0ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:02 +0000
Subject: [PATCH 19/34] fix: recognize encoding names in any case

Transfer and content encoding names are case-insensitive, but only lower
case names were recognized. A response with another spelling was reported
as decoded without having been.
---
 body-image-futio/src/decode.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index f225e75..7bbcd20 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -53,7 +53,7 @@ fn parse_encodings<'a>(
         Ok(encs) => for av in encs.iter().rev() {
             // check in reverse, since these are in order of application
             // and we want the last
-            match *av {
+            match fold_case(av) {
                 HyEncoding::Identity => {} //ignore
                 HyEncoding::Chunked  => chunked = true,
                 HyEncoding::Deflate  => res.push(Encoding::Deflate),
@@ -72,11 +72,23 @@ fn parse_encodings<'a>(
     chunked
 }
 
+// Encoding names are case-insensitive, but the typed header only recognizes
+// them in lower case.
+fn fold_case(enc: &HyEncoding) -> HyEncoding {
+    match enc {
+        HyEncoding::EncodingExt(s) => {
+            let lower = s.to_ascii_lowercase();
+            lower.parse().unwrap_or(HyEncoding::EncodingExt(lower))
+        }
+        other => other.clone(),
+    }
+}
+
 /// Return true if the chunked Transfer-Encoding can be found in the headers.
 pub fn find_chunked(headers: &http::HeaderMap) -> bool {
     if let Ok(v) = headers.decode::<TransferEncoding>() {
         for av in v.iter() {
-            if let HyEncoding::Chunked = *av { return true }
+            if let HyEncoding::Chunked = fold_case(av) { return true }
         }
     }
     false
-- 
2.43.0


From 678209e85d46e424b0bcaddfb90884ee0574267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:26:54 +0000
Subject: [PATCH 20/34] fix: log without panic while a thread's locals are
 destroyed

A message logged from the destructor of a thread local accessed the cached
thread name after that was destroyed. This panicked, and aborted the process.
---
 piccolog/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/piccolog/src/lib.rs b/piccolog/src/lib.rs
index da6b4ab..e3a3bf2 100644
--- a/piccolog/src/lib.rs
+++ b/piccolog/src/lib.rs
@@ -20,7 +20,7 @@ impl Piccolog {
             pub static TNAME: RefCell<Option<Rc<String>>> = RefCell::new(None);
         }
 
-        let tn = TNAME.with(|c| {
+        let tn = TNAME.try_with(|c| {
             if let Some(n) = c.borrow().as_ref() {
                 Some(n.clone())
             } else {
@@ -28,22 +28,29 @@ impl Piccolog {
             }
         });
 
-        if let Some(n) = tn {
-            return n;
+        match tn {
+            Ok(Some(n)) => return n,
+            Ok(None) => {}
+            // Logging from the destructor of another thread local
+            Err(_) => return Rc::new(current_name())
         }
 
         TNAME.with(|c| {
-            let t = std::thread::current();
-            let mut tn = t.name().unwrap_or("-").to_owned();
-            if tn == "tokio-runtime-worker" {
-                tn = format!("tokio-w-{:?}", t.id());
-            }
-            *c.borrow_mut() = Some(Rc::new(tn));
+            *c.borrow_mut() = Some(Rc::new(current_name()));
             c.borrow().as_ref().unwrap().clone()
         })
     }
 }
 
+fn current_name() -> String {
+    let t = std::thread::current();
+    let mut tn = t.name().unwrap_or("-").to_owned();
+    if tn == "tokio-runtime-worker" {
+        tn = format!("tokio-w-{:?}", t.id());
+    }
+    tn
+}
+
 impl log::Log for Piccolog {
     fn enabled(&self, meta: &log::Metadata<'_>) -> bool {
         // If filtering, not from a known "local" target and Debug or Trace
-- 
2.43.0


From 52bf0f8f6891ec53c72327400f6fdce898755a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:26:54 +0000
Subject: [PATCH 21/34] fix: keep log lines whole when an argument logs

Arguments were formatted while the line was being written, so a message
logged by the formatting of an argument ended up inside of the outer line.
---
 piccolog/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/piccolog/src/lib.rs b/piccolog/src/lib.rs
index e3a3bf2..68a62a4 100644
--- a/piccolog/src/lib.rs
+++ b/piccolog/src/lib.rs
@@ -65,11 +65,12 @@ impl log::Log for Piccolog {
     fn log(&self, record: &log::Record<'_>) {
         if self.enabled(record.metadata()) {
             let tn = self.thread_name();
-            writeln!(
-                std::io::stderr(),
-                "{:5} {} {}: {}",
+            // Format first, as the args might themselves log when formatted
+            let line = format!(
+                "{:5} {} {}: {}\n",
                 record.level(), record.target(), tn, record.args()
-            ).ok();
+            );
+            std::io::stderr().write_all(line.as_bytes()).ok();
         }
     }
 
-- 
2.43.0


From addb2496eda373d251c7e4bbda5e9416afe9e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:26:54 +0000
Subject: [PATCH 22/34] fix: leave the verbosity alone when logger setup fails

A failing second setup changed the maximum level in use.
---
 piccolog/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/piccolog/src/lib.rs b/piccolog/src/lib.rs
index 68a62a4..63331aa 100644
--- a/piccolog/src/lib.rs
+++ b/piccolog/src/lib.rs
@@ -103,6 +103,9 @@ pub fn test_logger() -> bool {
 ///
 /// Will fail if already setup.
 pub fn setup_logger(level: u32) -> Result<(), Flaw> {
+    let filter = level == 1;
+    log::set_boxed_logger(Box::new(Piccolog { filter }))?;
+
     if level == 0 {
         log::set_max_level(log::LevelFilter::Info)
     } else if level < 3 {
@@ -110,9 +113,6 @@ pub fn setup_logger(level: u32) -> Result<(), Flaw> {
     } else {
         log::set_max_level(log::LevelFilter::Trace)
     }
-
-    let filter = level == 1;
-    log::set_boxed_logger(Box::new(Piccolog { filter }))?;
     Ok(())
 }
 
-- 
2.43.0


From e36741f7e9f74692d3f7ebf6ff69e0f3573037b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:12 +0000
Subject: [PATCH 23/34] fix: count and locate records from the start index in
 barc cat and cp

With --index, skipped records counted towards --count, and the first record
printed by cat was labelled with offset zero. Also, one record beyond the
count was read, so damage there made the command fail.
---
 barc-cli/src/main.rs | 46 +++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..0332941 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -14,7 +14,7 @@ use clap::{
 
 use body_image::{Tunables, RequestRecorded, Recorded};
 use barc::{
-    BarcFile,
+    BarcFile, BarcReader,
     CompressStrategy, GzipCompressStrategy, NoCompressStrategy,
     write_body, write_headers, MetaRecorded
 };
@@ -215,6 +215,20 @@ impl Default for Parts {
     }
 }
 
+// Read past any records before the start index.
+fn skip(reader: &mut BarcReader, start: &StartPos, tune: &Tunables)
+    -> Result<(), Flaw>
+{
+    if let StartPos::Index(s) = *start {
+        for _ in 0..s {
+            if reader.read(tune)?.is_none() {
+                break;
+            }
+        }
+    }
+    Ok(())
+}
+
 // The `cat` command implementation.
 fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     -> Result<(), Flaw>
@@ -227,14 +241,13 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     }
     let fout = &mut io::stdout();
     let nl = true;
-    let mut i = 0;
-    let mut offset = reader.offset();
-    while let Some(rec) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
-        }
-        i += 1;
-        if i > count { break; }
+    skip(&mut reader, start, &tune)?;
+    for _ in 0..count {
+        let offset = reader.offset();
+        let rec = match reader.read(&tune)? {
+            Some(rec) => rec,
+            None => break
+        };
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -242,8 +255,6 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
         if parts.req_body { write_body   (fout, nl, rec.req_body())?; }
         if parts.res_head { write_headers(fout, nl, rec.res_headers())?; }
         if parts.res_body { write_body   (fout, nl, rec.res_body())?; }
-
-        offset = reader.offset();
     }
 
     Ok(())
@@ -270,13 +281,12 @@ fn cp(
     let bfout = BarcFile::new(barc_out);
     let mut writer = bfout.writer()?;
 
-    let mut i = 0;
-    while let Some(record) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
-        }
-        i += 1;
-        if i > count { break; }
+    skip(&mut reader, start, &tune)?;
+    for _ in 0..count {
+        let record = match reader.read(&tune)? {
+            Some(record) => record,
+            None => break
+        };
         writer.write(&record, strategy)?;
     }
 
-- 
2.43.0


From 82ee4a0cbb0fe3cc3c325e5761c24bbb585ea2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:38 +0000
Subject: [PATCH 24/34] fix: refuse barc cp onto an input file by any path to
 it

Only equal path strings were refused. By any other path to the same file, or
a link, the copy read its own output and grew the file without end. The check
is also made for all inputs before the first is copied.
---
 barc-cli/src/main.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 0332941..175f28c 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -4,6 +4,7 @@
 
 use std::error::Error as StdError;
 use std::fmt;
+use std::fs;
 use std::io;
 use std::process;
 
@@ -78,6 +79,11 @@ fn run() -> Result<(), Flaw> {
             let files = subm.values_of("file").unwrap();
             let fout = subm.value_of("out-file").unwrap();
             let (start, count) = filter_flags(subm)?;
+            for fin in files.clone() {
+                if same_file(fin, fout) {
+                    quit!("BARC input and output file are the same: {}", fin);
+                }
+            }
             for fin in files {
                 cp(fin, fout, &start, count, cs.as_ref())?;
             }
@@ -260,6 +266,25 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     Ok(())
 }
 
+// Return true if both paths are for the same existing file, or are equal.
+fn same_file(a: &str, b: &str) -> bool {
+    if a == b {
+        return true;
+    }
+    #[cfg(unix)] {
+        use std::os::unix::fs::MetadataExt;
+        if let (Ok(a), Ok(b)) = (fs::metadata(a), fs::metadata(b)) {
+            return a.dev() == b.dev() && a.ino() == b.ino();
+        }
+    }
+    #[cfg(not(unix))] {
+        if let (Ok(a), Ok(b)) = (fs::canonicalize(a), fs::canonicalize(b)) {
+            return a == b;
+        }
+    }
+    false
+}
+
 // The `cp` command implementation.
 fn cp(
     barc_in: &str,
@@ -269,7 +294,7 @@ fn cp(
     strategy: &dyn CompressStrategy)
     -> Result<(), Flaw>
 {
-    if barc_in == barc_out {
+    if same_file(barc_in, barc_out) {
         quit!("BARC input and output file are the same: {}", barc_in);
     }
     let bfin = BarcFile::new(barc_in);
-- 
2.43.0


From 99689cdbd57354bb93ce4346a8d30c314c8e52c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:02 +0000
Subject: [PATCH 25/34] fix: accept barc cp options before the file arguments

With a value option directly before the first file, as in
"barc cp -i 1 in.barc out.barc", the output file was reported as an
unexpected argument. Take all files as one argument with the output last.
---
 barc-cli/src/main.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 175f28c..a5e1c68 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -68,7 +68,7 @@ fn run() -> Result<(), Flaw> {
         "cat" => {
             let parts = part_flags(subm);
             let files = subm.values_of("file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let (start, count) = filter_flags(subm, files.len())?;
             for f in files {
                 cat(f, &start, count, &parts)?;
             }
@@ -76,9 +76,9 @@ fn run() -> Result<(), Flaw> {
         }
         "cp" => {
             let cs = compress_flags(subm)?;
-            let files = subm.values_of("file").unwrap();
-            let fout = subm.value_of("out-file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let mut files = subm.values_of("file").unwrap();
+            let fout = files.next_back().unwrap(); // min_values(2)
+            let (start, count) = filter_flags(subm, files.len())?;
             for fin in files.clone() {
                 if same_file(fin, fout) {
                     quit!("BARC input and output file are the same: {}", fin);
@@ -153,9 +153,9 @@ fn compress_flags(matches: &ArgMatches<'_>)
 }
 
 // Parse filter flags and return (StartPos, count) or error.
-fn filter_flags(matches: &ArgMatches<'_>) -> Result<(StartPos, usize), Flaw>
+fn filter_flags(matches: &ArgMatches<'_>, files_len: usize)
+    -> Result<(StartPos, usize), Flaw>
 {
-    let files_len = matches.values_of("file").unwrap().len();
     let mut start = StartPos::default();
     let mut count = usize::max_value();
     if let Some(v) = matches.value_of("index") {
@@ -444,6 +444,7 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
         .setting(AppSettings::DeriveDisplayOrder)
         .setting(AppSettings::DontDelimitTrailingValues)
         .about("Copy BARC records from input(s) to an output file")
+        .usage("barc cp [FLAGS] [OPTIONS] <BARC-IN-FILE>... <BARC-OUT-FILE>")
         .after_help(
             "By default, copies all records from the input file(s) and appends \
              to the output file. The options (--offset, --index, --count) can \
@@ -476,15 +477,15 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
                 .long("brotli")
                 .conflicts_with("gzip")
                 .help("Use Brotli compression strategy (brotli feature)"),
+            // The out-file is last of these. As a separate argument, clap
+            // would misplace it if an option precedes the first file.
             Arg::with_name("file")
                 .required(true)
                 .multiple(true)
-                .value_name("BARC-IN-FILE")
-                .help("BARC file path(s) from which to read"),
-            Arg::with_name("out-file")
-                .required(true)
-                .value_name("BARC-OUT-FILE")
-                .help("BARC file path to create/append")
+                .min_values(2)
+                .value_name("BARC-FILE")
+                .help("BARC file path(s) from which to read, and last, \
+                       BARC file path to create/append")
         ]);
 
     App::new("barc")
-- 
2.43.0


From cda9756c00fb76120accd46bbcbc75bf0775009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:29 +0000
Subject: [PATCH 26/34] fix: ignore content-length when a response has no body

The response to a HEAD request, or a 304 response, may announce the length
of a body that is not sent.  Such a response was refused if that length
was above the maximum body length.
---
 body-image-futio/src/fetch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/fetch.rs b/body-image-futio/src/fetch.rs
index 1d3657d..abd1a1e 100644
--- a/body-image-futio/src/fetch.rs
+++ b/body-image-futio/src/fetch.rs
@@ -6,6 +6,7 @@ use futures_util::{
     stream::{StreamExt, TryStreamExt},
 };
 
+use http_body::Body as _;
 use hyperx::header::{ContentLength, TypedHeaders};
 
 use body_image::{BodySink, Dialog};
@@ -106,8 +107,10 @@ async fn resp_future(monolog: Monolog, tune: FutioTunables)
 {
     let (resp_parts, body) = monolog.response.into_parts();
 
-    // Result<BodySink> based on CONTENT_LENGTH header.
+    // Result<BodySink> based on CONTENT_LENGTH header, which doesn't apply if
+    // there is no body (e.g. to a HEAD request.)
     let bsink = match resp_parts.headers.try_decode::<ContentLength>() {
+        _ if body.is_end_stream() => Ok(BodySink::empty()),
         Some(Ok(ContentLength(l))) => {
             if l > tune.image().max_body() {
                 Err(FutioError::ContentLengthTooLong(l))
-- 
2.43.0


From e028719231dc1e396d3d0d3315e4267f47013b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:53 +0000
Subject: [PATCH 27/34] fix: read a body from arbitrary sources into
 initialized memory

A source claiming more bytes than it wrote made uninitialized memory part
of the body, with safe code only.
---
 body-image/src/lib.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 2752324..6d373bb 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -635,14 +635,10 @@ impl BodyImage {
 
         let mut size: u64 = 0;
         'eof: loop {
-            let mut buf = BytesMut::with_capacity(tune.buffer_size_ram());
+            let mut buf = zeroed_buffer(tune.buffer_size_ram());
+            let mut filled = 0;
             'fill: loop {
-                let b = unsafe { &mut *(
-                    buf.chunk_mut() as *mut _
-                        as *mut [mem::MaybeUninit<u8>]
-                        as *mut [u8]
-                )};
-                let len = match rin.read(b) {
+                let len = match rin.read(&mut buf[filled..]) {
                     Ok(len) => len,
                     Err(e) => {
                         if e.kind() == ErrorKind::Interrupted {
@@ -656,12 +652,14 @@ impl BodyImage {
                     break 'fill; // not 'eof as may have bytes in buf
 
                 }
-                unsafe { buf.advance_mut(len); }
+                filled += len;
+                assert!(filled <= buf.len());
 
-                if buf.capacity() - buf.len() < 1024 {
+                if buf.len() - filled < 1024 {
                     break 'fill;
                 }
             }
+            buf.truncate(filled);
             let len = buf.len() as u64;
             if len == 0 {
                 break 'eof;
@@ -779,14 +777,9 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
     assert!(!body.is_ram());
 
     let mut size: u64 = body.len();
-    let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
+    let mut buf = zeroed_buffer(tune.buffer_size_fs());
     loop {
-        let b = unsafe { &mut *(
-            buf.chunk_mut() as *mut _
-                as *mut [mem::MaybeUninit<u8>]
-                as *mut [u8]
-        )};
-        let len = match r.read(b) {
+        let len = match r.read(&mut buf) {
             Ok(l) => l,
             Err(e) => {
                 if e.kind() == ErrorKind::Interrupted {
@@ -799,20 +792,26 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
         if len == 0 {
             break;
         }
-        unsafe { buf.advance_mut(len); }
-
         size += len as u64;
         if size > tune.max_body() {
             return Err(BodyError::BodyTooLong(size));
         }
         debug!("Write (Fs) buffer len {}", len);
-        body.write_all(&buf)?;
-        buf.clear();
+        body.write_all(&buf[..len])?;
     }
     let body = body.prepare()?;
     Ok(body)
 }
 
+// Return a buffer of the given size, for reading from an arbitrary `Read`.
+// Initialized, because a `Read` implementation may look at the buffer or
+// claim to have read more than it has written to it.
+fn zeroed_buffer(size: usize) -> BytesMut {
+    let mut buf = BytesMut::with_capacity(size);
+    buf.resize(size, 0);
+    buf
+}
+
 impl Default for BodyImage {
     fn default() -> BodyImage { BodyImage::empty() }
 }
-- 
2.43.0


From ee2021ec8551b52a6b4c43ecaaca2440aa543a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:01 +0000
Subject: [PATCH 28/34] fix: enter the runtime before constructing the request
 of a fetch

With a response timeout configured, fetch() panicked: the timer was
constructed outside of the runtime that fetch() itself had just built.
---
 body-image-futio/src/fetch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/body-image-futio/src/fetch.rs b/body-image-futio/src/fetch.rs
index abd1a1e..e4c97c5 100644
--- a/body-image-futio/src/fetch.rs
+++ b/body-image-futio/src/fetch.rs
@@ -39,6 +39,9 @@ pub fn fetch<B>(rr: RequestRecord<B>, tune: FutioTunables)
     let connector = hyper_tls::HttpsConnector::new();
     let client = hyper::Client::builder().build(connector);
 
+    // Timeouts are constructed with the future and require runtime context.
+    let _guard = rt.enter();
+
     let join = rt.spawn(request_dialog(&client, rr, tune));
     rt.block_on(join)
         .map_err(|e| FutioError::Other(Box::new(e)))?
-- 
2.43.0


From a46853748e2d70eea733fa113ba3664f5ae28edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:10:45 +0000
Subject: [PATCH 29/34] fix: decode all members of a gzip encoded response body

---
 body-image-futio/src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index 7bbcd20..7e35886 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -1,6 +1,6 @@
 //! Implementaiton module for finding encodings and decompression
 
-use flate2::read::{DeflateDecoder, GzDecoder};
+use flate2::read::{DeflateDecoder, MultiGzDecoder};
 use hyperx::header::{
     ContentEncoding, Encoding as HyEncoding,
     Header, TransferEncoding, TypedHeaders
@@ -141,7 +141,7 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     let reader = body.reader();
     match compression {
         Encoding::Gzip => {
-            let mut decoder = GzDecoder::new(reader);
+            let mut decoder = MultiGzDecoder::new(reader);
             let len_est = body.len() * u64::from(tune.size_estimate_gzip());
             Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
         }
-- 
2.43.0


From be34dfbb190321a0224e372d6b9ed82045447caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:33 +0000
Subject: [PATCH 30/34] fix: decode deflate responses in the zlib format

---
 body-image-futio/src/decode.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index 7e35886..6621025 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -1,6 +1,8 @@
 //! Implementaiton module for finding encodings and decompression
 
-use flate2::read::{DeflateDecoder, MultiGzDecoder};
+use std::io::Read;
+
+use flate2::read::{DeflateDecoder, MultiGzDecoder, ZlibDecoder};
 use hyperx::header::{
     ContentEncoding, Encoding as HyEncoding,
     Header, TransferEncoding, TypedHeaders
@@ -146,9 +148,14 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
             Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
         }
         Encoding::Deflate => {
-            let mut decoder = DeflateDecoder::new(reader);
             let len_est = body.len() * u64::from(tune.size_estimate_deflate());
-            Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
+            if is_zlib(body)? {
+                let mut decoder = ZlibDecoder::new(reader);
+                Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
+            } else {
+                let mut decoder = DeflateDecoder::new(reader);
+                Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
+            }
         }
         #[cfg(feature = "brotli")]
         Encoding::Brotli => {
@@ -164,6 +171,17 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     }
 }
 
+// Return true if the body starts with a zlib header. The HTTP _deflate_
+// encoding is specified as the zlib format, but some servers send raw deflate
+// data.
+fn is_zlib(body: &BodyImage) -> Result<bool, FutioError> {
+    let mut head = Vec::with_capacity(2);
+    body.reader().take(2).read_to_end(&mut head)?;
+    Ok(head.len() == 2 &&
+       head[0] & 0x0f == 8 &&
+       (u16::from(head[0]) << 8 | u16::from(head[1])) % 31 == 0)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 2b692b6c228987e04014590006af1239fc83ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:31:36 +0000
Subject: [PATCH 31/34] fix: limit the buffers allocated in advance for a size
 estimate

---
 body-image/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 6d373bb..8f0ee6f 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -39,6 +39,7 @@
 
 #![warn(rust_2018_idioms)]
 
+use std::cmp;
 use std::error::Error as StdError;
 use std::env;
 use std::fmt;
@@ -204,8 +205,9 @@ impl BodySink {
         if size_estimate == 0 {
             BodySink::empty()
         } else {
-            // Estimate buffers based an 8 KiB buffer size + 1.
-            let cap = (size_estimate / 0x2000 + 1) as usize;
+            // Estimate buffers based an 8 KiB buffer size + 1, within reason
+            // as this could be an excessive estimate.
+            let cap = cmp::min(size_estimate / 0x2000 + 1, 0x2000) as usize;
             BodySink::with_ram_buffers(cap)
         }
     }
-- 
2.43.0


From 65a3d9cb74d505f430096ae3f559151f531f6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:43:13 +0000
Subject: [PATCH 32/34] fix: don't allocate the announced length of a
 compressed body in advance

---
 barc/src/lib.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 9bd3ffe..5bb7695 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1180,19 +1180,17 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Err(BarcError::ReadInvalidRecHead);
     }
 
-    let mut buf = BytesMut::with_capacity(len);
-    unsafe {
-        let b = &mut *(
-            buf.chunk_mut() as *mut _
-                as *mut [mem::MaybeUninit<u8>]
-                as *mut [u8]
-        );
-        rin.read_exact(&mut b[..len])?;
-        let l = if with_crlf { len - 2 } else { len };
-        buf.advance_mut(l);
+    // The record head may claim more than is found, so don't rely on it to
+    // allocate beyond an initial capacity.
+    let mut buf = Vec::with_capacity(cmp::min(len, 0x10_0000));
+    if rin.take(len as u64).read_to_end(&mut buf)? < len {
+        return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
+    }
+    if with_crlf {
+        buf.truncate(len - 2);
     }
 
-    Ok(BodyImage::from_slice(buf.freeze()))
+    Ok(BodyImage::from_slice(buf))
 }
 
 // Read into `BodyImage` state `FsRead`. Assumes no CRLF terminator
-- 
2.43.0


From ab0cdaa98596712ba24c93ed067d8530db859f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:45:16 +0000
Subject: [PATCH 33/34] fix: report header blocks exceeding the format limit as
 an error

---
 barc/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 5bb7695..ab4710a 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -752,6 +752,12 @@ fn write_record(
 
         let res_h = write_headers(fout, with_crlf, rec.res_headers())?;
 
+        if cmp::max(meta, cmp::max(req_h, res_h)) > V2_MAX_HBLOCK {
+            return Err(BarcError::InvalidHeader(
+                "header block exceeds size limit".into()
+            ));
+        }
+
         // Compute total thus far, excluding the fixed head length
         let mut len: u64 = (meta + req_h + res_h) as u64 + req_b;
 
@@ -825,7 +831,6 @@ pub fn write_headers<W>(
     if with_crlf && size > 0 {
         size += write_all_len(out, CRLF)?;
     }
-    assert!(size <= V2_MAX_HBLOCK);
     Ok(size)
 }
 
-- 
2.43.0


From aa17c0731e3102a813672a805e9c4ab1ecbaae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:26:05 +0000
Subject: [PATCH 34/34] fix: report bodies exceeding the format limit as an
 error

A body announced longer than the record head can express made the writer
panic while holding its lock, so later writes failed too. It now returns
an error and leaves the archive as it was.
---
 barc/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index ab4710a..d4ec150 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -748,6 +748,11 @@ fn write_record(
         let meta = write_headers(fout, with_crlf, rec.meta())?;
 
         let req_h = write_headers(fout, with_crlf, rec.req_headers())?;
+        let req_len = rec.req_body().len();
+        let pad = if with_crlf { CRLF.len() as u64 } else { 0 };
+        if req_len > V2_MAX_REQ_BODY - pad {
+            return Err(BodyError::BodyTooLong(req_len).into());
+        }
         let req_b = write_body(fout, with_crlf, rec.req_body())?;
 
         let res_h = write_headers(fout, with_crlf, rec.res_headers())?;
@@ -761,8 +766,10 @@ fn write_record(
         // Compute total thus far, excluding the fixed head length
         let mut len: u64 = (meta + req_h + res_h) as u64 + req_b;
 
-        assert!((len + rec.res_body().len() + 2) <= V2_MAX_RECORD,
-                "body exceeds size limit");
+        let res_len = rec.res_body().len();
+        if res_len > V2_MAX_RECORD - 2 - len {
+            return Err(BodyError::BodyTooLong(res_len).into());
+        }
 
         let res_b = write_body(fout, with_crlf, rec.res_body())?;
         len += res_b;
-- 
2.43.0

