From 491691e663f5c41e3473094fa0231978299943cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 01/43] fix: do not use the entry size as capacity of the
 basket offset table

An entry larger than the allocated table made WBasket::update index past its end.
---
 oxyroot/src/rtree/branch/wbranch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 2b3204b..c460ef0 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -145,7 +145,8 @@ where
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
                 let n = (sz_new - sz_old) as i32;
-                if n > basket.basket.nev_size {
+                // When there is a table of offsets, nev_size is its capacity.
+                if basket.basket.offsets().is_empty() && n > basket.basket.nev_size {
                     basket.basket.nev_size = n;
                 }
 
-- 
2.43.0


From 67718f6d9ab9d32b3e93d0a7852459e0cc58a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 02/43] fix: flush the writer when closing a file

The last bytes stayed in the BufWriter until drop, so close() returned Ok on an
incomplete file and an error on the last write was lost.
---
 oxyroot/src/riofs/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9fb9554..9346694 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -129,6 +129,11 @@ impl RootFileWriter {
         self.writer.as_mut().expect("ERROR").write_all(buf)?;
         Ok(())
     }
+
+    pub(crate) fn flush(&mut self) -> Result<()> {
+        self.writer.as_mut().expect("ERROR").flush()?;
+        Ok(())
+    }
 }
 
 // impl Clone for RootFileWriter {
@@ -357,6 +362,7 @@ impl RootFile {
         self.write_streamer_info()?;
         self.write_free_segments()?;
         self.write_header()?;
+        self.writer()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From bd6d0ebe5bd819afe20fa5607ddace98722a41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 03/43] fix: write nested structures under the names the reader
 looks for

Branches of a nested structure were not prefixed by the name of the field, and
their callback ran before the one which feeds them, dropping all entries.
---
 oxyroot_derive/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5d125ac..900aca2 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -827,8 +827,9 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                     }
                 };
 
-                #new_branch
+                // Registered before those of nested structures: they consume what this one sends.
                 tree.add_callback(Box::new(func));
+                #new_branch
 
                 Ok(())
 
@@ -952,7 +953,12 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
                     let recv_name = format_ident!("recv_{field_name}");
 
                     quote_spanned! {
-                        f.span() => <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, stringify!(#field_name).into())?;
+                        f.span() =>
+                            let field_branch_name = match branch_name {
+                                None => stringify!(#field_name).to_string(),
+                                Some(parent) => format!("{}.{}", parent, stringify!(#field_name)),
+                            };
+                            <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, Some(&field_branch_name))?;
                     }
                 });
                 quote!(#(#recurse)*)
-- 
2.43.0


From a6e28124c00931ea4119e29ca7097795b8422f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:11 +0000
Subject: [PATCH 04/43] fix: return an error when opening something which is
 not a ROOT file

It used to panic on an assertion.
---
 oxyroot/src/riofs/error.rs | 1 +
 oxyroot/src/riofs/file.rs  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 821c6c7..ac98d50 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -4,6 +4,7 @@ pub type Result<T> = core::result::Result<T, Error>;
 pub enum Error {
     TryFromSlice,
     Io(std::io::Error),
+    NotARootFile,
     FileHasAnIncorrectHeaderLength,
     CantReadDirectoryInfo {
         n_bytes_name_read: i32,
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9346694..5b20a02 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -402,7 +402,9 @@ impl RootFile {
 
         trace!("magic = {:?}", magic);
 
-        assert_eq!(magic, ROOT_MAGIC.as_bytes());
+        if magic != ROOT_MAGIC.as_bytes() {
+            return Err(Error::NotARootFile);
+        }
 
         let version = r.read_i32()?;
         trace!("version = {}", version);
-- 
2.43.0


From b5794454e71f86647c9c57c106f35596f978ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 05/43] fix: decompress payloads made of several compressed
 blocks

Only the first block was considered, although a block can not hold more than 16 MB.
---
 oxyroot/src/rcompress.rs | 42 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 44a6ab9..cdbca96 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -55,24 +55,28 @@ fn kind_of(buf: &[u8]) -> Kind {
 }
 
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
-    let _beg = 0;
     let mut end = 0;
-    let buflen = dst.len() as i64;
+    let buflen = dst.len();
     let mut hdr = [0_u8; HEADER_SIZE];
 
-    // let mut v =
-
     while end < buflen {
-        // let src = src.as_mut();
         src.read_exact(&mut hdr)?;
-        // let _ = src.read_exact(dst)?;
-        // let _ = src.read_exact(dst)?;
 
-        let _srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
-        let tgtsz = hdr[6] as i64 | (hdr[7] as i64) << 8 | (hdr[8] as i64) << 16;
-        // let tgtsz = hdr[6]) | int64(hdr[7])<<8 | int64(hdr[8])<<16
+        let srcsz = hdr[3] as usize | (hdr[4] as usize) << 8 | (hdr[5] as usize) << 16;
+        let tgtsz = hdr[6] as usize | (hdr[7] as usize) << 8 | (hdr[8] as usize) << 16;
+
+        let beg = end;
         end += tgtsz;
 
+        if end > buflen || srcsz > src.len() {
+            return Err(std::io::Error::from(std::io::ErrorKind::InvalidData).into());
+        }
+
+        // A payload bigger than K_MAX_COMPRESSED_BLOCK_SIZE is made of several blocks.
+        let (block, rest) = src.split_at(srcsz);
+        src = rest;
+        let out = &mut dst[beg..end];
+
         match kind_of(hdr.as_ref()) {
             Kind::Inherit => {
                 unimplemented!()
@@ -82,22 +86,22 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             }
 
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
-                return Ok(0);
+                let mut d = ZlibDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(src);
-                d.read_exact(dst.as_mut())?;
+                let mut d = XzDecoder::new(block);
+                d.read_exact(out)?;
             }
             Kind::OldCompression => {
                 unimplemented!()
             }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&src[8..], Some(dst.len() as i32), dst)?;
-                return Ok(0);
-                // let mut d = LZ4Decoder::new(src)?;
-                // d.read_exact(dst.as_mut())?;
+                // The block begins with a checksum of 8 bytes.
+                let block = block
+                    .get(8..)
+                    .ok_or(std::io::Error::from(std::io::ErrorKind::InvalidData))?;
+                LZ4_decompress_to_buffer(block, Some(out.len() as i32), out)?;
             }
             Kind::Zstd => {
                 unimplemented!()
-- 
2.43.0


From caec8b1e015f3542ea9faea6976ddc9f9807f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 06/43] fix: write the directory header with 64 bits positions
 in big files

The position of the list of keys was truncated, so files bigger than 2 GB could
not be opened again.
---
 oxyroot/src/riofs/dir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 6e8a0ca..b203c1d 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -3,6 +3,7 @@ use crate::riofs::file::{RootFile, RootFileReader};
 use crate::rbase::named::Named as ObjNamed;
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
+use crate::riofs::consts::kStartBigFile;
 use crate::riofs::key::Key;
 use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
 use crate::root::traits::Named;
@@ -270,6 +271,11 @@ impl TDirectoryFile {
     fn write_header(&mut self, file: &mut RootFile) -> Result<()> {
         self.mtime = utils::now();
 
+        if self.seek_keys > kStartBigFile && !self.is_big_file() {
+            // The position of keys does not fit in 32 bits.
+            self.dir.rvers += 1000;
+        }
+
         let n_bytes = Self::record_size(file.version()) as i32;
         trace!(";TDirectoryFile.write_header.n_bytes:{:?}", n_bytes);
         trace!(
-- 
2.43.0


From f02e8d7dbfa72a05d860a935c31b0df08f77fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 07/43] fix: accept directory records of files with a long path

The path is stored twice in the record, the limit of 1000 bytes refused files
written by RootFile::create. ROOT uses 10000 too.
---
 oxyroot/src/riofs/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index b203c1d..0ced988 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -174,11 +174,11 @@ impl TDirectoryFile {
         dir.dir.named.name = r.read_string()?.to_string();
         dir.dir.named.title = r.read_string()?.to_string();
 
-        if dir.n_bytes_name < 10 || dir.n_bytes_name > 1000 {
+        if dir.n_bytes_name < 10 || dir.n_bytes_name > 10000 {
             return Err(crate::riofs::error::Error::CantReadDirectoryInfo {
                 n_bytes_name_read: dir.n_bytes_name,
                 n_bytes_name_min_allowed: 10,
-                n_bytes_name_max_allowed: 1000,
+                n_bytes_name_max_allowed: 10000,
             });
         }
 
-- 
2.43.0


From 801764cc558cdcf2152141e8d02f639a2b75d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:48 +0000
Subject: [PATCH 08/43] fix: do not overflow the cycle of the key of the
 32768th basket

---
 oxyroot/src/rtree/branch/wbranch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index c460ef0..1fad109 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -168,7 +168,7 @@ where
             ";WBranch.create_new_basket.b.write_basket:{:?}",
             self.branch.tbranch_mut().write_basket
         );
-        let cycle = self.branch.tbranch_mut().write_basket as i16 + 1;
+        let cycle = self.branch.tbranch_mut().write_basket.wrapping_add(1) as i16;
         let basket_size = self.branch.tbranch_mut().basket_size;
         let offset_len = self.branch.tbranch_mut().entry_offset_len;
         let basket = Basket::new_from_branch(&self.branch, cycle, basket_size, offset_len, tree, f);
-- 
2.43.0


From 43c288f88069eab1e90ef8aecfd67e6576916444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 09/43] fix: keep the layout and the length of the key of a
 record crossing 2 GB consistent

---
 oxyroot/src/riofs/key.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 3e12c81..6ba21b7 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -228,13 +228,14 @@ impl Key {
         };
         key.n_bytes = key.obj_len + key.key_len;
         let eof = f.end();
+        // Must be consistent with key_len, hence before the end of the file moves
+        if f.is_big_file() {
+            key.rvers += 1000
+        }
         if obj_len > 0 {
             key.seek_key = eof;
             f.set_end(key.seek_key + key.n_bytes as i64)?;
         }
-        if f.is_big_file() {
-            key.rvers += 1000
-        }
 
         key.seek_pdir = f.dir().seek_dir;
 
-- 
2.43.0


From 355cf75c2a270c62aea6ce3093917b4a91ecacaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 10/43] fix: return an error when reading past the end of a
 buffer

---
 oxyroot/src/rbytes/rbuffer.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 955617e..a26034e 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -26,22 +26,29 @@ impl<'a> Rbuff<'a> {
     //     Ok(buf)
     // }
 
-    fn extract_const_n<const N: usize>(&mut self) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + N)];
-        self.c += N;
-        Ok(buf)
+    /// The next `n` bytes, or an error if there are not as many.
+    fn extract_n(&mut self, n: usize) -> Result<&'a [u8]> {
+        let p: &'a [u8] = self.p;
+        let buf = self.c.checked_add(n).and_then(|end| p.get(self.c..end));
+        match buf {
+            Some(buf) => {
+                self.c += n;
+                Ok(buf)
+            }
+            None => Err(Misc(format!(
+                "rbytes: can not read {n} bytes at position {} of a buffer of {} bytes",
+                self.c,
+                p.len()
+            ))),
+        }
     }
 
-    fn extract_as_array<const N: usize>(&mut self) -> Result<[u8; N]> {
-        let buf: [u8; N] = self.p[self.c..(self.c + N)].as_ref().try_into()?;
-        self.c += N;
-        Ok(buf)
+    fn extract_const_n<const N: usize>(&mut self) -> Result<&[u8]> {
+        self.extract_n(N)
     }
 
-    fn extract_n(&mut self, n: usize) -> Result<&[u8]> {
-        let buf = &self.p[self.c..(self.c + n)];
-        self.c += n;
-        Ok(buf)
+    fn extract_as_array<const N: usize>(&mut self) -> Result<[u8; N]> {
+        Ok(self.extract_n(N)?.try_into()?)
     }
 
     fn extract_until<F>(&mut self, n: usize, pred: F) -> Result<&'a [u8]>
-- 
2.43.0


From eda23324ced6f0cc8e316658aeb96b198e68c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 11/43] fix: do not move the cursor past an unterminated C
 string

---
 oxyroot/src/rbytes/rbuffer.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index a26034e..0b2326b 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -51,18 +51,24 @@ impl<'a> Rbuff<'a> {
         Ok(self.extract_n(N)?.try_into()?)
     }
 
+    /// At most `n` bytes, up to the one matching `pred` (which is consumed but not returned).
     fn extract_until<F>(&mut self, n: usize, pred: F) -> Result<&'a [u8]>
     where
         F: FnMut(&u8) -> bool,
     {
-        let m = min(self.c + n, self.p.len());
-        let buf = &self.p[self.c..m];
-        let mut iter = buf.split(pred);
-        if let Some(buf) = iter.next() {
-            self.c += buf.len() + 1;
-            return Ok(buf);
+        let p: &'a [u8] = self.p;
+        let buf = p.get(self.c..).unwrap_or_default();
+        let buf = &buf[..min(n, buf.len())];
+        match buf.iter().position(pred) {
+            Some(i) => {
+                self.c += i + 1;
+                Ok(&buf[..i])
+            }
+            None => {
+                self.c += buf.len();
+                Ok(buf)
+            }
         }
-        Ok(buf)
     }
 
     // pub fn visible_buffer(&self) -> &'_ [u8] {
-- 
2.43.0


From 8666197e56e2b42c906aaf208a137fb383fb785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 12/43] fix: report arrays with several dimensions with their
 total extent

---
 oxyroot/src/rtree/branch/tbranch.rs         | 37 ++++++++++-----------
 oxyroot/src/rtree/branch/tbranch_element.rs | 22 ++----------
 2 files changed, 19 insertions(+), 40 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 29f69c5..0ef1fcc 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -286,26 +286,7 @@ impl TBranch {
             let leave = self.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
 
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = array_extent(leave.title());
 
             match leave.type_name() {
                 Some(s) => match dim {
@@ -331,6 +312,22 @@ impl TBranch {
     }
 }
 
+/// Number of elements of the array described by the title of a leaf: the product of all its
+/// dimensions, 0 if one of them is held by another leaf, `None` if it is not an array.
+pub(crate) fn array_extent(title: &str) -> Option<i32> {
+    lazy_static! {
+        static ref RE_TITLE_HAS_DIMS: Regex = Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
+        static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([^\[\]]+)\]").unwrap();
+    }
+
+    let dims = RE_TITLE_HAS_DIMS.find(title)?;
+    let mut extent: i32 = 1;
+    for m in RE_ITEM_DIM_PATTERN.captures_iter(dims.as_str()) {
+        extent = m[1].parse().ok().and_then(|d| extent.checked_mul(d)).unwrap_or(0);
+    }
+    Some(extent.max(0))
+}
+
 impl Named for TBranch {
     fn name(&self) -> &'_ str {
         self.named.name()
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index be4fe6f..7fa1934 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -5,6 +5,7 @@ use crate::rmeta::EReadWrite;
 use crate::root::traits::Named;
 use crate::root::traits::Object as TraitObject;
 use crate::rtree::basket::{Basket, BasketData};
+use crate::rtree::branch::tbranch::array_extent;
 use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::{BranchChunks, TBranch};
 use crate::rtree::leaf::Leaf;
@@ -128,26 +129,7 @@ impl TBranchElement {
         } else if self.branch.leaves.len() == 1 {
             let leave = self.branch.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = array_extent(leave.title());
 
             return match leave.type_name() {
                 Some(t) => t.into(),
-- 
2.43.0


From 22cb5688be1c292be6c24546245624e8651d6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 13/43] fix: yield the entries of the basket embedded in the
 tree record last

---
 oxyroot/src/rtree/branch/tbranch.rs         | 9 +++++++--
 oxyroot/src/rtree/branch/tbranch_element.rs | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 0ef1fcc..c7b19dc 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -267,9 +267,10 @@ impl TBranch {
                     },
                 }
             });
+        // the embedded basket holds the last entries, which are not flushed yet
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 
@@ -323,7 +324,11 @@ pub(crate) fn array_extent(title: &str) -> Option<i32> {
     let dims = RE_TITLE_HAS_DIMS.find(title)?;
     let mut extent: i32 = 1;
     for m in RE_ITEM_DIM_PATTERN.captures_iter(dims.as_str()) {
-        extent = m[1].parse().ok().and_then(|d| extent.checked_mul(d)).unwrap_or(0);
+        extent = m[1]
+            .parse()
+            .ok()
+            .and_then(|d| extent.checked_mul(d))
+            .unwrap_or(0);
     }
     Some(extent.max(0))
 }
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 7fa1934..dbdde47 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -417,9 +417,10 @@ impl TBranchElement {
                 },
             }
         });
+        // the embedded basket holds the last entries, which are not flushed yet
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 }
-- 
2.43.0


From 6db5c7479196266140379bb7788617c8e297696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 14/43] fix: always use the entry offsets of counted arrays

---
 oxyroot/src/rtree/branch/tbranch.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index c7b19dc..c17e095 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -178,10 +178,16 @@ impl TBranch {
             self.leaves.len()
         );
 
+        // an array whose number of elements is held by another leaf
+        let jagged = match self.leaves.first() {
+            None | Some(Leaf::C(_)) => false,
+            Some(leaf) => array_extent(leaf.title()) == Some(0),
+        };
+
         let embedded_basket = if !self.baskets.is_empty() {
             assert_eq!(self.baskets.len(), 1);
 
-            Some(self.baskets.iter().map(|b| {
+            Some(self.baskets.iter().map(move |b| {
                 let key_lenght = b.key().key_len() as usize;
                 let buf = b
                     .key()
@@ -193,7 +199,18 @@ impl TBranch {
                 let n = b.nev_buf();
                 let chunk_size = 1;
 
-                BranchChunks::RegularSized((n, chunk_size, buf))
+                if !jagged {
+                    return BranchChunks::RegularSized((n, chunk_size, buf));
+                }
+
+                // the offsets of the entries count from the beginning of the key
+                let starts = || b.offsets().iter().map(|o| *o as usize - key_lenght);
+                let stops = starts().skip(1).chain(std::iter::once(buf.len()));
+                let data = starts()
+                    .zip(stops)
+                    .map(|(start, stop)| buf[start..stop].to_vec())
+                    .collect();
+                BranchChunks::IrregularSized((n, data, 0))
             }))
         } else {
             None
@@ -201,7 +218,7 @@ impl TBranch {
 
         let ret = izip!(&self.basket_seek, &self.basket_bytes, size_leaves, leaves)
             .filter(|(_start, len, _chunk_size, _leave)| **len > 0)
-            .map(|(start, len, mut chunk_size, leave)| {
+            .map(move |(start, len, mut chunk_size, leave)| {
                 assert_ne!(*len, 0);
                 let mut reader = self.reader.as_ref().unwrap().clone();
                 let buf = reader.read_at(*start as u64, *len as u64).unwrap();
@@ -239,7 +256,7 @@ impl TBranch {
                         _ => {
                             let n_elements_in_buffer = buf.len() / chunk_size as usize;
                             // trial and error...
-                            if n_elements_in_buffer == self.entries as usize {
+                            if !jagged && n_elements_in_buffer == self.entries as usize {
                                 // assert_eq!(n, self.entries as usize);
                                 trace!("send ({n},{chunk_size},{:?})", buf);
                                 BranchChunks::RegularSized((
-- 
2.43.0


From f7b949ca19b667b5bc7e53bb3031bc1b349c7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 15/43] fix: read embedded baskets of members of fixed size

---
 oxyroot/src/rtree/branch/tbranch_element.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index dbdde47..8d98a74 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -252,6 +252,15 @@ impl TBranchElement {
                 let key_lenght = b.key().key_len();
                 let buf = b.key().buffer();
 
+                if b.offsets().is_empty() {
+                    // entries of fixed size
+                    return BranchChunks::RegularSized((
+                        b.nev_buf(),
+                        b.entry_size(),
+                        buf[key_lenght as usize..].to_vec(),
+                    ));
+                }
+
                 let n = buf.len() as i32;
 
                 let offsets = b.offsets().iter().chain(once(&n));
-- 
2.43.0


From 35c097e4501e9448a64e4806988ed2cd94126521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 16/43] fix: accept basket tables without spare room

---
 oxyroot/src/rtree/branch/tbranch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index c17e095..9318305 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -461,8 +461,9 @@ impl Unmarshaler for TBranch {
                 let mut b = vec![0_i64; self.max_baskets as usize];
                 r.read_array_i64(b.as_mut_slice())?;
 
-                self.basket_entry
-                    .extend_from_slice(&b.as_slice()[..(self.write_basket + 1) as usize]);
+                self.basket_entry.extend_from_slice(
+                    &b.as_slice()[..(self.write_basket + 1).min(self.max_baskets) as usize],
+                );
             }
 
             {
-- 
2.43.0


From 41ee5ac8f4ae4594a3dd55038dd26a38ea9aab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 17/43] fix: translate type names word by word

---
 oxyroot/src/rtree/streamer_type.rs | 135 +++++++++++++++--------------
 1 file changed, 69 insertions(+), 66 deletions(-)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 05f793c..cb75af2 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -255,23 +255,42 @@ pub fn replace_string(s: &str, from: &str, to: &str) -> String {
 
 /// change c++ typename from "int" to int32_t and so on
 pub(crate) fn clean_type_name<T: AsRef<str>>(ty: T) -> String {
-    let ret = ty.as_ref().to_string().replace("unsigned int", "uint32_t");
-    let ret = replace_string(&ret, "int", "int32_t");
-    // undo change (uint32_t -> uint32_t32_t)
-    let ret = ret.replace("uint32_t32_t", "uint32_t");
-    // undo change (int32_t -> int32_t32_t)
-    let ret = ret.replace("int32_t32_t", "int32_t");
-    let ret = ret.replace("uint32_t16_t", "uint16_t");
-    let ret = ret.replace("uint32_t8_t", "uint8_t");
-    let ret = ret.replace("int32_t16_t", "int16_t");
-    let ret = ret.replace("int32_t8_t", "int8_t");
-    let ret = ret.replace("int32_t64_t", "int64_t");
-
-    let ret = ret.replace("unsigned short", "uint16_t");
-    let ret = ret.replace("short", "int16_t");
-
-    let ret = ret.replace("unsigned long", "uint64_t");
-    let ret = ret.replace("long", "int64_t");
+    lazy_static! {
+        static ref RE_STD: Regex = Regex::new(r"\bstd\s*::\s*").unwrap();
+        static ref RE_INTEGER: Regex = Regex::new(concat!(
+            r"\b(?:(?P<sign>unsigned|signed)\s+)?",
+            r"(?:(?P<long>long)(?:\s+long)?|(?P<short>short)|(?P<char>char)|int\b)",
+            r"(?:\s+int)?\b(?P<star>\s*\*)?",
+            r"|\b(?P<root>U?Long64_t)\b"
+        ))
+        .unwrap();
+    }
+
+    let ret = RE_STD.replace_all(ty.as_ref(), "");
+    let ret = RE_INTEGER.replace_all(&ret, |c: &regex::Captures| {
+        let star = c.name("star").map_or("", |_| "*");
+        let (bits, unsigned) = match c.name("root") {
+            Some(root) => ("64", root.as_str().starts_with('U')),
+            None => {
+                let sign = c.name("sign").map(|s| s.as_str());
+                let bits = if c.name("long").is_some() {
+                    "64"
+                } else if c.name("short").is_some() {
+                    "16"
+                } else if c.name("char").is_some() {
+                    if sign.is_none() && !star.is_empty() {
+                        // a string
+                        return "char*".to_string();
+                    }
+                    "8"
+                } else {
+                    "32"
+                };
+                (bits, sign == Some("unsigned"))
+            }
+        };
+        format!("{}int{}_t{}", if unsigned { "u" } else { "" }, bits, star)
+    });
 
     ret.replace(' ', "")
 }
@@ -279,57 +298,41 @@ pub(crate) fn clean_type_name<T: AsRef<str>>(ty: T) -> String {
 /// Convert C++ templated name to a rust one
 /// Example vector<int> -> Vec<i32>
 pub(crate) fn type_name_cpp_to_rust(ty: &str) -> String {
-    let ty = clean_type_name(ty);
-    let ret = ty.replace("string", "String");
-    let ret = ret.replace("vector", "Vec");
-    let ret = ret.replace("map", "HashMap");
-    let mut ret = ret.replace("set", "HashSet");
-
-    let replaces = [
-        ("uint64_t", "u64"),
-        ("int64_t", "i64"),
-        ("uint32_t", "u32"),
-        ("int32_t", "i32"),
-        ("uint16_t", "u16"),
-        ("int16_t", "i16"),
-        ("uint8_t", "u8"),
-        ("int8_t", "i8"),
-        ("float", "f32"),
-        ("double", "f64"),
-        ("bool", "bool"),
-    ];
-
-    for (cpp, rust) in replaces.iter() {
-        ret = ret.replace(cpp, rust);
-
-        //i32[] -> Slice<i32>
-        let cpp_s = format!("{}[]", rust);
-        let rust_s = format!("Slice<{}>", rust);
-        ret = ret.replace(cpp_s.as_str(), rust_s.as_str());
-
-        let start = &format!("{}[", rust);
-        let end = "]";
-        // trace!("ty = {} -> ret = {}", ty, ret);
-        if let Some(start) = ret.find(start) {
-            let start = start + rust.len() + 1;
-            // trace!("\tstart = {}", start);
-
-            let right = ret.get(start..).unwrap();
-            // trace!("\tright = {}", right);
-            if !right.starts_with(']') {
-                let end = right.find(end).unwrap();
-                // trace!("\t\tend = {}", end);
-                let inner = ret.get(start..(end + start)).unwrap();
-                // trace!("\t\tinner = {}", inner);
-                let rust_s = format!("{}[{}]", rust, inner);
-                let rust_o = format!("[{};{}]", rust, inner);
-                // trace!("\t\trust_s = {}", rust_s);
-                ret = ret.replace(rust_s.as_str(), rust_o.as_str());
-            }
-        }
+    lazy_static! {
+        // a name, which may be qualified, with the extent of an array of it
+        static ref RE_NAME: Regex =
+            Regex::new(r"(?P<name>\w+(?:::\w+)*)(?P<array>\[(?P<len>[^\[\]]*)\])?").unwrap();
     }
 
-    ret.replace("char*", "String")
+    let ty = clean_type_name(ty).replace("char*", "string");
+    let ret = RE_NAME.replace_all(&ty, |c: &regex::Captures| {
+        let rust = match &c["name"] {
+            "string" => "String",
+            "vector" => "Vec",
+            "map" => "HashMap",
+            "set" => "HashSet",
+            "uint64_t" => "u64",
+            "int64_t" => "i64",
+            "uint32_t" => "u32",
+            "int32_t" => "i32",
+            "uint16_t" => "u16",
+            "int16_t" => "i16",
+            "uint8_t" => "u8",
+            "int8_t" => "i8",
+            "float" => "f32",
+            "double" => "f64",
+            "bool" => "bool",
+            _ => return c[0].to_string(),
+        };
+        match c.name("len").map(|l| l.as_str()) {
+            None => rust.to_string(),
+            // i32[] -> Slice<i32>
+            Some("") => format!("Slice<{rust}>"),
+            Some(len) => format!("[{rust};{len}]"),
+        }
+    });
+
+    ret.to_string()
 }
 
 #[cfg(test)]
-- 
2.43.0


From e988b20b46419e11769c55e4f9b38e90bdddd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 18/43] fix: refuse to read a column as a map of other types,
 accept sets of any kind of string

---
 oxyroot/src/rbytes/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 4eba0b7..8cec7d6 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -382,7 +382,11 @@ where
     {
         match T::classe_name() {
             None => None,
-            Some(tys) => vec![format!("set<{}>", tys.first().unwrap())].into(),
+            Some(tys) => tys
+                .iter()
+                .map(|t| format!("set<{}>", t))
+                .collect::<Vec<String>>()
+                .into(),
         }
     }
 }
@@ -423,6 +427,18 @@ where
 
         Ok(())
     }
+
+    fn class_name() -> Option<Vec<String>>
+    where
+        Self: Sized,
+    {
+        let (keys, values) = (K::classe_name()?, V::classe_name()?);
+        Some(
+            keys.iter()
+                .flat_map(|k| values.iter().map(move |v| format!("map<{},{}>", k, v)))
+                .collect(),
+        )
+    }
 }
 
 impl<T, const N: usize> Unmarshaler for [T; N]
-- 
2.43.0


From 03dab30a94e01ed1ee4f1aa74efc79db4df2875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 19/43] fix: return an error when asking for a tree under the
 name of another object or with a cycle

---
 oxyroot/src/riofs/dir.rs   | 18 +++++++-----------
 oxyroot/src/riofs/file.rs  |  5 ++++-
 oxyroot/src/riofs/key.rs   | 14 +-------------
 oxyroot/src/riofs/utils.rs |  7 ++++---
 4 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 0ced988..b814868 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -305,23 +305,19 @@ impl TDirectoryFile {
     ) -> Result<Box<dyn FactoryItemRead>> {
         trace!("get_object, namecycle = {}", namecycle);
 
-        let (name, cycle) = decode_name_cycle(namecycle)?;
+        // the name itself may contain a `;`
+        let (name, cycle) = if self.keys.iter().any(|k| k.name() == namecycle) {
+            (namecycle, 9999)
+        } else {
+            decode_name_cycle(namecycle)?
+        };
         trace!("get_object, name = {}", name);
         trace!("self.keys.len = {}", self.keys.len());
 
         let mut keys = self
             .keys
             .iter()
-            .filter(|k| {
-                if k.name() == name {
-                    if cycle != 9999 {
-                        todo!();
-                    }
-                    true
-                } else {
-                    false
-                }
-            })
+            .filter(|k| k.name() == name && (cycle == 9999 || k.cycle() == cycle as i32))
             .collect::<Vec<_>>();
 
         let key = match keys.len() {
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 5b20a02..eef2718 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -901,7 +901,10 @@ impl RootFile {
 
     pub fn get_tree(&mut self, name: &str) -> Result<ReaderTree> {
         let objet = self.get_object(name)?;
-        let mut objet: ReaderTree = *objet.downcast::<ReaderTree>().expect("");
+        let mut objet: ReaderTree = match objet.downcast::<ReaderTree>() {
+            Ok(tree) => *tree,
+            Err(_) => return Err(Error::ObjectNotInDirectory(name.to_string())),
+        };
 
         objet.set_reader(Some(self.reader()?.clone()));
         objet.set_streamer_info(self.sinfos.clone());
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 6ba21b7..11595fa 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -2,7 +2,6 @@ use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::wbuffer::WBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
 use crate::riofs::consts::kStartBigFile;
-use crate::riofs::dir::TDirectoryFile;
 use crate::riofs::file::{RootFileReader, RootFileWriter};
 use crate::riofs::utils::datetime_to_u32;
 use crate::riofs::{utils, Result};
@@ -442,18 +441,7 @@ impl Key {
 
         // self.objarr = *objs.downcast::<rcont::objarray::OBJ_ARRAY>().unwrap();
 
-        let obj = Some(vv);
-
-        if obj
-            .as_ref()
-            .unwrap()
-            .downcast_ref::<TDirectoryFile>()
-            .is_ok()
-        {
-            todo!();
-        }
-
-        Ok(obj)
+        Ok(Some(vv))
     }
     pub(crate) fn key_len(&self) -> i32 {
         self.key_len
diff --git a/oxyroot/src/riofs/utils.rs b/oxyroot/src/riofs/utils.rs
index 3c8c819..0c605d5 100644
--- a/oxyroot/src/riofs/utils.rs
+++ b/oxyroot/src/riofs/utils.rs
@@ -6,9 +6,10 @@ pub fn decode_name_cycle(namecycle: &str) -> Result<(&str, u16), Error> {
 
     match toks.len() {
         1 => Ok((toks[0], 9999)),
-        2 => {
-            unimplemented!()
-        }
+        2 => match toks[1].parse() {
+            Ok(cycle) => Ok((toks[0], cycle)),
+            Err(_) => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
+        },
 
         _ => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
     }
-- 
2.43.0


From b3e27d4ecacf87cc3edf196e7bd0581aa5ef9030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 20/43] fix: do not poll again the iterator of a column which
 has ended

---
 oxyroot/src/rtree/branch/wbranch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 1fad109..9e3df79 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -99,7 +99,8 @@ where
 
         let mut branch = Self {
             branch,
-            iterator: Box::new(it),
+            // it must not be polled again once it has ended
+            iterator: Box::new(it.fuse()),
             basket: None,
         };
         // branch.basket = Some(branch.create_new_basket(tree, None));
-- 
2.43.0


From 59c8a21d6adb04fbaf1bbfc363c146aac836b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 21/43] fix: ignore the spare room of the basket tables of old
 branches

---
 oxyroot/src/rtree/branch/tbranch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 9318305..a67b57b 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -582,6 +582,7 @@ impl Unmarshaler for TBranch {
                 let mut b = vec![0; self.max_baskets as usize];
                 r.read_array_i32(b.as_mut_slice())?;
 
+                b.truncate(self.write_basket as usize);
                 self.basket_bytes.extend_from_slice(b.as_slice());
 
                 trace!(
@@ -635,6 +636,7 @@ impl Unmarshaler for TBranch {
                     _ => {
                         let mut b = vec![0_i32; self.max_baskets as usize];
                         r.read_array_i32(b.as_mut_slice())?;
+                        b.truncate(self.write_basket as usize);
                         self.basket_seek.reserve(b.len());
 
                         for v in b {
-- 
2.43.0


From ef50d9633f0878560e7084ea759c9c8382029a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 22/43] fix: refuse to iterate over a column as slices of
 unknown size

---
 oxyroot/src/rusty/containers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oxyroot/src/rusty/containers.rs b/oxyroot/src/rusty/containers.rs
index 1073a2e..0d1c062 100644
--- a/oxyroot/src/rusty/containers.rs
+++ b/oxyroot/src/rusty/containers.rs
@@ -124,4 +124,12 @@ where
 
         Ok(())
     }
+
+    fn class_name() -> Option<Vec<String>>
+    where
+        Self: Sized,
+    {
+        // the size is not known from the type: no column can be read as such
+        Some(Vec::new())
+    }
 }
-- 
2.43.0


From 2594897174fd927942de12a64997d774182a640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 23/43] fix: recognise headers by their byte count, not by the
 length of the content

A header was skipped only if the first byte was 0x40: entries of 16 MB and
more begin by another byte, and a TString of 64 characters stored without
header begins by this one.
---
 oxyroot/src/rbytes/rbuffer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 0b2326b..9a5ab0f 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -529,12 +529,16 @@ impl<'a> RBuffer<'a> {
                 return Ok(());
             }
 
-            if self.len() > 1 && s > 1 {
-                let mut hdr = [0; 1];
-                self.read_array_u8_into(&mut hdr)?;
-                self.rewind(1)?;
+            if s > 1 {
+                // there is a header only if it begins by a byte count, of what follows
+                if self.len() < 4 {
+                    return Ok(());
+                }
+                let remaining = self.len() - 4;
+                let hdr = self.read_u32()?;
+                self.rewind(4)?;
 
-                if hdr != [64] {
+                if hdr >> 30 != 1 || i64::from(hdr & 0x3fff_ffff) > remaining {
                     return Ok(());
                 }
             }
-- 
2.43.0


From 6a1176aa62ed5b95f5824ffd56fb054840d2b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 24/43] fix: read columns whose container is named with the
 std:: prefix

The header of their entries was taken for their content.
---
 oxyroot/src/rtree/streamer_type.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index cb75af2..807f488 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -15,15 +15,19 @@ pub fn parse_typename(typename: &str) -> i32 {
 
     trace!("tokens = {:?}", tokens);
 
-    if tokens.get(0).unwrap().as_str() == "vector" {
+    // the container may be written with its namespace
+    let name = tokens.get(0).unwrap().as_str().replace(' ', "");
+    let name = name.strip_prefix("std::").unwrap_or(&name);
+
+    if name == "vector" {
         return 6;
     }
 
-    if tokens.get(0).unwrap().as_str() == "set" {
+    if name == "set" {
         return 6;
     }
 
-    if tokens.get(0).unwrap().as_str() == "map" {
+    if name == "map" {
         return 12;
     }
 
-- 
2.43.0


From 73c5ca3ae05899d459022e21f4a350cb2ad0baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 25/43] fix: derive macros do not compile for structures whose
 field or type names collide with theirs

---
 oxyroot_derive/src/lib.rs | 56 +++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 900aca2..b558f5b 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -661,45 +661,36 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
     match &data {
         Data::Struct(data) => match &data.fields {
             Fields::Named(fields) => {
+                // names which no field can have
                 let get_sliced = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
+                    let slice_name = format_ident!("__slice_{field_name}");
                     quote_spanned! {
                         f.span() =>
-                            let #field_name = self.#field_name.next()?.unwrap();
-                            let _size_slice = #field_name.inner().len();
+                            let #slice_name = self.#field_name.next()?.unwrap();
+                            let __size_slice = #slice_name.inner().len();
                     }
                 });
                 let get_sliced = quote!(  #(#get_sliced)* );
 
                 let recurse = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let field_namei = format_ident!("{field_name}i");
+                    let slice_name = format_ident!("__slice_{field_name}");
                     quote_spanned! {
-                        f.span() => let #field_namei = #field_name.inner()[i];
-                    }
-                });
-                let get_slice_i = quote!(  #(#recurse)* );
-
-                let recurse = fields.named.iter().map(|f| {
-                    let field_name = f.ident.as_ref().unwrap();
-                    let field_namei = format_ident!("{field_name}i");
-                    quote_spanned! {
-                        f.span() => #field_name: #field_namei,
+                        f.span() => #field_name: #slice_name.inner()[__i],
                     }
                 });
                 let ret = quote!(  #(#recurse)* );
 
                 quote!(
                     #get_sliced
-                    let mut v = Vec::new();
-                    for i in 0.._size_slice {
-                        #get_slice_i
-                        let  p = #name {
+                    let mut __v = Vec::new();
+                    for __i in 0..__size_slice {
+                        __v.push(#name {
                             #ret
-                        };
-                        v.push(p);
+                        });
                     }
-                    Some(oxyroot::ReadFromTreeResult::Slice(Slice::new(v)))
+                    Some(oxyroot::ReadFromTreeResult::Slice(Slice::new(__v)))
                 )
             }
             Fields::Unnamed(_) => {
@@ -762,41 +753,42 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                 use std::cell::RefCell;
                 use std::rc::Rc;
 
-                struct Channel<T> {
+                // names which no type of a field has
+                struct __Channel<T> {
                     current: Rc<RefCell<Option<T>>>,
                 }
 
-                struct Sender<T> {
-                    channel: Channel<T>,
+                struct __Sender<T> {
+                    channel: __Channel<T>,
                 }
 
-                impl<T> Sender<T> {
+                impl<T> __Sender<T> {
                     fn send(&self, value: Option<T>) {
                         let mut current = self.channel.current.borrow_mut();
                         *current = value;
                     }
                 }
 
-                struct Receiver<T> {
-                    channel: Channel<T>,
+                struct __Receiver<T> {
+                    channel: __Channel<T>,
                 }
 
-                pub fn make_channel<T>() -> (Sender<T>, Receiver<T>) {
+                pub fn make_channel<T>() -> (__Sender<T>, __Receiver<T>) {
                     let current = Rc::new(RefCell::new(None));
-                    let channel = Channel {
+                    let channel = __Channel {
                         current: current.clone(),
                     };
 
-                    let sender = Sender { channel: channel };
-                    let receiver = Receiver {
-                        channel: Channel {
+                    let sender = __Sender { channel: channel };
+                    let receiver = __Receiver {
+                        channel: __Channel {
                             current: current.clone(),
                         },
                     };
                     (sender, receiver)
                 }
 
-                impl<T> Iterator for Receiver<T> {
+                impl<T> Iterator for __Receiver<T> {
                     type Item = T;
 
                     fn next(&mut self) -> Option<Self::Item> {
-- 
2.43.0


From 6dae741c43a75ec5d8ce5e75b105d474de9b6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 26/43] fix: fields which are raw identifiers make the derive
 macros panic; their columns are named without r#

---
 oxyroot_derive/src/lib.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index b558f5b..a4ddd23 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -6,6 +6,7 @@ use quote::{format_ident, quote, quote_spanned};
 
 // use oxyroot;
 
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::Expr;
 use syn::{parse_macro_input, parse_quote, Fields, GenericParam, Generics};
@@ -213,7 +214,7 @@ pub fn derive_ead_from_tree(input: proc_macro::TokenStream) -> proc_macro::Token
     for f in data.iter() {
         let original_name = f.ident.as_ref().expect("de");
         let final_name = match &f.rename {
-            None => original_name.to_string(),
+            None => original_name.unraw().to_string(),
 
             Some(i) => i.to_string(),
         };
@@ -453,7 +454,7 @@ fn write_func_for_readtotree(data: &Data, opts_by_fiels: &OptionByField) -> Toke
             Fields::Named(fields) => {
                 let branch_names = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
                     let branch_name = match opts_by_fiels.renames.get(f.ident.as_ref().unwrap()) {
                         None => field_name.to_string(),
                         Some(s) => s.to_string(),
@@ -499,7 +500,7 @@ fn write_func_for_readtotree(data: &Data, opts_by_fiels: &OptionByField) -> Toke
                         Some(s) => {s.to_string()}
                     };
                     let field_type = &f.ty;
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
 
 
                     match  opts_by_fiels.slicables.get(f.ident.as_ref().unwrap()) {
@@ -542,7 +543,7 @@ fn write_func_for_readtotree_sliced(data: &Data, opts_by_fiels: &OptionByField)
             Fields::Named(fields) => {
                 let branch_names = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
                     let branch_name = match opts_by_fiels.renames.get(f.ident.as_ref().unwrap()) {
                         None => field_name.to_string(),
                         Some(s) => s.to_string(),
@@ -590,7 +591,7 @@ fn write_func_for_readtotree_sliced(data: &Data, opts_by_fiels: &OptionByField)
                     let field_type = &f.ty;
 
 
-                    let branch_name_ident = format_ident!("bn_{field_name}");
+                    let branch_name_ident = format_ident!("bn_{}", field_name);
 
 
                     quote_spanned! {
@@ -664,7 +665,7 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
                 // names which no field can have
                 let get_sliced = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let slice_name = format_ident!("__slice_{field_name}");
+                    let slice_name = format_ident!("__slice_{}", field_name);
                     quote_spanned! {
                         f.span() =>
                             let #slice_name = self.#field_name.next()?.unwrap();
@@ -675,7 +676,7 @@ fn write_next_for_readtotree_sliced(name: Ident, data: &Data) -> TokenStream {
 
                 let recurse = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
-                    let slice_name = format_ident!("__slice_{field_name}");
+                    let slice_name = format_ident!("__slice_{}", field_name);
                     quote_spanned! {
                         f.span() => #field_name: #slice_name.inner()[__i],
                     }
@@ -842,8 +843,8 @@ fn write_send_recv_for_write_to_tree(data: &Data) -> TokenStream {
                     let field_name = f.ident.as_ref().unwrap();
                     let _field_type = &f.ty;
 
-                    let sender_name = format_ident!("sender_{field_name}");
-                    let recv_name = format_ident!("recv_{field_name}");
+                    let sender_name = format_ident!("sender_{}", field_name);
+                    let recv_name = format_ident!("recv_{}", field_name);
 
                     quote_spanned! {
                         f.span() => let (#sender_name, #recv_name) = make_channel();
@@ -875,8 +876,8 @@ fn write_match_it_some_for_write_to_tree(data: &Data) -> TokenStream {
                     let field_name = f.ident.as_ref().unwrap();
                     let _field_type = &f.ty;
 
-                    let sender_name = format_ident!("sender_{field_name}");
-                    let _recv_name = format_ident!("recv_{field_name}");
+                    let sender_name = format_ident!("sender_{}", field_name);
+                    let _recv_name = format_ident!("recv_{}", field_name);
 
                     quote_spanned! {
                         f.span() => #sender_name.send(Some(struct_instance.#field_name));
@@ -908,8 +909,8 @@ fn write_match_it_none_for_write_to_tree(data: &Data) -> TokenStream {
                     let field_name = f.ident.as_ref().unwrap();
                     let _field_type = &f.ty;
 
-                    let sender_name = format_ident!("sender_{field_name}");
-                    let _recv_name = format_ident!("recv_{field_name}");
+                    let sender_name = format_ident!("sender_{}", field_name);
+                    let _recv_name = format_ident!("recv_{}", field_name);
 
                     quote_spanned! {
                         f.span() => #sender_name.send(None);
@@ -940,15 +941,17 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
                 let recurse = fields.named.iter().map(|f| {
                     let field_name = f.ident.as_ref().unwrap();
                     let field_type = &f.ty;
+                    // without the r# of a raw identifier, which is not part of the name
+                    let column_name = field_name.unraw().to_string();
 
-                    let _sender_name = format_ident!("sender_{field_name}");
-                    let recv_name = format_ident!("recv_{field_name}");
+                    let _sender_name = format_ident!("sender_{}", field_name);
+                    let recv_name = format_ident!("recv_{}", field_name);
 
                     quote_spanned! {
                         f.span() =>
                             let field_branch_name = match branch_name {
-                                None => stringify!(#field_name).to_string(),
-                                Some(parent) => format!("{}.{}", parent, stringify!(#field_name)),
+                                None => #column_name.to_string(),
+                                Some(parent) => format!("{}.{}", parent, #column_name),
                             };
                             <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, Some(&field_branch_name))?;
                     }
-- 
2.43.0


From 303a4b0b6820b6573a8f309f5653bb0db93d7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 27/43] fix: derive(WriteToTree) polled an iterator again after
 it had ended

Columns which end are padded while longer ones of the tree are written; the
callback of a structure went on calling next() on its source, which for an
iterator that is not fused made up rows.
---
 oxyroot_derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index a4ddd23..b8938fa 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -747,7 +747,7 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
     let expanded = quote!(
         impl #impl_generics  #ty_generics #where_clause oxyroot::WriteToTree for #name{
             fn to_branch_tree(
-                mut it: impl Iterator<Item = #name> + 'static,
+                it: impl Iterator<Item = #name> + 'static,
                 tree: &mut oxyroot::WriterTree, branch_name: Option<&str>
             ) -> oxyroot::Result<()> {
 
@@ -801,6 +801,9 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
 
                 #send_recv
 
+                // Other columns may be longer: `it` must not be polled again once it has ended.
+                let mut it = it.fuse();
+
                 let func = move |s: oxyroot::StateCallBack| {
 
 
-- 
2.43.0


From a6cf3881b5dc794bd21035868c1760913ac26a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 28/43] fix: a damaged element count of a container made the
 reader panic or ask for gigabytes

Vec, HashSet and HashMap reserved room for as many elements as the file says
before reading them: a negative count panicked with a capacity overflow, a
large one could abort the process.
---
 oxyroot/src/rbytes/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 8cec7d6..9964bde 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -293,15 +293,22 @@ impl Marshaler for String {
     }
 }
 
+/// Number of elements of a container, and for how many of them to reserve room: the bytes which
+/// remain bound what a (damaged) count may ask for.
+fn read_container_size(r: &mut RBuffer) -> Result<(usize, usize)> {
+    let size = usize::try_from(r.read_i32()?)?;
+    Ok((size, size.min(r.len().max(0) as usize)))
+}
+
 impl<T> Unmarshaler for Vec<T>
 where
     T: UnmarshalerInto<Item = T>,
 {
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
-        let size = r.read_i32()?;
+        let (size, capacity) = read_container_size(r)?;
 
-        self.reserve(size as usize);
+        self.reserve(capacity);
         r.set_skip_header(None);
 
         for _ in 0..size {
@@ -366,8 +373,8 @@ where
 {
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
-        let size = r.read_i32()?;
-        self.reserve(size as usize);
+        let (size, capacity) = read_container_size(r)?;
+        self.reserve(capacity);
         r.set_skip_header(None);
         for _ in 0..size {
             let a = r.read_object_into::<T>()?;
@@ -399,9 +406,9 @@ where
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
 
-        let size = r.read_i32()?;
-        let mut keys = Vec::with_capacity(size as usize);
-        let mut values = Vec::with_capacity(size as usize);
+        let (size, capacity) = read_container_size(r)?;
+        let mut keys = Vec::with_capacity(capacity);
+        let mut values = Vec::with_capacity(capacity);
 
         r.set_skip_header(Some(6));
 
@@ -419,7 +426,7 @@ where
             values.push(v);
         }
 
-        self.reserve(size as usize);
+        self.reserve(keys.len());
 
         keys.into_iter().zip(values).for_each(|(k, v)| {
             self.insert(k, v);
-- 
2.43.0


From f1a214f35f3203d20c29d9cd94be9962999d426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 29/43] fix: every column and every read reopened the file by
 its path: panics without enough descriptors, or when the path is not UTF-8

The clones of a reader share one descriptor. Reads seek to an absolute position
first, and neither a file nor its trees can be sent to another thread.
---
 oxyroot/src/riofs/file.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index eef2718..9a6812f 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -8,6 +8,7 @@ use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
 use std::path::{Path, PathBuf};
 use std::ptr::addr_of;
 use std::rc::Rc;
+use std::sync::Arc;
 
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::wbuffer::WBuffer;
@@ -60,13 +61,13 @@ impl RootFileHeader {
 #[derive(Default, Debug)]
 pub(crate) struct RootFileReader {
     path: PathBuf,
-    reader: Option<BufReader<File>>,
+    // shared by the clones: one descriptor, whatever the number of columns
+    reader: Option<BufReader<Arc<File>>>,
 }
 
 impl Display for RootFileReader {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        f.write_str(self.path.to_str().unwrap())?;
-        Ok(())
+        write!(f, "{}", self.path.display())
     }
 }
 
@@ -76,7 +77,7 @@ impl RootFileReader {
         P: AsRef<Path>,
     {
         let f = File::open(path.as_ref())?;
-        let buf_reader = BufReader::new(f);
+        let buf_reader = BufReader::new(Arc::new(f));
         let reader = Self {
             path: path.as_ref().to_path_buf(),
             reader: Some(buf_reader),
@@ -97,7 +98,13 @@ impl RootFileReader {
 
 impl Clone for RootFileReader {
     fn clone(&self) -> Self {
-        RootFileReader::new(&self.path).unwrap()
+        RootFileReader {
+            path: self.path.clone(),
+            reader: self
+                .reader
+                .as_ref()
+                .map(|r| BufReader::new(r.get_ref().clone())),
+        }
     }
 }
 
@@ -203,7 +210,7 @@ impl RootFile {
     where
         P: AsRef<Path>,
     {
-        let s = path.as_ref().to_str().unwrap().to_string();
+        let s = path.as_ref().to_string_lossy().into_owned();
         let writer = RootFileWriter::new(path)?;
 
         let inner = RootFileInner::Writer(writer);
-- 
2.43.0


From a0f447b971e40c3b2c816f7c105d28f45744403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 30/43] fix: a damaged length of a table made the reader ask
 for gigabytes

---
 oxyroot/src/rbytes/rbuffer.rs       | 11 +++++++++++
 oxyroot/src/rtree/basket.rs         |  2 +-
 oxyroot/src/rtree/branch/tbranch.rs | 14 +++++++-------
 oxyroot/src/rtree/tree/reader.rs    |  4 ++--
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 9a5ab0f..c49a3e2 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -138,6 +138,17 @@ impl<'a> RBuffer<'a> {
         self.r.p.len() as i64 - self.r.c as i64
     }
 
+    /// `n` as the length of a table of elements of `size` bytes, which has to be in this buffer.
+    pub(crate) fn table_len(&self, n: i32, size: i64) -> Result<usize> {
+        if n as i64 * size > self.len() {
+            return Err(Misc(format!(
+                "rbytes: no room for {n} elements of {size} bytes in the {} bytes left",
+                self.len()
+            )));
+        }
+        Ok(usize::try_from(n)?)
+    }
+
     pub fn is_empty(&self) -> bool {
         self.len() <= 0
     }
diff --git a/oxyroot/src/rtree/basket.rs b/oxyroot/src/rtree/basket.rs
index 08b49c2..7c66068 100644
--- a/oxyroot/src/rtree/basket.rs
+++ b/oxyroot/src/rtree/basket.rs
@@ -229,7 +229,7 @@ impl Unmarshaler for Basket {
         if !must_gen_offsets && flag != 0 && (flag % 10 != 2) {
             if self.nev_buf > 0 {
                 let n = r.read_i32()?;
-                self.offsets.reserve(n as usize);
+                self.offsets.reserve(r.table_len(n, 4)?);
                 for _ in 0..n {
                     self.offsets.push(r.read_i32()?);
                 }
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index a67b57b..72eda59 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -449,7 +449,7 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0; self.max_baskets as usize];
+                let mut b = vec![0; r.table_len(self.max_baskets, 4)?];
                 r.read_array_i32(b.as_mut_slice())?;
 
                 self.basket_bytes
@@ -458,7 +458,7 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i64; self.max_baskets as usize];
+                let mut b = vec![0_i64; r.table_len(self.max_baskets, 8)?];
                 r.read_array_i64(b.as_mut_slice())?;
 
                 self.basket_entry.extend_from_slice(
@@ -468,7 +468,7 @@ impl Unmarshaler for TBranch {
 
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i64; self.max_baskets as usize];
+                let mut b = vec![0_i64; r.table_len(self.max_baskets, 8)?];
                 r.read_array_i64(b.as_mut_slice())?;
 
                 self.basket_seek
@@ -579,7 +579,7 @@ impl Unmarshaler for TBranch {
             );
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0; self.max_baskets as usize];
+                let mut b = vec![0; r.table_len(self.max_baskets, 4)?];
                 r.read_array_i32(b.as_mut_slice())?;
 
                 b.truncate(self.write_basket as usize);
@@ -608,7 +608,7 @@ impl Unmarshaler for TBranch {
             );
             {
                 let _ = r.read_i8()?;
-                let mut b = vec![0_i32; self.max_baskets as usize];
+                let mut b = vec![0_i32; r.table_len(self.max_baskets, 4)?];
                 r.read_array_i32(b.as_mut_slice())?;
                 self.basket_entry.reserve(b.len());
 
@@ -627,14 +627,14 @@ impl Unmarshaler for TBranch {
             {
                 match r.read_i8()? {
                     2 => {
-                        let mut b = vec![0_i64; self.max_baskets as usize];
+                        let mut b = vec![0_i64; r.table_len(self.max_baskets, 8)?];
                         r.read_array_i64(b.as_mut_slice())?;
 
                         self.basket_seek
                             .extend_from_slice(&b.as_slice()[..self.write_basket as usize]);
                     }
                     _ => {
-                        let mut b = vec![0_i32; self.max_baskets as usize];
+                        let mut b = vec![0_i32; r.table_len(self.max_baskets, 4)?];
                         r.read_array_i32(b.as_mut_slice())?;
                         b.truncate(self.write_basket as usize);
                         self.basket_seek.reserve(b.len());
diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index 3ebaac7..bd2dc18 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -213,8 +213,8 @@ impl Unmarshaler for ReaderTree {
         }
 
         if hdr.vers >= 19 {
-            self.tree.clusters.ranges = vec![0; nclus as usize];
-            self.tree.clusters.sizes = vec![0; nclus as usize];
+            self.tree.clusters.ranges = vec![0; r.table_len(nclus, 8)?];
+            self.tree.clusters.sizes = vec![0; r.table_len(nclus, 8)?];
             let _ = r.read_i8();
             r.read_array_i64(&mut self.tree.clusters.ranges)?;
 
-- 
2.43.0


From a3a0ab1c7267fe571311d32eeb566ca5c112a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 31/43] fix: a damaged length of a record made the reader ask
 for gigabytes, or panic

---
 oxyroot/src/rcompress.rs  | 17 ++++++++++++-----
 oxyroot/src/riofs/file.rs | 16 ++++++++++------
 oxyroot/src/riofs/key.rs  | 21 ++++++++++++---------
 3 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index cdbca96..e7419b9 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -2,6 +2,7 @@ use flate2::read::ZlibDecoder;
 use lz4::block::decompress_to_buffer as LZ4_decompress_to_buffer;
 use std::io::Read;
 use xz2::read::XzDecoder;
+use xz2::stream::Stream;
 
 pub type Result<T> = std::result::Result<T, Error>;
 
@@ -24,7 +25,6 @@ const HEADER_SIZE: usize = 9;
 // - the size of the compressed data
 // where each size is saved on 3 bytes, the maximal size
 // of each block can not be bigger than 16Mb.
-#[allow(dead_code)]
 const K_MAX_COMPRESSED_BLOCK_SIZE: usize = 0xffffff;
 
 #[allow(dead_code)]
@@ -54,9 +54,13 @@ fn kind_of(buf: &[u8]) -> Kind {
     }
 }
 
-pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
+// The memory which the decoder of a block may ask for; the highest level needs half of it.
+const LZMA_MEMORY: u64 = 128 << 20;
+
+pub fn decompress(buflen: usize, mut src: &[u8]) -> Result<Vec<u8>> {
+    // grows with the blocks: `buflen`, if damaged, says nothing about what there is
+    let mut dst = Vec::with_capacity(buflen.min(K_MAX_COMPRESSED_BLOCK_SIZE));
     let mut end = 0;
-    let buflen = dst.len();
     let mut hdr = [0_u8; HEADER_SIZE];
 
     while end < buflen {
@@ -75,6 +79,7 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
         // A payload bigger than K_MAX_COMPRESSED_BLOCK_SIZE is made of several blocks.
         let (block, rest) = src.split_at(srcsz);
         src = rest;
+        dst.resize(end, 0);
         let out = &mut dst[beg..end];
 
         match kind_of(hdr.as_ref()) {
@@ -90,7 +95,9 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
                 d.read_exact(out)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(block);
+                let stream = Stream::new_stream_decoder(LZMA_MEMORY, 0)
+                    .map_err(std::io::Error::from)?;
+                let mut d = XzDecoder::new_stream(block, stream);
                 d.read_exact(out)?;
             }
             Kind::OldCompression => {
@@ -112,7 +119,7 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
         }
     }
 
-    Ok(0)
+    Ok(dst)
 }
 
 fn root_compress_algo_level(algo: i32) -> (Kind, i32) {
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9a6812f..867fae9 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -33,6 +33,8 @@ use uuid::Uuid;
 
 const HEADER_LEN: u64 = 64;
 const HEADER_EXTRA_LEN: u64 = 12;
+// what is allocated at once for a read; a longer one grows with the bytes which are there
+const READ_ALLOC: u64 = 1 << 20;
 // 64: small file + extra space for big file
 const ROOT_MAGIC: &str = "root";
 
@@ -86,12 +88,14 @@ impl RootFileReader {
     }
 
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
-        self.reader
-            .as_mut()
-            .expect("ERROR")
-            .seek(SeekFrom::Start(start))?;
-        let mut buf = vec![0; len as usize];
-        self.reader.as_mut().expect("ERROR").read_exact(&mut buf)?;
+        let reader = self.reader.as_mut().expect("ERROR");
+        reader.seek(SeekFrom::Start(start))?;
+        // a (damaged) length must not ask for more memory than there are bytes in the file
+        let mut buf = Vec::with_capacity(len.min(READ_ALLOC) as usize);
+        reader.take(len).read_to_end(&mut buf)?;
+        if buf.len() as u64 != len {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 11595fa..dd0a01b 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -398,19 +398,22 @@ impl Key {
     }
 
     fn load(&self, file: &mut RootFileReader) -> Result<Vec<u8>> {
-        if self.is_compressed() {
-            let mut buf = vec![0; self.obj_len as usize];
-            let start = self.seek_key as u64 + self.key_len as u64;
-            let sr = file.read_at(start, (self.n_bytes as u64) - (self.key_len as u64))?;
+        let damaged = || riofs::Error::CantLoadKeyPayload(self.name.clone());
+        let obj_len = usize::try_from(self.obj_len).map_err(|_| damaged())?;
+        let start = self.seek_key.checked_add(self.key_len as i64);
+        let start = start
+            .and_then(|s| u64::try_from(s).ok())
+            .ok_or_else(damaged)?;
 
-            rcompress::decompress(&mut buf, &sr)?;
+        if self.is_compressed() {
+            let len = i64::from(self.n_bytes) - i64::from(self.key_len);
+            let len = u64::try_from(len).map_err(|_| damaged())?;
+            let sr = file.read_at(start, len)?;
 
-            return Ok(buf);
+            return Ok(rcompress::decompress(obj_len, &sr)?);
         }
 
-        let start = self.seek_key as u64 + self.key_len as u64;
-
-        let buf = file.read_at(start, self.obj_len as u64)?;
+        let buf = file.read_at(start, obj_len as u64)?;
         Ok(buf)
     }
 
-- 
2.43.0


From 5ae20734a87e149fc5f704a394d9ddf2f93184a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 32/43] fix: a truncated file was opened, and iterating over
 its columns panicked; a header with negative lengths panicked

---
 oxyroot/src/riofs/dir.rs  |  8 ++++----
 oxyroot/src/riofs/file.rs | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index b814868..8c9547d 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -131,8 +131,8 @@ impl TDirectoryFile {
 
     pub fn read_dir_info(file: &mut RootFile) -> Result<TDirectoryFile> {
         let nbytesname = file.n_bytes_name() as i64;
-        let nbytes = nbytesname as u64 + TDirectoryFile::record_size(file.version()) as u64;
-        let begin = file.begin() as u64;
+        let nbytes = nbytesname + TDirectoryFile::record_size(file.version());
+        let begin = file.begin();
 
         trace!(
             "have to read nbytes = {} from {} to {}",
@@ -141,11 +141,11 @@ impl TDirectoryFile {
             begin + nbytes
         );
 
-        if (nbytes + begin) > (file.end() as u64) {
+        if nbytesname < 0 || begin < 0 || nbytes + begin > file.end() {
             return Err(crate::riofs::error::Error::FileHasAnIncorrectHeaderLength);
         }
 
-        let data = file.read_at(begin, nbytes)?;
+        let data = file.read_at(begin as u64, nbytes as u64)?;
         let nbytesname = nbytesname as usize;
 
         let mut r = RBuffer::new(&data[nbytesname..], 0);
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 867fae9..8508966 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -87,6 +87,12 @@ impl RootFileReader {
         Ok(reader)
     }
 
+    /// Size of the file
+    fn len(&self) -> Result<u64> {
+        let reader = self.reader.as_ref().expect("ERROR");
+        Ok(reader.get_ref().metadata()?.len())
+    }
+
     pub(crate) fn read_at(&mut self, start: u64, len: u64) -> Result<Vec<u8>> {
         let reader = self.reader.as_mut().expect("ERROR");
         reader.seek(SeekFrom::Start(start))?;
@@ -449,6 +455,15 @@ impl RootFile {
 
         self.header.n_bytes_info = r.read_i32()?;
 
+        // iterating could only panic on what is missing of a truncated file
+        let len = self.reader()?.len()?;
+        if self.header.end > len as i64 {
+            return Err(Error::CantReadAmountOfBytesFromFile {
+                requested: self.header.end as usize,
+                read: len as usize,
+            });
+        }
+
         self.header.version = version % 1000000;
         trace!("version = {}", version);
 
-- 
2.43.0


From f1d3fda4477341b3031315f9057e09cd76c6b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 33/43] fix: objects nested deeply exhausted the stack

---
 oxyroot/src/rbytes/rbuffer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index c49a3e2..6c5cf3a 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -107,6 +107,10 @@ pub(crate) enum RBufferRefsItem {
     // Obj(&'a Box<dyn FactoryItem>),
 }
 
+/// Objects contain objects, which are read recursively. What a damaged file says must not
+/// exhaust the stack: in a debug build a branch needs about 32 kB of it, out of 2 MB.
+const MAX_NESTED: usize = 40;
+
 /// Helper struct to parse data read in file
 ///
 /// Provided by [crate::Branch::get_basket] as argument in lambda function.
@@ -116,6 +120,8 @@ pub struct RBuffer<'a> {
     offset: u32,
     // sictx: Option<&'a dyn StreamerInfoContext>,
     refs: HashMap<i64, RBufferRefsItem>,
+    /// How many objects contain what is being read.
+    nested: usize,
     skip_header: Option<i32>,
 }
 
@@ -289,7 +295,15 @@ impl<'a> RBuffer<'a> {
         &mut self,
         obj: &mut Box<dyn rtypes::FactoryItemRead>,
     ) -> Result<()> {
-        obj.unmarshal(self)
+        if self.nested == MAX_NESTED {
+            return Err(Misc(format!(
+                "rbytes: more than {MAX_NESTED} nested objects"
+            )));
+        }
+        self.nested += 1;
+        let res = obj.unmarshal(self);
+        self.nested -= 1;
+        res
     }
 
     pub(crate) fn read_object_any_into(&mut self) -> Result<Option<Box<dyn FactoryItemRead>>> {
-- 
2.43.0


From d653f212ab34941ec82b5eec068741d302b255fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:56 +0000
Subject: [PATCH 34/43] fix: a damaged number of entries of a basket made the
 reader ask for gigabytes, or yield entries without end

---
 oxyroot/src/rtree/basket.rs                 | 11 +++++++++++
 oxyroot/src/rtree/branch/mod.rs             |  4 ++--
 oxyroot/src/rtree/branch/tbranch.rs         |  1 +
 oxyroot/src/rtree/branch/tbranch_element.rs |  1 +
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/basket.rs b/oxyroot/src/rtree/basket.rs
index 7c66068..dd40860 100644
--- a/oxyroot/src/rtree/basket.rs
+++ b/oxyroot/src/rtree/basket.rs
@@ -101,6 +101,7 @@ impl Basket {
 
     pub(crate) fn raw_data(&self, file: &mut RootFileReader) -> BasketData {
         let ret = self.key.bytes(file, None).unwrap();
+        self.check_nev_buf(ret.len());
 
         if self.border() != self.uncompressed_bytes() {
             let (data, byte_offsets) = ret.split_at(self.border() as usize);
@@ -148,6 +149,16 @@ impl Basket {
         self.nev_buf
     }
 
+    /// Every entry takes one byte or more of the `len` bytes of the basket, in its content
+    /// or in the table of the positions of the entries.
+    pub(crate) fn check_nev_buf(&self, len: usize) {
+        assert!(
+            usize::try_from(self.nev_buf).is_ok_and(|n| n <= len),
+            "a basket of {len} bytes can not hold {} entries",
+            self.nev_buf
+        );
+    }
+
     pub fn key(&self) -> &crate::riofs::Key {
         &self.key
     }
diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index fc1e4f4..cb6e4b7 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -197,7 +197,7 @@ impl Branch {
                     match chunk {
                         BranchChunks::RegularSized((n, _chunk_size, buf)) => {
                             let mut r = RBuffer::new(&buf, 0);
-                            let mut v = Vec::with_capacity(n as usize);
+                            let mut v = Vec::new();
 
                             for _i in 0..n {
                                 v.push(func(&mut r));
@@ -415,7 +415,7 @@ impl<'a, T> Iterator for ZiperBranches<'a, T> {
         });
         // let mut outbuf = vec![0 as u8; size];
 
-        let mut outbuf: Vec<u8> = Vec::with_capacity(size);
+        let mut outbuf: Vec<u8> = Vec::new();
 
         // for (ib, bbuffer) in enumerate(&self.output_buffers) {
         for ib in 0..self.current_size.len() {
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 72eda59..a3a4808 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -196,6 +196,7 @@ impl TBranch {
                     .skip(key_lenght)
                     .cloned()
                     .collect::<Vec<_>>();
+                b.check_nev_buf(buf.len() + 4 * b.offsets().len());
                 let n = b.nev_buf();
                 let chunk_size = 1;
 
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 8d98a74..b9f7db4 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -254,6 +254,7 @@ impl TBranchElement {
 
                 if b.offsets().is_empty() {
                     // entries of fixed size
+                    b.check_nev_buf(buf.len());
                     return BranchChunks::RegularSized((
                         b.nev_buf(),
                         b.entry_size(),
-- 
2.43.0


From b3bfe03a99e23499845e314bac77925becbf8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 35/43] fix: show() panicked on names of types with a character
 of several bytes around the 30th byte

---
 oxyroot/src/rtree/tree/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/tree/reader.rs b/oxyroot/src/rtree/tree/reader.rs
index bd2dc18..d0b17d6 100644
--- a/oxyroot/src/rtree/tree/reader.rs
+++ b/oxyroot/src/rtree/tree/reader.rs
@@ -109,8 +109,7 @@ impl ReaderTree {
         let s: String = ['-'; 31].iter().collect();
         println!("{}+{}+{}", s, s, s);
         fn show_one_branch(b: &&Branch) {
-            let mut item_type_name = b.item_type_name();
-            item_type_name.truncate(30);
+            let item_type_name: String = b.item_type_name().chars().take(30).collect();
             println!(
                 "{:<30} | {:<30} | {:<30}",
                 b.name(),
-- 
2.43.0


From c92f1d1604aa6840fc63e14179454c4ab04a26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 36/43] fix: oxyroot-ls and oxyroot-dump panicked on files
 which also contain other objects than trees

---
 oxyroot-dump/src/main.rs | 9 ++++++---
 oxyroot-ls/src/main.rs   | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index bdc43c7..e7c1bdf 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -1,5 +1,5 @@
 use clap::Parser;
-use oxyroot::{Branch, RBuffer, SizedSlice, Unmarshaler, UnmarshalerInto};
+use oxyroot::{Branch, Named, Object, RBuffer, SizedSlice, Unmarshaler, UnmarshalerInto};
 use oxyroot::{RootFile, Slice};
 use std::collections::{HashMap, HashSet};
 use std::fmt::Debug;
@@ -1611,9 +1611,12 @@ fn main() {
     }
 
     let mut f = RootFile::open(file).unwrap();
+    // other objects than trees have no entries to dump
     let keys = f
-        .keys_name()
-        .map(|s| s.to_string())
+        .keys()
+        .iter()
+        .filter(|k| k.class() == "TTree")
+        .map(|k| k.name().to_string())
         .collect::<Vec<String>>();
 
     for trees in keys {
diff --git a/oxyroot-ls/src/main.rs b/oxyroot-ls/src/main.rs
index 2666227..423343e 100644
--- a/oxyroot-ls/src/main.rs
+++ b/oxyroot-ls/src/main.rs
@@ -51,6 +51,10 @@ fn main() {
             k.name(),
             k.title()
         );
+        // other objects than trees have no branches to list
+        if k.class() != "TTree" {
+            continue;
+        }
         println!("> Data in {}:", k.name());
         let tree = f.get_tree(k.name()).unwrap();
         tree.show();
-- 
2.43.0


From aefea977b78d9b3960c5d34d02afed042aaf86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 37/43] fix: writing into, or closing, a file opened for
 reading panicked

WriterTree::write and RootFile::close now return FileIsOpenedReadOnly
before anything else is done.
---
 oxyroot/src/riofs/file.rs        | 2 ++
 oxyroot/src/rtree/tree/writer.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 8508966..6d7cd12 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -373,6 +373,8 @@ impl RootFile {
     }
 
     pub fn close(&mut self) -> Result<()> {
+        // nothing is to be written at the end of a file opened for reading
+        self.writer()?;
         let mut dir = self.dir().clone();
         dir.close(self)?;
         let _ = std::mem::replace(&mut self.dir, dir);
diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 1429660..357c0d3 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -113,6 +113,8 @@ impl WriterTree {
     /// - Before writing branches with the argument [StateCallBack::Before](enum.StateCallBack.html)
     /// - Before writing each branch with the argument [StateCallBack::Branch](enum.StateCallBack.html)
     pub fn write(&mut self, file: &mut RootFile) -> crate::riofs::Result<()> {
+        // nothing can be written into a file opened for reading
+        file.writer()?;
         let mut branchs_done = self
             .tree
             .branches
-- 
2.43.0


From ef5341a80900fd6dcfaf40c1f8f711c679f594ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 38/43] fix: free list of files above 2 GB ended before it
 began, and was truncated to 32 bits above 2^31

The last free segment always ended at the 2 GB limit, so that the list was
written with 32 bit positions however long the file is.
---
 oxyroot/src/riofs/file.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 6d7cd12..41b6e84 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -503,9 +503,13 @@ impl RootFile {
             panic!("self.spans.len()")
         }
         let blk = self.spans.vec().last_mut().unwrap();
-        if blk.last != kStartBigFile {
+        if blk.last < kStartBigFile {
             panic!("blk.last")
         }
+        // the free space at the end of a big file goes on by steps of 1 GB
+        while blk.last < pos {
+            blk.last += 1_000_000_000;
+        }
         blk.first = pos;
         Ok(())
     }
@@ -733,19 +737,25 @@ impl RootFile {
             unimplemented!("self.header.seek_free != 0")
         }
 
-        let mut nbytes = 0;
-        for span in self.spans.vec() {
-            nbytes += span.size_of();
-        }
-        trace!(";RootFile.write_free_segments.nbytes:{}", nbytes);
-
-        let mut key = Key::new(
-            self.dir.dir().named().name.clone(),
-            self.dir.dir().named().title.clone(),
-            "TFile".to_string(),
-            nbytes,
-            self,
-        )?;
+        let end = self.end();
+        let mut nbytes = self.spans.vec().iter().map(|s| s.size_of()).sum();
+        let mut key = loop {
+            trace!(";RootFile.write_free_segments.nbytes:{}", nbytes);
+            let key = Key::new(
+                self.dir.dir().named().name.clone(),
+                self.dir.dir().named().title.clone(),
+                "TFile".to_string(),
+                nbytes,
+                self,
+            )?;
+            let needed = self.spans.vec().iter().map(|s| s.size_of()).sum();
+            if needed == nbytes {
+                break key;
+            }
+            // this record makes the file a big one: the list needs more room
+            nbytes = needed;
+            self.set_end(end)?;
+        };
 
         assert_ne!(key.seek_key(), 0);
 
-- 
2.43.0


From 1f362509a03f486bc940544258c6f2498b7374ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 39/43] fix: sizes recorded for a tree left out the blocks of
 its branches, compressed size always 0

---
 oxyroot/src/rtree/tree/writer.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/oxyroot/src/rtree/tree/writer.rs b/oxyroot/src/rtree/tree/writer.rs
index 357c0d3..f434db9 100644
--- a/oxyroot/src/rtree/tree/writer.rs
+++ b/oxyroot/src/rtree/tree/writer.rs
@@ -123,8 +123,6 @@ impl WriterTree {
             .collect::<Vec<_>>();
         let mut branches = std::mem::take(&mut self.tree.branches);
         loop {
-            let mut tot = 0;
-            let zip = 0;
             for f in self.callbacks.iter_mut() {
                 f(StateCallBack::Before);
             }
@@ -132,16 +130,11 @@ impl WriterTree {
                 for f in self.callbacks.iter_mut() {
                     f(StateCallBack::Branch(b.name().to_string()));
                 }
-                match b.write(self, file)? {
-                    None => *d = true,
-                    Some(nbytes) => {
-                        tot += nbytes;
-                    }
+                if b.write(self, file)?.is_none() {
+                    *d = true;
                 }
             }
 
-            self.tree.tot_bytes += tot as i64;
-            self.tree.zip_bytes += zip as i64;
             if branchs_done.iter().all(|d| *d) {
                 break;
             }
@@ -167,6 +160,12 @@ impl WriterTree {
         trace!(";WriterTree.close:{:?}", true);
         self.flush(file)?;
 
+        let branches = || self.tree.branches.iter().map(|b| b.branch().tbranch());
+        let tot_bytes = branches().map(|b| b.tot_bytes).sum();
+        let zip_bytes = branches().map(|b| b.zip_bytes).sum();
+        self.tree.tot_bytes = tot_bytes;
+        self.tree.zip_bytes = zip_bytes;
+
         // let t: ReaderTree = self.into();
 
         file.put(self.tree.named.name(), self)?;
-- 
2.43.0


From 626a5720ad1b5714062935cb543aca4cfe420369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:56 +0000
Subject: [PATCH 40/43] fix: cycle number of the 32768th object of one name
 wrapped, an older one was returned for it

---
 oxyroot/src/riofs/error.rs | 1 +
 oxyroot/src/riofs/file.rs  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index ac98d50..72146d7 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -38,6 +38,7 @@ pub enum Error {
     FileIsNotOpened,
     // Writer Errors
     NameContainsSlash(String),
+    TooManyCycles(String),
     KeyClassMismatch {
         key: String,
         key_class: String,
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 41b6e84..8bd38b2 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -338,6 +338,9 @@ impl RootFile {
         }
 
         cycle += 1;
+        if cycle > i16::MAX as i32 {
+            return Err(Error::TooManyCycles(name.to_string()));
+        }
         let typename = obj.class();
         trace!(";TDirectoryFile.put.typename:{:?}", typename);
         trace!(
-- 
2.43.0


From 431c914f1a059469fbf0f819b46b4434ff14cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 41/43] fix: length of a string above 2^31 was truncated, it
 was written as a short one

---
 oxyroot/src/rbytes/wbuffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rbytes/wbuffer.rs b/oxyroot/src/rbytes/wbuffer.rs
index 6343587..6339147 100644
--- a/oxyroot/src/rbytes/wbuffer.rs
+++ b/oxyroot/src/rbytes/wbuffer.rs
@@ -137,7 +137,7 @@ impl WBuffer {
     }
 
     pub(crate) fn write_string(&mut self, p0: &str) -> Result<()> {
-        let len = p0.len() as i32;
+        let len = p0.len();
         let bytes = p0.as_bytes();
         if len < 255 {
             self.write_u8(len as u8)?;
@@ -148,7 +148,7 @@ impl WBuffer {
         }
 
         self.write_u8(255)?;
-        self.write_u32(len as u32)?;
+        self.write_u32(u32::try_from(len)?)?;
         self.write_array_u8(bytes)
     }
 
-- 
2.43.0


From 8ba8d968e64b1f1bb73889a6e097c84bd15f77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:04 +0000
Subject: [PATCH 42/43] fix: keys and records longer than their length fields
 were written with truncated lengths

---
 oxyroot/src/riofs/error.rs          |  5 +++++
 oxyroot/src/riofs/key.rs            | 15 +++++++++++++++
 oxyroot/src/rtree/branch/wbranch.rs |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 72146d7..da44a6a 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -39,6 +39,11 @@ pub enum Error {
     // Writer Errors
     NameContainsSlash(String),
     TooManyCycles(String),
+    RecordTooLong {
+        name: String,
+        key_len: i32,
+        obj_len: usize,
+    },
     KeyClassMismatch {
         key: String,
         key_class: String,
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index dd0a01b..6692b52 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -253,6 +253,7 @@ impl Key {
         trace!(";KEY.new_from_buffer.{indent}.f.end:{:?}", f.end());
         // trace!(";KEY.new_from_buffer.{indent}.buf.value:{:?}", &buf);
         let key_len = key_len_for(&name, &title, &class, f);
+        Self::check_lengths(&name, key_len, buf.len())?;
         let obj_len = buf.len() as i32;
         let mut key = Key {
             key_len,
@@ -342,6 +343,7 @@ impl Key {
 
         let mut buf = WBuffer::new(key_len as u32);
         obj.marshal(&mut buf)?;
+        Self::check_lengths(name, key_len, buf.len())?;
         let obj_len = buf.len() as i32;
         trace!(";KEY.new_from_object.obj_len:{:?}", obj_len);
 
@@ -500,6 +502,19 @@ impl Key {
     pub fn set_cycle(&mut self, cycle: i16) {
         self.cycle = cycle;
     }
+
+    /// The length of a key is stored in 16 bits and the length of a record in 32 bits.
+    pub(crate) fn check_lengths(name: &str, key_len: i32, obj_len: usize) -> Result<()> {
+        if key_len > i16::MAX as i32 || obj_len > (i32::MAX - key_len) as usize {
+            return Err(riofs::Error::RecordTooLong {
+                // the name itself may be very long
+                name: name.chars().take(100).collect(),
+                key_len,
+                obj_len,
+            });
+        }
+        Ok(())
+    }
 }
 
 fn key_len_for(name: &str, title: &str, class: &str, f: &RootFile) -> i32 {
diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 9e3df79..fccb486 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -1,6 +1,7 @@
 use crate::rbytes::wbuffer::WBuffer;
 use crate::rbytes::{Marshaler, MarshallerKind, RVersioner};
 use crate::rdict::streamers::make_streamer_for_marshaler_type;
+use crate::riofs::Key;
 use crate::rtree::basket::Basket;
 use crate::rtree::branch::tbranch::{DEFAULT_BASKET_SIZE, DEFAULT_MAX_BASKETS};
 use crate::rtree::branch::{TBranch, TBranchElement};
@@ -145,6 +146,8 @@ where
                 // basket.wbuf.write_object(&item).unwrap();
                 let sz_new = basket.wbuf.len();
                 trace!(";WBranch.write.{ident}.sz_new:{:?}", sz_new);
+                let key = basket.basket.key();
+                Key::check_lengths(key.name(), key.key_len(), sz_new)?;
                 let n = (sz_new - sz_old) as i32;
                 // When there is a table of offsets, nev_size is its capacity.
                 if basket.basket.offsets().is_empty() && n > basket.basket.nev_size {
-- 
2.43.0


From 8db50328e8e3a7009c0140ad3ca4c66935a3d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:53 +0000
Subject: [PATCH 43/43] fix: oxyroot-ls and oxyroot-dump showed the last of
 several trees of one name for each of them

---
 oxyroot-dump/src/main.rs | 21 ++++++++++++---------
 oxyroot-ls/src/main.rs   | 12 ++++++++++--
 oxyroot/src/riofs/key.rs |  3 ++-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index e7c1bdf..9416a18 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -1612,16 +1612,19 @@ fn main() {
 
     let mut f = RootFile::open(file).unwrap();
     // other objects than trees have no entries to dump
-    let keys = f
-        .keys()
-        .iter()
-        .filter(|k| k.class() == "TTree")
-        .map(|k| k.name().to_string())
-        .collect::<Vec<String>>();
+    let keys = f.keys();
 
-    for trees in keys {
-        println!(">>> tree: {:?}", trees);
-        let tree = f.get_tree(&trees).unwrap();
+    for k in keys.iter().filter(|k| k.class() == "TTree") {
+        println!(">>> tree: {:?}", k.name());
+        // the name alone stands for the last object which has it
+        let last = !keys
+            .iter()
+            .any(|o| o.name() == k.name() && o.cycle() > k.cycle());
+        let tree = match last {
+            true => f.get_tree(k.name()),
+            false => f.get_tree(&format!("{};{}", k.name(), k.cycle())),
+        }
+        .unwrap();
         tree.show();
 
         let mut zip = ZiperDumperBranch::new(&tree);
diff --git a/oxyroot-ls/src/main.rs b/oxyroot-ls/src/main.rs
index 423343e..d8bcf87 100644
--- a/oxyroot-ls/src/main.rs
+++ b/oxyroot-ls/src/main.rs
@@ -44,7 +44,7 @@ fn main() {
     // trace!("keys = {:?}", keys);
 
     let keys = f.keys();
-    for k in keys {
+    for k in keys.iter() {
         println!(
             "> {} name='{}' (title='{}')",
             k.class(),
@@ -56,7 +56,15 @@ fn main() {
             continue;
         }
         println!("> Data in {}:", k.name());
-        let tree = f.get_tree(k.name()).unwrap();
+        // the name alone stands for the last object which has it
+        let last = !keys
+            .iter()
+            .any(|o| o.name() == k.name() && o.cycle() > k.cycle());
+        let tree = match last {
+            true => f.get_tree(k.name()),
+            false => f.get_tree(&format!("{};{}", k.name(), k.cycle())),
+        }
+        .unwrap();
         tree.show();
     }
 }
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 6692b52..fe3d5c1 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -455,7 +455,8 @@ impl Key {
         self.class = class.to_string();
     }
 
-    pub(crate) fn cycle(&self) -> i32 {
+    /// Number of the object among those of the same name
+    pub fn cycle(&self) -> i32 {
         self.cycle as i32
     }
     pub fn n_bytes(&self) -> i32 {
-- 
2.43.0

