From 6c4444a377b4e17d82a5d800546090eb44ff66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 01/17] fix: mark the map dirty on every put

A put that updates an existing key, and the first insert into an empty
map, left the dirty flag unset, so flush(), sync_all() and sync_data()
returned Ok without writing anything.
---
 src/filedb/inner/dbxxx.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index f19afad..7f894c9 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1133,6 +1133,7 @@ impl<KT: DbMapKeyType> DbXxxObjectSafe<KT> for FileDbXxxInner<KT> {
     }
     #[inline]
     fn put_kt(&mut self, key_kt: &KT, value: &[u8]) -> Result<()> {
+        self.dirty = true;
         #[cfg(feature = "htx")]
         {
             let hash = key_kt.hash_value();
-- 
2.43.0


From 5379126a52913aaac369f662fdb19c871fae6696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 02/17] fix: keep the map dirty after flush until it is synced

flush() cleared the dirty flag, so a following sync_all() or sync_data()
returned Ok without synchronizing the files to storage.
---
 src/filedb/inner/dbxxx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 7f894c9..98a9cbd 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1023,7 +1023,7 @@ impl<KT: DbMapKeyType> DbXxxBase for FileDbXxxInner<KT> {
             self.idx_file.flush()?;
             #[cfg(feature = "htx")]
             self.htx_file.flush()?;
-            self.dirty = false;
+            // still dirty until it is synchronized to storage.
         }
         Ok(())
     }
-- 
2.43.0


From 191dccc8e0a144a10b35c36f232317af7c6dbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 03/17] fix: write the headers of a new map when it is created

The headers stayed in the buffers and the map was not dirty, so syncing a
new map did nothing, and a process killed after that left an index hash
file with a length but no header, which panics on the next open.
---
 src/filedb/inner/dbxxx.rs | 22 ++++++++++++++++++++--
 src/filedb/inner/htx.rs   |  7 +++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 98a9cbd..11c3181 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -41,20 +41,38 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         ks_name: &str,
         params: FileDbParams,
     ) -> Result<FileDbXxxInner<KT>> {
+        let is_new = !Self::all_files_exist(path.as_ref(), ks_name);
         let key_file = key::KeyFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         let val_file = val::ValueFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         let idx_file = idx::IdxFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         #[cfg(feature = "htx")]
         let htx_file = htx::HtxFile::open_with_params(&path, ks_name, KT::signature(), &params)?;
         //
-        Ok(Self {
+        let mut db = Self {
             key_file,
             val_file,
             idx_file,
             #[cfg(feature = "htx")]
             htx_file,
-            dirty: false,
+            dirty: is_new,
             _phantom: std::marker::PhantomData,
+        };
+        // the headers of a new map must not stay in the buffer only.
+        db.flush()?;
+        Ok(db)
+    }
+    /// returns false if any file of the map is missing or is empty.
+    fn all_files_exist(path: &Path, ks_name: &str) -> bool {
+        let exts: &[&str] = &[
+            "key",
+            "val",
+            "idx",
+            #[cfg(feature = "htx")]
+            "htx",
+        ];
+        exts.iter().all(|ext| {
+            std::fs::metadata(path.join(format!("{}.{}", ks_name, ext)))
+                .map_or(false, |m| m.len() > 0)
         })
     }
     #[inline]
diff --git a/src/filedb/inner/htx.rs b/src/filedb/inner/htx.rs
index e609479..f61d5a0 100644
--- a/src/filedb/inner/htx.rs
+++ b/src/filedb/inner/htx.rs
@@ -75,6 +75,8 @@ impl HtxFile {
         //
         if file_length.is_zero() {
             write_htxf_init_header(&mut file_nc.0, sig2)?;
+            // the file must not have a length without the header.
+            file_nc.0.flush()?;
             let off = NodePieceOffset::new(HTX_HEADER_SZ + 8 * DEFAULT_HT_SIZE);
             file_nc.0.set_file_length(off)?;
             let off = NodePieceOffset::new(HTX_HEADER_SZ + 8 * DEFAULT_HT_SIZE - 8);
@@ -85,6 +87,11 @@ impl HtxFile {
             check_htxf_header(&mut file_nc.0, sig2)?;
             let ht_size = file_nc.0.read_hash_table_size()?;
             file_nc.1 = ht_size;
+            // complete the length if the creation was interrupted.
+            let off = NodePieceOffset::new(HTX_HEADER_SZ + 8 * ht_size);
+            if file_length < off {
+                file_nc.0.set_file_length(off)?;
+            }
         }
         Ok(Self(Rc::new(RefCell::new(file_nc))))
     }
-- 
2.43.0


From 49546d2d262ac27ccc95d8487f5acee8819bd050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 04/17] fix: write the node cache when the index file is
 dropped

Dropping a database without a sync lost the nodes which were only in the
node cache, and left a broken index.
---
 src/filedb/inner/idx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 7070e0a..7b3f129 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -39,6 +39,14 @@ pub struct VarFileNodeCache(pub VarFile, PhantomData<i32>, NodePieceOffset);
 #[derive(Debug)]
 pub struct VarFileNodeCache(pub VarFile, NodeCache, NodePieceOffset);
 
+// The node cache must be written before the file buffer is dropped.
+#[cfg(feature = "node_cache")]
+impl Drop for VarFileNodeCache {
+    fn drop(&mut self) {
+        let _ = self.flush_node_cache();
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct IdxFile(pub Rc<RefCell<VarFileNodeCache>>);
 
-- 
2.43.0


From c64869cff20ca3529e0da55b47297f35d2eab9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 05/17] fix: iterating over an empty map returns no entry
 instead of panicking

---
 src/filedb/inner/dbxxx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index 11c3181..bab2728 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -1212,6 +1212,14 @@ impl<KT: DbMapKeyType> DbXxxIterMut<KT> {
         let depth_nodes = {
             let db_map_inner = RefCell::borrow(&db_map);
             let top_node = db_map_inner.idx_file.read_top_node()?;
+            if top_node.get_ref().keys_is_empty() {
+                // nothing to iterate.
+                drop(db_map_inner);
+                return Ok(Self {
+                    db_map,
+                    depth_nodes: Vec::new(),
+                });
+            }
             let mut depth_nodes = vec![(top_node.clone(), 0, 0)];
             let mut node = top_node;
             //
-- 
2.43.0


From df2ff12433d5abb8a958c213617ec0d2d2a00924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 06/17] fix: release the empty top node when the first key is
 inserted

Every insert into an empty tree added a new top node and leaked the old
one, so the index file grew without bound.
---
 src/filedb/inner/dbxxx.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/dbxxx.rs b/src/filedb/inner/dbxxx.rs
index bab2728..b7be5c5 100644
--- a/src/filedb/inner/dbxxx.rs
+++ b/src/filedb/inner/dbxxx.rs
@@ -373,10 +373,13 @@ impl<KT: DbMapKeyType> FileDbXxxInner<KT> {
         value: &[u8],
     ) -> Result<IdxNode> {
         let r = {
-            let node = node_.get_ref();
-            if node.keys_is_empty() {
-                return self.keys_is_empty_on_insert_(key_kt, value);
+            if node_.get_ref().keys_is_empty() {
+                let active_node = self.keys_is_empty_on_insert_(key_kt, value)?;
+                // a new top node replaces this empty one.
+                self.idx_file.delete_node(node_)?;
+                return Ok(active_node);
             }
+            let node = node_.get_ref();
             #[cfg(not(feature = "tr_has_short_key"))]
             let r = self.keys_binary_search_kt(node.keys(), key_kt)?;
             #[cfg(feature = "tr_has_short_key")]
-- 
2.43.0


From e1199a0f7d066a66430132398ad01a4297ada02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 07/17] fix: keep the real size of a reused large free piece

The first fit large free piece may be larger than the requested size. The
piece was recorded with the requested size, so the rest of it was lost
forever.
---
 src/filedb/inner/key.rs | 9 ++++++---
 src/filedb/inner/val.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 74ce359..614317a 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -430,11 +430,14 @@ impl<KT: DbMapKeyType> VarFileKeyCache<KT> {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // the free piece may be larger than the requested size.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                let free_piece_size = self.0.read_piece_size()?;
+                self.0.seek_from_start(free_piece_offset)?;
+                (free_piece_offset, free_piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index 0f833c1..d6a4502 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -395,11 +395,14 @@ impl VarFileValueCache {
         // add new.
         {
             let free_piece_offset = self.0.pop_free_piece_list(new_piece_size)?;
-            let new_piece_offset = if !free_piece_offset.is_zero() {
+            let (new_piece_offset, new_piece_size) = if !free_piece_offset.is_zero() {
+                // the free piece may be larger than the requested size.
                 self.0.seek_from_start(free_piece_offset)?;
-                free_piece_offset
+                let free_piece_size = self.0.read_piece_size()?;
+                self.0.seek_from_start(free_piece_offset)?;
+                (free_piece_offset, free_piece_size)
             } else {
-                self.0.seek_to_end()?
+                (self.0.seek_to_end()?, new_piece_size)
             };
             piece.offset = new_piece_offset;
             piece.size = new_piece_size;
-- 
2.43.0


From 7bc673371dddd0b8240ea50713a8f09aedc3acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 08/17] fix: store a key or a value larger than a buffer chunk

write_all_small() is only for data smaller than a chunk, so a larger key
or value panics in a debug build.
---
 src/filedb/inner/key.rs | 2 +-
 src/filedb/inner/val.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/key.rs b/src/filedb/inner/key.rs
index 614317a..3c5cfc3 100644
--- a/src/filedb/inner/key.rs
+++ b/src/filedb/inner/key.rs
@@ -371,7 +371,7 @@ impl<KT: DbMapKeyType> KeyPiece<KT> {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_key_len(key_len)?;
-        file.write_all_small(key)?;
+        file.write_all(key)?;
         //
         #[cfg(any(feature = "htx", feature = "idx_straight"))]
         file.write_value_piece_offset(self.value_offset)?;
diff --git a/src/filedb/inner/val.rs b/src/filedb/inner/val.rs
index d6a4502..0573ca8 100644
--- a/src/filedb/inner/val.rs
+++ b/src/filedb/inner/val.rs
@@ -342,7 +342,7 @@ impl ValuePiece {
         file.seek_from_start(self.offset)?;
         file.write_piece_size(self.size)?;
         file.write_value_len(value_len)?;
-        file.write_all_small(value)?;
+        file.write_all(value)?;
         file.write_zero_to_offset(self.offset + self.size)?;
         //
         Ok(())
-- 
2.43.0


From abb9738d4bbd1e9b1202c8376a43e42f0606bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 09/17] fix: a small buffer size parameter gives at least two
 chunks

FileBufSizeParam::Size() below two chunks panicked at the open or
overflowed the stack when the only chunk is pinned.
---
 src/filedb/inner/vfile.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 5d76415..7298092 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -38,6 +38,8 @@ impl VarFile {
         max_num_chunks: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // the first chunk is pinned, so that at least one more is needed.
+        let max_num_chunks = max_num_chunks.max(2);
         Ok(Self {
             buf_file: BufFile::with_capacity(name, file, chunk_size, max_num_chunks)?,
             piece_mgr,
-- 
2.43.0


From a4b5c411ccf9c29194cc0aeaa67c104ffbf85799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 10/17] fix: a partial per mille buffer uses small chunks

A buffer of FileBufSizeParam::PerMille() below 1000 had only one chunk of
128 KiB, which is pinned, and overflowed the stack when the file is
larger than the chunk.
---
 src/filedb/inner/vfile.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filedb/inner/vfile.rs b/src/filedb/inner/vfile.rs
index 7298092..baf2139 100644
--- a/src/filedb/inner/vfile.rs
+++ b/src/filedb/inner/vfile.rs
@@ -57,6 +57,12 @@ impl VarFile {
         per_mille: u16,
     ) -> Result<VarFile> {
         debug_assert!(chunk_size == rabuf::roundup_powerof2(chunk_size));
+        // a partial buffer may be as small as 32 KiB. it must have two or more chunks.
+        let chunk_size = if per_mille < 1000 {
+            chunk_size.min(4 * 1024)
+        } else {
+            chunk_size
+        };
         Ok(Self {
             buf_file: BufFile::with_per_mille(name, file, chunk_size, per_mille)?,
             piece_mgr,
-- 
2.43.0


From c6a56ad9840ade8fcfb1cb319168c5e641860813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 11/17] fix: bulk operations handle duplicate keys in the given
 order

The first value of duplicate keys won in bulk_put(), and it was
unspecified in bulk_put_string() and bulk_delete().
---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c17e31c..489051e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,8 +245,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // the sort is stable, so that the last one of the same keys wins.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1)?;
         }
         Ok(())
@@ -260,8 +261,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         Q: Ord + ?Sized,
     {
         let mut vec = bulk.to_vec();
-        vec.sort_unstable_by(|a, b| b.0.cmp(a.0));
-        while let Some(kv) = vec.pop() {
+        // the sort is stable, so that the last one of the same keys wins.
+        vec.sort_by(|a, b| a.0.cmp(b.0));
+        for kv in vec {
             self.put(kv.0, kv.1.as_bytes())?;
         }
         Ok(())
@@ -298,8 +300,9 @@ pub trait DbXxx<KT: DbMapKeyType>: DbXxxObjectSafe<KT> {
         let mut result: Vec<(usize, Option<Vec<u8>>)> = Vec::new();
         let mut vec: Vec<(usize, &Q)> =
             bulk_keys.iter().enumerate().map(|(i, &a)| (i, a)).collect();
-        vec.sort_unstable_by(|a, b| b.1.cmp(a.1));
-        while let Some(ik) = vec.pop() {
+        // the sort is stable, so that the first one of the same keys is deleted.
+        vec.sort_by(|a, b| a.1.cmp(b.1));
+        for ik in vec {
             let result_value = self.delete(ik.1)?;
             result.push((ik.0, result_value));
         }
-- 
2.43.0


From 0fbd447f0cfb2b2bde26d72afc3a46e60a410cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 12/17] fix: the check functions do not hold a node borrow
 while reading nodes

Reading a node may write another dirty node of the node cache, which
panicked with 'already borrowed' in the statistics and graph functions.
---
 src/filedb/inner/idx.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 7b3f129..3b6d0a2 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1334,7 +1334,7 @@ impl VarFileNodeCache {
     fn graph_string(&mut self, head: &str, node_: &IdxNode) -> Result<String> {
         use std::fmt::Write;
         //
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut gs = format!(
             "{}{}:{:04x}\n",
             head,
@@ -1383,7 +1383,7 @@ impl VarFileNodeCache {
     {
         use std::fmt::Write;
         //
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut gs = format!(
             "{}{}:0x{:04x},{03}\n",
             head,
@@ -1431,7 +1431,7 @@ impl VarFileNodeCache {
         node_: &IdxNode,
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1471,7 +1471,7 @@ impl VarFileNodeCache {
     where
         F: Fn(KeyPieceOffset) -> Result<(KeyPieceSize, ValuePieceSize)> + std::marker::Copy,
     {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         match node_vec.iter().position(|v| v.0 == node.size().as_value()) {
             Some(sz_idx) => {
                 node_vec[sz_idx].1 += 1;
@@ -1561,7 +1561,7 @@ impl VarFileNodeCache {
         F: Fn(KeyPieceOffset) -> Result<PieceSize<KV>> + Copy,
         KV: Copy + Ord,
     {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1604,7 +1604,7 @@ impl VarFileNodeCache {
     where
         F: Fn(KeyPieceOffset) -> Result<Length<KV>> + Copy,
     {
-        let node = node_.get_ref();
+        let node = node_.get_ref().clone();
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
-- 
2.43.0


From 0f8a48440eab3aaafdd9d35348cf7c56a32cacb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 13/17] fix: the keys count statistics include the top node and
 all children

---
 src/filedb/inner/idx.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 3b6d0a2..50109e9 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -1432,6 +1432,11 @@ impl VarFileNodeCache {
         keys_vec: &mut KeysCountStats,
     ) -> Result<()> {
         let node = node_.get_ref().clone();
+        let keys_count = node.keys_len();
+        #[cfg(feature = "siamese_debug")]
+        keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
+        #[cfg(not(feature = "siamese_debug"))]
+        keys_vec.touch_size(KeysCount::new(keys_count as u16));
         let mut i = node.downs_len() - 1;
         let node_offset = node.downs_get(i);
         if !node_offset.is_zero() {
@@ -1448,11 +1453,6 @@ impl VarFileNodeCache {
                 let node = self
                     .read_node(node_offset)
                     .unwrap_or_else(|_| panic!("offset: {:04x}", node_offset.as_value()));
-                let keys_count = node.get_ref().keys_len();
-                #[cfg(feature = "siamese_debug")]
-                keys_vec.touch_size(KeysCount::new(keys_count.try_into().unwrap()));
-                #[cfg(not(feature = "siamese_debug"))]
-                keys_vec.touch_size(KeysCount::new(keys_count as u16));
                 self.idx_keys_count_stats(&node, keys_vec)?;
             }
         }
-- 
2.43.0


From e7a424cd36c1e89f1a3c120d4e943ad1311c3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 14/17] fix: a string map in memory keeps keys which are not
 valid UTF-8 apart

---
 src/memdb.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/memdb.rs b/src/memdb.rs
index 8cc85dd..087dfe3 100644
--- a/src/memdb.rs
+++ b/src/memdb.rs
@@ -246,7 +246,7 @@ impl<'a> MemoryDbInner<'a> {
 #[derive(Debug)]
 pub(crate) struct MemoryDbMapDbStringInner<'a> {
     parent: Option<MemoryDbNode<'a>>,
-    mem: BTreeMap<String, Vec<u8>>,
+    mem: BTreeMap<DbString, Vec<u8>>,
 }
 
 impl MemoryDbMapDbStringInner<'_> {
@@ -287,18 +287,15 @@ impl DbXxxBase for MemoryDbMapDbStringInner<'_> {
 
 impl DbXxxObjectSafe<DbString> for MemoryDbMapDbStringInner<'_> {
     fn get_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.get(&key_s).map(|val| val.to_vec());
+        let r = self.mem.get(key).map(|val| val.to_vec());
         Ok(r)
     }
     fn put_kt(&mut self, key: &DbString, value: &[u8]) -> Result<()> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let _ = self.mem.insert(key_s, value.to_vec());
+        let _ = self.mem.insert(key.clone(), value.to_vec());
         Ok(())
     }
     fn del_kt(&mut self, key: &DbString) -> Result<Option<Vec<u8>>> {
-        let key_s = String::from_utf8_lossy(key).to_string();
-        let r = self.mem.remove(&key_s);
+        let r = self.mem.remove(key);
         Ok(r)
     }
 }
-- 
2.43.0


From 24ee7b16bfd922d8f09a95e4756661d5d3fbfca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 15/17] fix: the loops of the check functions do not hold a
 node borrow either

The bound of a loop keeps its borrow of the node while the loop runs; reading
a child may write the dirty nodes of the cache and panicked.
---
 src/filedb/inner/idx.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/filedb/inner/idx.rs b/src/filedb/inner/idx.rs
index 50109e9..978913b 100644
--- a/src/filedb/inner/idx.rs
+++ b/src/filedb/inner/idx.rs
@@ -251,7 +251,8 @@ impl IdxFile {
         } else {
             0
         };
-        for i in 1..node.get_ref().downs_len() {
+        let downs_len = node.get_ref().downs_len();
+        for i in 1..downs_len {
             let node_offset = node.get_ref().downs_get(i);
             let hh = if !node_offset.is_zero() {
                 let node1 = self.read_node(node_offset)?;
@@ -277,7 +278,8 @@ impl IdxFile {
         } else {
             0
         };
-        for i in 1..node.get_ref().downs_len() {
+        let downs_len = node.get_ref().downs_len();
+        for i in 1..downs_len {
             let node_offset = node.get_ref().downs_get(i);
             let h = if !node_offset.is_zero() {
                 let node1 = self.read_node(node_offset)?;
@@ -320,7 +322,8 @@ impl IdxFile {
             }
         }
         //
-        for i in 1..node.get_ref().keys_len() {
+        let keys_len = node.get_ref().keys_len();
+        for i in 1..keys_len {
             #[cfg(not(feature = "tr_has_short_key"))]
             let key_offset1 = node.get_ref().keys_get(i - 1);
             #[cfg(feature = "tr_has_short_key")]
@@ -383,7 +386,8 @@ impl IdxFile {
     where
         KT: DbMapKeyType + std::fmt::Display + std::default::Default + std::cmp::PartialOrd,
     {
-        for i in 0..node.get_ref().keys_len() {
+        let keys_len = node.get_ref().keys_len();
+        for i in 0..keys_len {
             let node_offset = node.get_ref().downs_get(i);
             if !node_offset.is_zero() {
                 let node1 = self.read_node(node_offset)?;
@@ -424,7 +428,8 @@ impl IdxFile {
     where
         KT: DbMapKeyType + std::fmt::Display + std::default::Default + std::cmp::PartialOrd,
     {
-        for i in 0..node.get_ref().keys_len() {
+        let keys_len = node.get_ref().keys_len();
+        for i in 0..keys_len {
             let node_offset = node.get_ref().downs_get(i);
             if !node_offset.is_zero() {
                 let node1 = self.read_node(node_offset)?;
@@ -462,7 +467,8 @@ impl IdxFile {
     where
         KT: DbMapKeyType + std::fmt::Display + std::default::Default + std::cmp::PartialOrd,
     {
-        for i in 0..node.get_ref().keys_len() {
+        let keys_len = node.get_ref().keys_len();
+        for i in 0..keys_len {
             let node_offset = node.get_ref().downs_get(i);
             if !node_offset.is_zero() {
                 let node1 = self.read_node(node_offset)?;
-- 
2.43.0


From 3a24e7f96a2e24db68abf6fed7adc01a6e4bead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 16/17] fix: evicting a deleted node from the lru/lfu node
 cache unmapped the node which reuses its offset

---
 src/filedb/inner/nc.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/filedb/inner/nc.rs b/src/filedb/inner/nc.rs
index 21d8c52..89afcee 100644
--- a/src/filedb/inner/nc.rs
+++ b/src/filedb/inner/nc.rs
@@ -240,10 +240,16 @@ impl NodeCache {
                         //
                         let mut ncb = self.vec.swap_remove(k);
                         write_node(file, &mut ncb)?;
-                        self.map.remove(&ncb.node_offset.as_value());
+                        // a deleted node is not in the map, its offset may
+                        // belong to a new one.
+                        if ncb.node.is_some() {
+                            self.map.remove(&ncb.node_offset.as_value());
+                        }
                         //
-                        let off = self.vec[k].node_offset;
-                        self.map.insert(&off.as_value(), k);
+                        let moved = &self.vec[k];
+                        if moved.node.is_some() {
+                            self.map.insert(&moved.node_offset.as_value(), k);
+                        }
                     }
                 }
                 let k = self.vec.len();
-- 
2.43.0


From b62d2cae8f74be4aacc4c183d636dcbca72e4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 17/17] fix: a node stays in the lru/lfu node cache when
 writing it fails

---
 src/filedb/inner/nc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filedb/inner/nc.rs b/src/filedb/inner/nc.rs
index 89afcee..682214b 100644
--- a/src/filedb/inner/nc.rs
+++ b/src/filedb/inner/nc.rs
@@ -238,8 +238,8 @@ impl NodeCache {
                     {
                         let k = self.detach_cache()?;
                         //
-                        let mut ncb = self.vec.swap_remove(k);
-                        write_node(file, &mut ncb)?;
+                        write_node(file, &mut self.vec[k])?;
+                        let ncb = self.vec.swap_remove(k);
                         // a deleted node is not in the map, its offset may
                         // belong to a new one.
                         if ncb.node.is_some() {
-- 
2.43.0

