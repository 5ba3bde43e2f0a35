From 5c8c1af241dd91a34f0ddd00870e4b847674ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:14 +0000
Subject: [PATCH 01/17] fix: load history files from the hash directory they
 belong to

Files of an older source were looked up in the directory of the current
source, so the conversion to the current source was never reached.
---
 dochy_fs/src/imp/history/file_hist/file_history.rs   | 10 ++++++++--
 dochy_fs/src/imp/history/pub_fn/load_history_file.rs | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_hist/file_history.rs b/dochy_fs/src/imp/history/file_hist/file_history.rs
index 6249692..86c7049 100644
--- a/dochy_fs/src/imp/history/file_hist/file_history.rs
+++ b/dochy_fs/src/imp/history/file_hist/file_history.rs
@@ -13,19 +13,25 @@ pub struct FileHistory{
     ctls : BTreeMap<u32, FileHistoryItem>,
     max_phase : usize,
     cumulative : bool,
+    /// hash of the hash directory, if the history was created for a known one
+    hash : Option<u128>,
 }
 
 impl FileHistory{
     pub(crate) fn new(max_phase : usize, cumulative : bool) -> FileHistory{
-        FileHistory{ ctls : BTreeMap::new(), max_phase, cumulative }
+        FileHistory{ ctls : BTreeMap::new(), max_phase, cumulative, hash : None }
     }
 
+    pub(crate) fn hash(&self) -> Option<u128>{ self.hash }
+
     pub fn max_phase(&self) -> usize{ self.max_phase }
     pub fn cumulative(&self) -> bool{ self.cumulative }
 
     pub fn create<P : AsRef<Path>>(history_dir: P, hash : u128, max_phase : usize, cumulative : bool) -> FsResult<FileHistory>{
         let dir = hash_dir_path(history_dir.as_ref(), hash);
-        create_file_history(&dir, max_phase, cumulative)
+        let mut history = create_file_history(&dir, max_phase, cumulative)?;
+        history.hash = Some(hash);
+        Ok(history)
     }
 
     /// show every file in chronological order
diff --git a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
index 5bbc963..5ddf662 100644
--- a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
@@ -20,13 +20,20 @@ pub fn load_history_file(history_info : &HistoryInfo,
 
     let mut guard = get_mutex(history_info.history_dir()).unwrap();
     let c = guard.peekable();
-    let hash = c.hash();
+    let current_hash = c.hash();
+    //ファイルが属するハッシュフォルダのハッシュ
+    let hash = history.hash().unwrap_or(current_hash);
     let op = c.history_options().clone();
     let (cache,h) = guard.muts();
     match load_impl(history_info.history_dir(), hash,
                     props, history, cache, &op, validation){
         Ok(root) =>{
-            *h = Some(CurrentRootObjInfo::new(root.id(), props.clone()));
+            *h = if hash == current_hash {
+                Some(CurrentRootObjInfo::new(root.id(), props.clone()))
+            } else {
+                //別のハッシュフォルダのファイルから派生することはできない
+                None
+            };
             Ok(root)
         },
         Err(e) => Err(e),
-- 
2.43.0


From ae4b064b1b1633a7e0e33f79784739706841b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:13 +0000
Subject: [PATCH 02/17] fix: report an error instead of aborting when a
 corrupted length asks for too much memory

---
 dochy_compaction/src/enc_dec/reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dochy_compaction/src/enc_dec/reader.rs b/dochy_compaction/src/enc_dec/reader.rs
index e28bae4..2d8d4bd 100644
--- a/dochy_compaction/src/enc_dec/reader.rs
+++ b/dochy_compaction/src/enc_dec/reader.rs
@@ -17,7 +17,7 @@ impl<'a, T : Read> Reader<'a, T>{
         Ok(buf[0])
     }
     pub fn read(&mut self, bytes : usize) -> Result<&[u8]>{
-        self.set_buf_len(bytes);
+        self.set_buf_len(bytes)?;
         self.read.read_exact(&mut self.buf)?;
         self.len += self.buf.len();
         Ok(&self.buf)
@@ -69,13 +69,14 @@ impl<'a, T : Read> Reader<'a, T>{
 
     pub fn bytes_read(&self) -> usize{ self.len }
 
-    fn set_buf_len(&mut self, len : usize){
+    fn set_buf_len(&mut self, len : usize) -> Result<()>{
         let capacity = self.buf.capacity();
         if len <= capacity{
             unsafe{ self.buf.set_len(len) }
         } else{
-            self.buf.reserve(len - self.buf.len());
+            self.buf.try_reserve(len - self.buf.len())?;
             unsafe{ self.buf.set_len(len); }
         }
+        Ok(())
     }
 }
\ No newline at end of file
-- 
2.43.0


From e980fc2b227626a9e7d7d320d69e09f7d819e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:13 +0000
Subject: [PATCH 03/17] fix: compact only strings with a decimal point to
 decimal numbers

---
 dochy_compaction/src/string_compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/string_compaction.rs b/dochy_compaction/src/string_compaction.rs
index 58fbc11..a9061a7 100644
--- a/dochy_compaction/src/string_compaction.rs
+++ b/dochy_compaction/src/string_compaction.rs
@@ -100,7 +100,7 @@ struct NumResult{
 }
 
 fn rex(s : &str) -> Option<regex::Captures>{
-    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(.?)([0-9]*))$"#).unwrap());
+    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(\.?)([0-9]*))$"#).unwrap());
 
     return RE.captures(s);
 }
-- 
2.43.0


From 545827045e9d3e32c8d0ad774f0618ab952ec3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:32 +0000
Subject: [PATCH 04/17] fix: read differences of list items whose changed inner
 list is stored by number

---
 dochy_diff/src/imp/read/read_list.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dochy_diff/src/imp/read/read_list.rs b/dochy_diff/src/imp/read/read_list.rs
index 4aeacf0..559666c 100644
--- a/dochy_diff/src/imp/read/read_list.rs
+++ b/dochy_diff/src/imp/read/read_list.rs
@@ -87,8 +87,6 @@ fn read_list_item2(r : &mut Reader, meta : &MetaTables) -> Result<ListItemDiffR,
             for &id in &n{
                 if let Some((_,MetaValue::Param(p))) = meta.items().get(id){
                     params.push((id, read_param(p, r)?));
-                } else {
-                    Err("invalid meta read_list_item2")?
                 }
             }
             read_lists_numbers(r, meta.items(), &n, &mut lists)?;
-- 
2.43.0


From 5328df20b423062b5d5ee07440132dd31ba96dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:10 +0000
Subject: [PATCH 05/17] fix: save changes of root lists that may be undefined

The prepare step of a difference looked only for the entry kind of ordinary
lists, so a root list declared undefiable made every comparison panic.
---
 dochy_diff/src/imp/prepare/get_root_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_root_diff.rs b/dochy_diff/src/imp/prepare/get_root_diff.rs
index b2690b3..0e653a5 100644
--- a/dochy_diff/src/imp/prepare/get_root_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_root_diff.rs
@@ -1,4 +1,4 @@
-use dochy_core::structs::{RootObject, RootValue, RustParam, MetaValue, RootSabValue};
+use dochy_core::structs::{RootObject, RootValue, RustParam, RootSabValue};
 use std::collections::BTreeMap;
 use crate::imp::structs_write::{RootDiffW, ListDiffW};
 use crate::diff_error::DiffError;
@@ -50,7 +50,7 @@ pub(crate) fn get_root_diff<'a, 'b>(from : &'a RootObject, to : &'b RootObject)
                 let (&id, mdef) = if let Some((id, RootValue::MList(mdef))) = def.get(key) { (id, mdef) } else {
                     panic!("invalid def");
                 };
-                let meta = if let Some((_key, MetaValue::MList(meta))) = meta.get(id) { meta } else {
+                let meta = if let Some(meta) = meta.get_tables(id) { meta } else {
                     panic!("invalid meta");
                 };
 
-- 
2.43.0


From 01bbb9bb9e61eb2677c80f3cd56e7e66eb9d6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:38 +0000
Subject: [PATCH 06/17] fix: reject sources that define a member twice

Two members with one name got overlapping numbers, so a saved value of one
member was restored into another, or loading aborted.
---
 dochy_core/src/imp/json_to_rust/construct_root.rs   | 3 +++
 dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/construct_root.rs b/dochy_core/src/imp/json_to_rust/construct_root.rs
index e4e9963..44e4c34 100644
--- a/dochy_core/src/imp/json_to_rust/construct_root.rs
+++ b/dochy_core/src/imp/json_to_rust/construct_root.rs
@@ -15,6 +15,9 @@ pub(crate) fn construct_root(root : RootObject, vec : Vec<(String, RootValue, Op
     let mut vec = vec;
     vec.sort_by(|(a,_,_),(b,_,_)| a.cmp(b));
     for (name, value, sab) in vec {
+        if default.contains_key(&name){
+            Err(format!("{} is defined multiple times", name))?
+        }
         let id = default.len();
         default.insert(name.to_string(), (id, value));
         if let Some(sab) = sab{
diff --git a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
index 591eea7..9d16c15 100644
--- a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
+++ b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
@@ -22,6 +22,9 @@ pub(crate) fn json_obj_to_rust(v : &LinkedHashMap<String, JVal>, is_ref_obj : bo
         let name = json_name(k).ok_or_else(|| format!("{} {} is not a valid name {}",v.line_str(), k, names))?;
         match name{
             NameType::Name(name, vt) =>{
+                if r.default.contains_key(&name){
+                    Err(format!("{} {} is defined multiple times {}", v.line_str(), name, names))?
+                }
                 let v = if is_ref_obj {
                     //きったないコードだなあ。でもこれが一番簡単で分かりやすいと思う・・・
                     json_item_to_rust_ref(&name, vt, v, names)?
-- 
2.43.0


From 70a1e31e0a35ae9ba1030acbd5dcf3118bee6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:09 +0000
Subject: [PATCH 07/17] fix: keep the id counter when an empty list is cloned
 or converted

The counter went back to zero, so ids of removed items were handed out again.
---
 dochy_core/src/imp/structs/linked_m.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_m.rs b/dochy_core/src/imp/structs/linked_m.rs
index f8087cd..4aaf792 100644
--- a/dochy_core/src/imp/structs/linked_m.rs
+++ b/dochy_core/src/imp/structs/linked_m.rs
@@ -81,7 +81,7 @@ impl<V> LinkedMap<V> {
     }
     pub fn construct(items : Vec<(u64,V)>, next_id : u64) -> LinkedMap<V>{
         if items.is_empty(){
-            return LinkedMap::new();
+            return LinkedMap{ next_id, ..LinkedMap::new() };
         }
         let mut map : HashM<u64,Box<MutNode<V>>> = HashMt::with_capacity(items.len());
         let mut iter = items.into_iter();
@@ -388,7 +388,7 @@ impl<V> LinkedMap<V> {
 
 impl<V : Clone> Clone for LinkedMap<V>{
     fn clone(&self) -> Self {
-        if self.map.is_empty(){ return LinkedMap::new() }
+        if self.map.is_empty(){ return LinkedMap{ next_id : self.next_id, ..LinkedMap::new() } }
         let mut map = self.map.clone();
         let first_node = map.get_mut(&self.first_id().unwrap()).unwrap().as_mut() as *mut _;
         let last_node = map.get_mut(&self.last_id().unwrap()).unwrap().as_mut() as *mut _;
-- 
2.43.0


From 0d2a2cb08eec115769578c76c5b1adf0f9d4d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:13 +0000
Subject: [PATCH 08/17] fix: save the id counter of a list also when no item
 differs

After inserting and removing an item the counter was not saved, and the id of
the removed item was handed out again after loading.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index bc8d9c3..fa419a6 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -26,7 +26,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
         prev_id = Some(id)
     }
 
-    if result.len() == 0{
+    if result.len() == 0 && from.next_id() == to.next_id(){
         None
     } else {
         Some(ListDiffW::new(result, meta, to.next_id()))
-- 
2.43.0


From 09c57010dafcddce3de8eb281f6af3efb232626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:33 +0000
Subject: [PATCH 09/17] fix: check the item ids written in the source of a list

Two items with one id left dangling links in the list, and without an explicit
counter new items got ids that the source had already given away.
---
 dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index 60f26bb..6a6cb63 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -220,9 +220,15 @@ fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
 
 fn to_mut_list_items(vec : Vec<TmpObj>, next_id : u64) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(vec.len());
+    let mut ids : HashS<u64> = HashSt::with_capacity(vec.len());
+    let mut next_id = next_id;
     for (idx, tmp_item) in vec.into_iter().enumerate(){
         //let span = tmp_item.span.clone();
         let pair = tmp_item.into_mut_list_item(idx)?;
+        if ids.insert(pair.0) == false{
+            Err(format!("ID {} is defined multiple times", pair.0))?
+        }
+        next_id = next_id.max(pair.0.saturating_add(1));
         result.push(pair);
     }
     return Ok(LinkedMap::construct(result, next_id));
-- 
2.43.0


From a555c34b2be6f5f90e5735bd152f63803c39c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:50 +0000
Subject: [PATCH 10/17] fix: save the new position of moved list items

A difference recorded changed, deleted and created items only, so the order
given to the items of a list was lost when saving.
---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 28 +++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index fa419a6..1fb8295 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -1,4 +1,5 @@
 use crate::imp::structs_write::{ListDiffW, ListItemDiffEnumW, BS};
+use std::collections::BTreeSet;
 use dochy_core::structs::{ListDefObj, LinkedMap, MutItem, MetaTables};
 use crate::imp::prepare::compare_items::compare_items;
 use crate::imp::prepare::new_item::new_item;
@@ -6,9 +7,14 @@ use crate::imp::prepare::new_item::new_item;
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
+    //moved items are deleted and created again at the new position
+    let moved = get_moved_ids(from, to);
+
     let mut result : Vec<(u64, ListItemDiffEnumW)> = Vec::new();
     for (&id, from_item) in from {
-        if let Some(to_item) = to.get_item(id) {
+        if moved.contains(&id) {
+            result.push((id, ListItemDiffEnumW::Delete));
+        } else if let Some(to_item) = to.get_item(id) {
             if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
             }
@@ -19,7 +25,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false{
+        if from.contains_key(id) == false || moved.contains(&id){
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
@@ -33,5 +39,19 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
     }
 }
 
-
-
+fn get_moved_ids(from : &LinkedMap<MutItem>, to : &LinkedMap<MutItem>) -> BTreeSet<u64>{
+    let mut moved : BTreeSet<u64> = BTreeSet::new();
+    let mut rest = from.iter().map(|(&id, _)| id).filter(|id| to.contains_key(*id)).peekable();
+    for (&id, _) in to{
+        if from.contains_key(id) == false{ continue; }
+        while rest.peek().map_or(false, |next| moved.contains(next)){
+            rest.next();
+        }
+        if rest.peek() == Some(&id){
+            rest.next();
+        } else{
+            moved.insert(id);
+        }
+    }
+    moved
+}
-- 
2.43.0


From 4baa4ec1b2dbaa7f21039927285337c867ec5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:42 +0000
Subject: [PATCH 11/17] fix: keep the parent's control number for siblings of
 non-cumulative histories

---
 dochy_fs/src/imp/history/file_hist/ancestors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/ancestors.rs b/dochy_fs/src/imp/history/file_hist/ancestors.rs
index 6bff18c..5eaf62b 100644
--- a/dochy_fs/src/imp/history/file_hist/ancestors.rs
+++ b/dochy_fs/src/imp/history/file_hist/ancestors.rs
@@ -71,7 +71,8 @@ pub(crate) fn create_dependencies<'a,'b>(ancestors : &'b[&'a FileNameProps],
         prev_ctl = last_prop.control();
     } else if next_phase == max_phase{
         *order.last_mut().unwrap() += 1;
-        prev_ctl = last_prop.control();
+        //cumulativeでない場合、一つ前のファイルは兄弟であって、親はその親と同じ
+        prev_ctl = if cumulative { last_prop.control() } else { last_prop.prev_ctl() };
     } else {
         order = order[0..next_phase+1].to_vec();
         *order.last_mut().unwrap() += 1;
-- 
2.43.0


From 4285ebe5f0bd3102a6d5a7bc7c46fb5e547b026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:02 +0000
Subject: [PATCH 12/17] fix: is_last of the list iterators answered for the
 first item

---
 dochy_core/src/imp/structs/linked_map_iter.rs     | 2 +-
 dochy_core/src/imp/structs/linked_map_iter_mut.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_map_iter.rs b/dochy_core/src/imp/structs/linked_map_iter.rs
index e3f8050..7af002f 100644
--- a/dochy_core/src/imp/structs/linked_map_iter.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter.rs
@@ -39,7 +39,7 @@ impl<'a, V> LinkedMapIter<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIter<'a, V>{
diff --git a/dochy_core/src/imp/structs/linked_map_iter_mut.rs b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
index 6d9754b..672200d 100644
--- a/dochy_core/src/imp/structs/linked_map_iter_mut.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
@@ -36,7 +36,7 @@ impl<'a, V> LinkedMapIterMut<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIterMut<'a, V>{
-- 
2.43.0


From 9187030fced31aed9de59529284c751294253465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:02 +0000
Subject: [PATCH 13/17] fix: prev of the mutable list iterator moved forward

---
 dochy_core/src/imp/intf/mlist_iter_mut.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/intf/mlist_iter_mut.rs b/dochy_core/src/imp/intf/mlist_iter_mut.rs
index b7c5660..699bde9 100644
--- a/dochy_core/src/imp/intf/mlist_iter_mut.rs
+++ b/dochy_core/src/imp/intf/mlist_iter_mut.rs
@@ -29,7 +29,7 @@ impl<'a, V : From<MItemPtr>> MListIterMut<'a, V>{
             MItemMut::from_phantom(v, self.phantom)))
     }
     pub fn prev(&mut self) -> Option<(u64, MItemMut<'a, V>)> {
-        self.ptr.next_mut().map(|(id, v)| (
+        self.ptr.prev_mut().map(|(id, v)| (
             id,
             MItemMut::from_phantom(v, self.phantom)))
     }
-- 
2.43.0


From 89f1f16077848370349df7fd30ec65d2c5bc85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:13 +0000
Subject: [PATCH 14/17] fix: generated source for a table without items
 compiles

---
 dochy_intf/src/imp/structs/table_source.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dochy_intf/src/imp/structs/table_source.rs b/dochy_intf/src/imp/structs/table_source.rs
index fdfe5fa..268bbeb 100644
--- a/dochy_intf/src/imp/structs/table_source.rs
+++ b/dochy_intf/src/imp/structs/table_source.rs
@@ -115,7 +115,9 @@ impl TableSource {
         sb.push(0, "}");
 
 
-        sb.append(&format!("#[repr(u64)] pub enum {}{{ ", &ids_type_name));
+        // an enum without variants can have no representation
+        let repr = if self.keys.len() != 0 { "#[repr(u64)] " } else { "" };
+        sb.append(&format!("{}pub enum {}{{ ", repr, &ids_type_name));
         for key in &self.keys{
             sb.append(&format!("{}, ", &key.enum_name()))
         }
@@ -140,7 +142,7 @@ impl TableSource {
         sb.push(1, "}");
         sb.push(1, &format!("pub fn len() -> usize{{ {} }}", self.keys.len()));
         sb.push(1, &format!("pub fn to_num(&self) -> usize{{"));
-        sb.push(2, &format!("match self{{"));
+        sb.push(2, if self.keys.len() != 0 { "match self{" } else { "match *self{" });
         for (i, key) in self.keys.iter().enumerate() {
             sb.push(3, &format!(r#"{}::{} => {},"#, &ids_type_name, &key.enum_name(), i));
         }
-- 
2.43.0


From 3ac1bc494ebb8bedc8c8dff303a4537f7497e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:53:22 +0000
Subject: [PATCH 15/17] fix: nested lists were converted with the definition of
 the enclosing list

---
 .../src/imp/version_adjuster/adjust_mut_list_item_sabun.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 94b8d4e..57d1420 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -50,7 +50,10 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
             ListSabValue::Mil(op) =>{
                 match op{
                     Some(im) =>{
-                        let new = adjust_mut_list(def, im, &names.append(def_key))?;
+                        let inner_def = if let ListDefValue::MilDef(mut_def) = def_v { mut_def.default() } else {
+                            Err(format!("{} {} isn't a Mil in the new version", names, def_key))?
+                        };
+                        let new = adjust_mut_list(inner_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
-- 
2.43.0


From 037e1c136a7a07a0789b5fe338771d48fcc501ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:53:35 +0000
Subject: [PATCH 16/17] fix: converting list items made unmodified members
 undefined that the older version already had

---
 .../src/imp/version_adjuster/adjust_mut_list.rs     | 10 +++++-----
 .../version_adjuster/adjust_mut_list_item_ref.rs    |  4 ++--
 .../version_adjuster/adjust_mut_list_item_sabun.rs  | 13 +++++++++----
 .../src/imp/version_adjuster/version_adjuster.rs    |  6 +++++-
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
index d69776c..4bdacb6 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
@@ -8,14 +8,14 @@ use crate::imp::structs::linked_m::LinkedMap;
 use std::sync::Arc;
 
 
-pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
+pub(crate) fn adjust_mut(def : &ListDefObj, old_def : Option<&ListDefObj>, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(old_list.len());
     let next_id = old_list.next_id();
     for (id, value) in old_list{
         let (sabun, refs) = value.muts();
 
-        let new_sabun = adjust_mut_list_item_sabun(def, sabun, names)?;
-        let new_refs = adjust_mut_list_item_ref(def.refs(), refs, names)?;
+        let new_sabun = adjust_mut_list_item_sabun(def, old_def, sabun, names)?;
+        let new_refs = adjust_mut_list_item_ref(def.refs(), old_def.map(|d| d.refs()), refs, names)?;
         result.push((*id, MutItem::new(new_sabun, new_refs)));
     }
     return Ok(LinkedMap::construct(result, next_id));
@@ -29,11 +29,11 @@ pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>,
 //     Ok(MutListVal::new(new_list))
 // }
 
-pub(crate) fn adjust_mut_list(def : &ListDefObj, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
+pub(crate) fn adjust_mut_list(def : &ListDefObj, old_def : Option<&ListDefObj>, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
     let mut old_list = old.deconstruct();
     let old_list = Arc::make_mut(&mut old_list);
 
-    let new_list = adjust_mut(def, old_list, names)?;
+    let new_list = adjust_mut(def, old_def, old_list, names)?;
     //let next_id = new_list.len() as u64;
     Ok(MutListVal::new(new_list))
 }
\ No newline at end of file
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
index 499f6b2..c5f2eb1 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
@@ -6,14 +6,14 @@ use crate::imp::structs::ref_value::RefSabValue;
 use crate::imp::structs::qv::Qv;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 
-pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
+pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_def : Option<&RefDefObj>, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
 
     //事前に大きさが決定できないが、refのusecaseだとundefinedは少なく、default値のままが多いと思うので、sabunのlenを使う
     let mut result : HashM<String, RefSabValue> = HashMt::with_capacity(old_ref.len());
 
     for (def_key,_, def_v) in def.refs(){
         let sabun_v = if let Some(v) = old_ref.remove(def_key){ v } else {
-            if def_v.var_type().undefiable(){
+            if def_v.var_type().undefiable() && old_def.map_or(false, |d| d.refs().contains_key(def_key)) == false{
                 RefSabValue::new(Qv::Undefined)
             } else{
                 continue;
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 57d1420..020d081 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -7,7 +7,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 use crate::imp::structs::list_sab_value::ListSabValue;
 
-pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
+pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_def : Option<&ListDefObj>, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
 
 
     //デフォルトから変化しない場合はsabunには加わらないが、sabun.len()だと、
@@ -22,16 +22,17 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
 
     for (def_key,_, def_v) in def.default(){
         let sabun_v = if let Some(v) = old_sabun.remove(def_key){ v } else {
+            let in_old = old_def.map_or(false, |d| d.default().contains_key(def_key));
             match def_v{
                 ListDefValue::Param(p, vt) =>{
-                    if vt.undefiable(){
+                    if vt.undefiable() && in_old == false{
                         ListSabValue::Param(p.to_undefined())
                     } else{
                         continue;
                     }
                 },
                 ListDefValue::MilDef(mut_def) =>{
-                    if mut_def.undefiable(){
+                    if mut_def.undefiable() && in_old == false{
                         ListSabValue::Mil(None)
                     } else{
                         continue;
@@ -53,7 +54,11 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
                         let inner_def = if let ListDefValue::MilDef(mut_def) = def_v { mut_def.default() } else {
                             Err(format!("{} {} isn't a Mil in the new version", names, def_key))?
                         };
-                        let new = adjust_mut_list(inner_def, im, &names.append(def_key))?;
+                        let old_inner = match old_def.and_then(|d| d.default().get(def_key)){
+                            Some(ListDefValue::MilDef(d)) => Some(d.default()),
+                            _ => None,
+                        };
+                        let new = adjust_mut_list(inner_def, old_inner, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
diff --git a/dochy_core/src/imp/version_adjuster/version_adjuster.rs b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
index 799ea62..c861f6f 100644
--- a/dochy_core/src/imp/version_adjuster/version_adjuster.rs
+++ b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
@@ -61,7 +61,11 @@ pub fn adjust_versions(new : RootObject, old : RootObject, validation : bool) ->
                 if undef == false {
                     if let Some(RootSabValue::Mut(m_val)) = old_sabun.remove(def_key) {
                         if let Some(m_val) = m_val {
-                            let new_m = adjust_mut_list(m.default(), m_val, &Names::new(def_key))?;
+                            let old_m = match old_def.get(def_key){
+                                Some(RootValue::MList(d)) => Some(d.default()),
+                                _ => None,
+                            };
+                            let new_m = adjust_mut_list(m.default(), old_m, m_val, &Names::new(def_key))?;
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(Some(new_m)));
                         } else{
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(None));
-- 
2.43.0


From 3faa11353f10010de60f1101b963cd8aa56017f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:47:44 +0000
Subject: [PATCH 17/17] fix: the tag in a history file name is read whole

The end of the tag was one byte short, so a file saved with a tag was never
recognised as a history file again, and an empty tag made the analysis panic.
---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index ccab0a8..a8c98ea 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -99,7 +99,7 @@ fn get_tag(s : &str) -> Option<&str>{
     }
     for (i,c) in bytes.iter().skip(1).enumerate(){
         if *c == '#' as u8{
-            return Some(&s[1..i])
+            return Some(&s[1..i+1])
         }
     }
     return None;
-- 
2.43.0

