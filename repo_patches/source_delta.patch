From 4489f057811ddcf0898303ee892af4d9146d813a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 04:58:29 +0000
Subject: [PATCH 01/22] verif: guarded hook module for out-of-tree harnesses
 (cfg dump_syms_verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 04413b5..2f9a46f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,6 +3,8 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
+#![allow(unexpected_cfgs)] // cfg(dump_syms_verif), see the end of this file
+
 #[cfg(feature = "http")]
 pub mod cache;
 pub mod collector;
@@ -19,3 +21,11 @@ mod source;
 mod symbol;
 pub mod utils;
 pub mod windows;
+
+// Verification hook: gives the harnesses that live outside this repository
+// access to crate-private items. Compiled only with `--cfg dump_syms_verif`.
+#[cfg(dump_syms_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(env!("DUMP_SYMS_VERIF_HOOKS"));
+}
-- 
2.43.0


From 25858f09db06e6449fc4089763bc5ebea5c8aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:21 +0000
Subject: [PATCH 02/22] fix: is_inside_symbol overflowed for a symbol ending at
 or past 4 GiB

`rva + len` is computed in u32: it panics in debug builds and wraps in
release builds, so addresses covered by the function looked uncovered.
---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 53cbae5..7598f56 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -33,7 +33,7 @@ pub trait ContainsSymbol {
 impl ContainsSymbol for Symbols {
     fn is_inside_symbol(&self, rva: u32) -> bool {
         let last = self.range((Included(0), Excluded(rva))).next_back();
-        last.is_some_and(|last| rva < (last.1.rva + last.1.len))
+        last.is_some_and(|last| rva - last.1.rva < last.1.len)
     }
 }
 
-- 
2.43.0


From 222e5525a06ec8082cbec01708002a21aa4ce86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:39 +0000
Subject: [PATCH 03/22] fix: parse_c_decorated panicked on names starting with
 a multi-byte character

`split_at(1)` needs index 1 to be a char boundary; is_char_boundary(1) is
also false for the empty name.
---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 7598f56..db446ba 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -222,7 +222,7 @@ impl ParsedWinFuncName {
         }
 
         // Parse the other three.
-        if !c_decorated_name.is_empty() {
+        if c_decorated_name.is_char_boundary(1) {
             if let ("@" | "_", rest) = c_decorated_name.split_at(1) {
                 if let Some((name, param_size)) = rest.rsplit_once('@') {
                     if let Ok(param_size) = param_size.parse::<u32>() {
-- 
2.43.0


From 01c70efaa8f5f598dca0fe6e735ebfd85460894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:39 +0000
Subject: [PATCH 04/22] fix: append_dummy_symbol_pe_pdb overflowed when the
 last symbol reaches 4 GiB

---
 src/symbol.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index db446ba..2ceacd8 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -137,7 +137,10 @@ fn append_dummy_symbol_pe_pdb(mut syms: Symbols, name: &str) -> Symbols {
         return syms;
     };
 
-    let rva = if len == 0 { rva + 1 } else { rva + len };
+    let Some(rva) = rva.checked_add(len.max(1)) else {
+        // The last symbol extends to the end of the address space.
+        return syms;
+    };
 
     let name = if name.is_empty() {
         String::from("<unknown>")
-- 
2.43.0


From 302cfd1edb1f2e0a03f177e0d747502b8f799ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:39 +0000
Subject: [PATCH 05/22] fix: SourceMap::merge forgot the paths it added

The paths taken from `other` were not recorded in `ref_to_id`, so a further
merge of the result (as left or right operand) remapped lines to wrong file
ids or lost their FILE records.
---
 src/source.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source.rs b/src/source.rs
index f80105a..f7120e7 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -186,6 +186,7 @@ impl SourceMap {
                 let new_id = self.id_to_ref.len() as u32;
                 remapping[id] = new_id;
                 self.id_to_ref.push(other.id_to_ref[id].clone());
+                self.ref_to_id.insert(path.clone(), new_id);
             }
         }
 
-- 
2.43.0


From 95decf09aa6ca3a2baea8d2a14ba36d299cca0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:39 +0000
Subject: [PATCH 06/22] fix: FILE numbering of merged modules depended on the
 hash table order

---
 src/source.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index f7120e7..90eb0c8 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -177,7 +177,12 @@ impl SourceMap {
         let mut remapping = vec![0; other.id_to_ref.len()];
         self.id_to_ref.reserve(other.id_to_ref.len());
 
-        for (path, id) in other.ref_to_id.iter() {
+        // Add the new files in the order of their ids and not in the arbitrary order of
+        // the hash table, to have the same output for the same input.
+        let mut other_files: Vec<_> = other.ref_to_id.iter().collect();
+        other_files.sort_unstable_by_key(|(_, id)| **id);
+
+        for (path, id) in other_files {
             let id = *id as usize;
             if let Some(an_id) = self.ref_to_id.get(path) {
                 // self has already this path so map the id to the existing one
-- 
2.43.0


From fc49a3c5c61b9dae1b0e0155f1393192144b2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 07/22] fix: SourceFiles cached the addresses of temporary
 strings

FileInfo::{dir_str,name_str} return an owned string when the name isn't valid
UTF-8; its address is reused by later names, which then got the id of another
file.
---
 src/source.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 90eb0c8..adbf0f8 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -5,6 +5,7 @@
 
 use hashbrown::{hash_map, HashMap};
 use log::error;
+use std::borrow::Cow;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -95,10 +96,13 @@ impl SourceFiles {
     pub(super) fn get_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
         // A lot of paths are a slice on the same string in the debug file
         // so just use a cache based on the string pointers.
+        let (dir, name) = (file.dir_str(), file.name_str());
+        // The pointer of an owned (temporary) string doesn't identify a path.
+        let is_cacheable = matches!((&dir, &name), (Cow::Borrowed(_), Cow::Borrowed(_)));
         let cache_key = (
             Self::cast_ptr(compilation_dir),
-            Self::cast_ptr(file.dir_str().as_bytes()),
-            Self::cast_ptr(file.name_str().as_bytes()),
+            Self::cast_ptr(dir.as_bytes()),
+            Self::cast_ptr(name.as_bytes()),
         );
 
         match self.cache.entry(cache_key) {
@@ -126,7 +130,9 @@ impl SourceFiles {
                         id
                     }
                 };
-                e.insert(id);
+                if is_cacheable {
+                    e.insert(id);
+                }
                 id
             }
         }
-- 
2.43.0


From 44eb09bce3abbed965a26f63a0d4fae0096358b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 08/22] fix: ObjectInfo::dump ignored write errors of buffered
 data

The BufWriter was dropped without being flushed, so a full disk was reported
as a success.
---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 8a0cc5e..fbf7fa5 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -293,6 +293,7 @@ impl ObjectInfo {
 
     pub fn dump<W: Write>(&self, mut writer: W) -> common::Result<()> {
         write!(writer, "{self}")?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 2df187743de45f03c7597bcdca2d76a9db91167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 09/22] fix: copy_in_cache ignored write errors of buffered
 data

---
 src/cache.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cache.rs b/src/cache.rs
index feaa640..d491709 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -141,6 +141,7 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
     let mut output = BufWriter::new(output);
     output
         .write_all(data)
+        .and_then(|_| output.flush())
         .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
 
     true
-- 
2.43.0


From c15ada9834bd22e8b980786a85865e0a46f641a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 10/22] fix: the pdb lookup in CWD looked in the parent
 directory of CWD

set_file_name() replaces the last component of the path.
---
 src/windows/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 57a1b93..9ae7fdd 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -23,8 +23,8 @@ fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
     }
 
     // We try in CWD
-    let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
-    pdb.set_file_name(pdb_filename);
+    let cwd = std::env::current_dir().expect("Unable to get the current working directory");
+    let pdb = cwd.join(pdb_filename);
     if pdb.is_file() {
         Some(utils::read_file(pdb))
     } else {
-- 
2.43.0


From 11f980419c2240be837126b81b22520124cc2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 11/22] fix: control characters in FUNC and PUBLIC names broke
 the .sym format

A name with a line break was written on two lines; the names of INLINE_ORIGIN
records are already cleaned.
---
 src/collector.rs | 8 +++++---
 src/common.rs    | 6 ++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/collector.rs b/src/collector.rs
index 4cca6f2..dbb04bb 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -124,7 +124,7 @@ impl Collector {
         self.syms.insert(
             fun.address as u32,
             Symbol {
-                name: Self::demangle(&fun.name),
+                name: common::remove_control_chars(Self::demangle(&fun.name)),
                 is_public: false,
                 is_multiple: false,
                 is_synthetic: false,
@@ -388,7 +388,9 @@ impl Collector {
                         // may not have parameters but the symbol's mangled name might.
                         if !sym.name.contains('(') {
                             // Get the name from the symbol.
-                            sym.name = Self::demangle_str(&parsed_win_name.name);
+                            sym.name = common::remove_control_chars(Self::demangle_str(
+                                &parsed_win_name.name,
+                            ));
                         }
                         if let Some(size) = parsed_win_name.param_size {
                             // Get the parameter size from the symbol.
@@ -406,7 +408,7 @@ impl Collector {
                         .and_then(|n| n.param_size)
                         .unwrap_or_default();
                     e.insert(Symbol {
-                        name: sym_name,
+                        name: common::remove_control_chars(sym_name),
                         is_public: true,
                         is_multiple: false,
                         is_synthetic: false,
diff --git a/src/common.rs b/src/common.rs
index 9cf3402..7eddfb8 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -40,6 +40,12 @@ pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     String::from(&fixed)
 }
 
+/// Remove the control characters such as \n which mess up the .sym format.
+pub(crate) fn remove_control_chars(mut name: String) -> String {
+    name.retain(|c| !c.is_ascii_control());
+    name
+}
+
 pub(crate) fn fix_symbol_name<'a>(name: &'a Name<'a>) -> Name<'a> {
     static COMPILER_NNN: Lazy<Regex> = Lazy::new(|| {
         Regex::new(
-- 
2.43.0


From d31aeecfc18e72e68f57cb8f15f4a0418a5db13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:02 +0000
Subject: [PATCH 12/22] fix: two workers finishing together could both miss the
 end of the file list

The counter was read and then decremented: with two files left both workers
could read 2, nobody dumped the results and the program hung.
---
 src/dumper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8466b68..6600d91 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -432,7 +432,7 @@ fn consumer(
             }
         }
 
-        if counter.load(Ordering::SeqCst) == 1 {
+        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
@@ -444,8 +444,6 @@ fn consumer(
                 check_cfi,
                 collect_inlines,
             )?;
-        } else {
-            counter.fetch_sub(1, Ordering::SeqCst);
         }
     }
 
-- 
2.43.0


From 819d12e89863edb1e76bb71ecf32d78bfee31aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:02 +0000
Subject: [PATCH 13/22] fix: deadlock when dumping several files

The workers send the dump jobs and the poison in the bounded queue they are
reading: with one worker and three modules it blocked forever. And with -j0
there was no worker at all.
---
 src/dumper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 6600d91..008067f 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use crossbeam::channel::{bounded, Receiver, Sender};
+use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
@@ -460,10 +460,11 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
     let results = Arc::new(Mutex::new(HashMap::default()));
-    let num_jobs = config.num_jobs.min(filenames.len());
+    let num_jobs = config.num_jobs.max(1).min(filenames.len());
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
-    let (sender, receiver) = bounded(num_jobs + 1);
+    // The workers also push in the queue, so they must never be blocked because it's full.
+    let (sender, receiver) = unbounded();
 
     let mut receivers = Vec::with_capacity(num_jobs);
     for i in 0..num_jobs {
-- 
2.43.0


From 511ac5277f27b457b94652ccdcc844d600b71927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:40 +0000
Subject: [PATCH 14/22] fix: a file that can't be dumped made the other workers
 wait forever

An error or a panic in a worker left the number of pending files too high, so
the other workers never stopped; and the errors were logged but not returned.
---
 src/dumper.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 008067f..254932b 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -384,6 +384,22 @@ fn poison_queue(sender: &Sender<Option<JobItem>>, num_threads: usize) {
     }
 }
 
+/// Poison the queue when a worker stops because of an error or a panic, because the other
+/// workers would wait forever for the file it was dealing with.
+struct PoisonOnFailure {
+    sender: Sender<Option<JobItem>>,
+    num_threads: usize,
+    armed: bool,
+}
+
+impl Drop for PoisonOnFailure {
+    fn drop(&mut self) {
+        if self.armed {
+            poison_queue(&self.sender, self.num_threads);
+        }
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn consumer(
     arch: Arch,
@@ -418,9 +434,7 @@ fn consumer(
 
                 let mut results = results.lock().unwrap();
                 let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
-                        poison_queue(&sender, num_threads);
-                    })?
+                    ObjectInfo::merge(info, prev)?
                 } else {
                     info
                 };
@@ -479,9 +493,16 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         let t = thread::Builder::new()
             .name(format!("dump-syms {i}"))
             .spawn(move || {
-                consumer(
+                let mut guard = PoisonOnFailure {
+                    sender: sender.clone(),
+                    num_threads: num_jobs,
+                    armed: true,
+                };
+                let res = consumer(
                     arch, sender, receiver, results, counter, num_jobs, output, check_cfi,
-                )
+                );
+                guard.armed = res.is_err();
+                res
             })
             .unwrap();
 
@@ -499,11 +520,13 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .unwrap();
     }
 
+    let mut res = Ok(());
     for receiver in receivers {
         if let Err(e) = receiver.join().unwrap() {
             error!("{e}");
+            res = res.and(Err(e));
         }
     }
 
-    Ok(())
+    res
 }
-- 
2.43.0


From d03ae0817ba33faf1805bfa083d6666e03885c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:36 +0000
Subject: [PATCH 15/22] fix: get_jobs panicked on file names ending with a
 multi-byte character

---
 src/cache.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index d491709..bed5600 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -177,15 +177,11 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
         .unwrap_or_else(|e| panic!("{}", e));
         jobs.push(job);
         if !file_name.ends_with('_') {
+            let mut stem = file_name.chars();
+            stem.next_back();
             let job = Job::new(
                 path,
-                format!(
-                    "{}/{}/{}/{}_",
-                    server.server,
-                    file_name,
-                    id,
-                    &file_name[..file_name.len() - 1]
-                ),
+                format!("{}/{}/{}/{}_", server.server, file_name, id, stem.as_str()),
             )
             .unwrap_or_else(|e| panic!("{}", e));
             jobs.push(job);
-- 
2.43.0


From a18fe3abaf78d1f4c5e8fce8c72176a5644f28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:07 +0000
Subject: [PATCH 16/22] fix: a worker stopping after the end of the run aborted
 the process

---
 src/dumper.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 254932b..7c46f92 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -395,7 +395,10 @@ struct PoisonOnFailure {
 impl Drop for PoisonOnFailure {
     fn drop(&mut self) {
         if self.armed {
-            poison_queue(&self.sender, self.num_threads);
+            for _ in 0..self.num_threads {
+                // If nobody is listening anymore then there is nobody to stop.
+                let _ = self.sender.send(None);
+            }
         }
     }
 }
-- 
2.43.0


From d7eebd15100b81672a5a67430bcf29dec542e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:23 +0000
Subject: [PATCH 17/22] fix: a .gnu_debugdata section outside of the file made
 the dump panic

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 2ceacd8..1186a11 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -172,7 +172,7 @@ pub(super) fn get_compressed_minidebuginfo(object: &Object) -> Option<Vec<u8>> {
             if let Some(section_name) = elf.shdr_strtab.get_at(header.sh_name) {
                 if section_name == ".gnu_debugdata" {
                     let (start, length) = (header.sh_offset as usize, header.sh_size as usize);
-                    let mut buf: &[u8] = &data[start..(start + length)];
+                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;
                     let mut out: Vec<u8> = Vec::new();
                     lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
                     return Some(out);
-- 
2.43.0


From 498f9298f718834097b5460a98962f3380b1f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:38 +0000
Subject: [PATCH 18/22] fix: use the path mappings and the inlines option for
 PE files without PDB

---
 src/dumper.rs      | 14 ++++++++++----
 src/windows/pdb.rs | 13 +++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 7c46f92..2cf2505 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -178,10 +178,16 @@ fn get_pe_pdb_object_info<'a>(
     anyhow::bail!("HTTP symbol retrieval not enabled")
 }
 
-fn get_pe_object_info(buf: &[u8], path: &Path, filename: &str) -> common::Result<ObjectInfo> {
+fn get_pe_object_info(
+    buf: &[u8],
+    path: &Path,
+    filename: &str,
+    mapping: Option<Arc<PathMappings>>,
+    collect_inlines: bool,
+) -> common::Result<ObjectInfo> {
     let pe = PeObject::parse(buf)
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
-    let pe = ObjectInfo::from_pe(filename, pe)?;
+    let pe = ObjectInfo::from_pe_with_options(filename, pe, mapping, collect_inlines)?;
     Ok(pe)
 }
 
@@ -319,13 +325,13 @@ fn get_object_info(
                 &buf,
                 path,
                 filename,
-                file_mapping,
+                file_mapping.clone(),
                 symbol_server,
                 emit_inlines,
             ) {
                 pdb_info
             } else {
-                get_pe_object_info(&buf, path, filename)?
+                get_pe_object_info(&buf, path, filename, file_mapping, emit_inlines)?
             }
         }
         FileFormat::MachO => {
diff --git a/src/windows/pdb.rs b/src/windows/pdb.rs
index d624ac6..03df8ca 100644
--- a/src/windows/pdb.rs
+++ b/src/windows/pdb.rs
@@ -35,6 +35,15 @@ impl ObjectInfo {
     }
 
     pub fn from_pe(pe_name: &str, pe: PeObject) -> common::Result<Self> {
+        Self::from_pe_with_options(pe_name, pe, None, false)
+    }
+
+    pub fn from_pe_with_options(
+        pe_name: &str,
+        pe: PeObject,
+        mapping: Option<Arc<PathMappings>>,
+        collect_inlines: bool,
+    ) -> common::Result<Self> {
         let pdb_name = pe.debug_file_name().unwrap_or(pe_name.into()).to_string();
         let pe = Object::Pe(pe);
         let pdb_name = win_path_file_name(&pdb_name).to_string();
@@ -44,8 +53,8 @@ impl ObjectInfo {
             None,
             Some(pe_name),
             Platform::Win,
-            None,
-            false,
+            mapping,
+            collect_inlines,
         )
     }
 }
-- 
2.43.0


From 0d7efa2d2b121d25eb0fb74776856aa8c379b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:12 +0000
Subject: [PATCH 19/22] fix: a damaged Mach-O file made the dump panic instead
 of fail

---
 src/mac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mac.rs b/src/mac.rs
index 76b5e10..7efc191 100644
--- a/src/mac.rs
+++ b/src/mac.rs
@@ -25,7 +25,7 @@ impl ObjectInfo {
         // and if several then we use arch (by default it's compile-time arch).
         let archive = Archive::parse(buf)?;
         let object = if archive.object_count() == 1 {
-            archive.object_by_index(0).unwrap()
+            archive.object_by_index(0)?
         } else {
             archive
                 .objects()
-- 
2.43.0


From 27ef5ece3a855495ba95a3068295c156e30c2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:39 +0000
Subject: [PATCH 20/22] fix: a cabinet without extension or with an odd member
 name made the dump panic

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67da975..90bb878 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -139,7 +139,7 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
 }
 
 fn get_corrected_path(path: PathBuf) -> PathBuf {
-    let e = path.extension().unwrap().to_str().unwrap();
+    let e = path.extension().and_then(|e| e.to_str()).unwrap_or_default();
     if e.starts_with("pd") {
         path.with_extension("pdb")
     } else if e.starts_with("dl") {
@@ -161,7 +161,7 @@ fn get_cabinet_files(cab: &Cabinet<Cursor<&Vec<u8>>>, path: PathBuf) -> Option<(
         for file in folder.file_entries() {
             let file_size = file.uncompressed_size() as usize;
             let path = PathBuf::from(file.name());
-            if path.file_name().unwrap() == file_name {
+            if path.file_name() == Some(file_name) {
                 return Some((file.name().to_string(), file_size));
             }
         }
-- 
2.43.0


From 5f93cfda93e2ea1e11718cb015a90550da23b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:26 +0000
Subject: [PATCH 21/22] fix: the search of a file in an empty list of symbol
 servers never ended

---
 src/cache.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index bed5600..18e355b 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -206,6 +206,11 @@ async fn check_if_file_exists(results: Arc<Mutex<Vec<Job>>>, client: &Client, jo
 }
 
 fn check_data(jobs: Vec<Job>) -> Option<Job> {
+    if jobs.is_empty() {
+        // a stream that may buffer 0 futures never ends
+        return None;
+    }
+
     let client = Client::new();
     let n_queries = jobs.len();
     let results = Arc::new(Mutex::new(Vec::new()));
-- 
2.43.0


From f5a092c5b9176165fc9d5c18e611224c2cc1c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:26 +0000
Subject: [PATCH 22/22] fix: an empty list of mapping sources without
 destinations (or the reverse) made the dump panic

---
 src/mapping.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index d12b45f..0a98d2e 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -233,8 +233,8 @@ impl PathMappings {
             "mapping-src and mapping-dest must have the same number of elements"
         );
 
-        let sources = sources.as_ref().unwrap();
-        let destinations = destinations.as_ref().unwrap();
+        let sources = sources.as_deref().unwrap_or_default();
+        let destinations = destinations.as_deref().unwrap_or_default();
 
         for (src, dest) in sources.iter().zip(destinations.iter()) {
             out.push(PathMappingGenerator::new(
-- 
2.43.0

