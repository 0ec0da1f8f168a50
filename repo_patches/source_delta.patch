From bd4f3f78fccd69bddaa86ad839ec91c6e1959dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 01/23] fix: don't fail size reports on snapshots with empty
 directories

---
 src/tree.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 6bf4744..dd037dc 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::fs;
 use std::sync::{Arc, LazyLock};
 
-use anyhow::{Context, Result, anyhow, ensure};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use camino::{Utf8Path, Utf8PathBuf};
 use jiff::Timestamp;
 use rustc_hash::{FxHashMap, FxHashSet};
@@ -547,10 +547,12 @@ fn tree_size(
         .ok_or_else(|| anyhow!("Missing tree {tree_id}"))
         .unwrap();
 
-    let ts = size_map
-        .get(tree_id)
-        .ok_or_else(|| anyhow!("Couldn't find tree {tree_id} to get size"))?;
-    let ts = *ts as u64;
+    let ts = match size_map.get(tree_id) {
+        Some(ts) => *ts as u64,
+        // Backups don't bother to store the empty tree (see [`Cache::new()`]).
+        None if *tree_id == *EMPTY_ID => 0,
+        None => bail!("Couldn't find tree {tree_id} to get size"),
+    };
     s.tree_bytes += ts;
     if visited_blobs.insert(*tree_id) {
         s.introduced += ts;
-- 
2.43.0


From 6f6e4afd8ec1f6628994a7e00c7ddf1f5a048db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 02/23] fix: give an error, don't panic, for LAST~N with a huge
 N

---
 src/snapshot.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index b747d96..8deb017 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -259,12 +259,15 @@ pub fn find<'a>(
         let index = match groups[..] {
             [_, None, None] => 0,
             [_, Some(_), None] => 1,
-            [_, None, Some(n)] => n.as_str().parse().unwrap(),
+            [_, None, Some(n)] => n
+                .as_str()
+                .parse()
+                .with_context(|| format!("Can't count back {} snapshots", n.as_str()))?,
             _ => unreachable!(),
         };
         match chronological_snapshots.iter().rev().nth(index) {
             Some(found) => return Ok(found),
-            None => bail!("Don't have {} snapshots yet", index + 1),
+            None => bail!("Don't have more than {index} snapshots yet"),
         };
     }
 
-- 
2.43.0


From c43d2f37bff5a5f6bf44d20c2333b259e25a857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 03/23] fix: list a snapshot once even when others share its
 timestamp

---
 src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 8deb017..025ac99 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -299,7 +299,9 @@ pub fn from_args_list(
         desired_snaps.push((s.clone(), *i));
     }
     // Take whatever the user asked for and make it chronological with no duplicates.
-    desired_snaps.sort_by_key(|(snap, _)| snap.time.timestamp());
+    // (Sort by ID too so that duplicates end up side by side even when several snapshots
+    // were taken at the same time.)
+    desired_snaps.sort_by_key(|(snap, id)| (snap.time.timestamp(), *id));
     desired_snaps.dedup_by(|(_, id1), (_, id2)| id1 == id2);
     Ok(desired_snaps)
 }
-- 
2.43.0


From 923b249d9549bf271096886e7ad1b39e118f10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 04/23] fix: don't resume a prune whose index keeps packs that
 are no longer fully used

---
 src/ui/prune.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index 9c1980f..b9b925f 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -67,10 +67,6 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
     let (droppable_packs, sparse_packs) =
         partition_droppable_packs(&packs_to_prune, &reachable_blobs);
 
-    // Once we've partitioned packs, we don't need our reachable blob set.
-    // Drop that, since it could be huge.
-    drop(reachable_blobs);
-
     let reusable_size = packs_blob_size(reusable_packs.values());
     if packs_to_prune.is_empty() {
         println!("All {reusable_size} in use! Nothing to do.");
@@ -147,6 +143,16 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             .is_superset(&new_index.packs.keys().collect())
         {
             warn!("WIP index file isn't a superset of reusable packs. Starting over.");
+        }
+        // Is everything in the WIP still worth keeping? If snapshots were forgotten in the
+        // meantime, it could list packs we're about to prune!
+        else if !wip_index
+            .packs
+            .values()
+            .flatten()
+            .all(|entry| reachable_blobs.contains(&entry.id))
+        {
+            warn!("WIP index file lists blobs that are no longer used. Starting over.");
         } else {
             // Once we're happy, do the same thing as resuming a backup.
             // TODO: DRY this out?
@@ -160,6 +166,10 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
         }
     }
 
+    // Once we've partitioned packs and looked for something to resume,
+    // we don't need our reachable blob set. Drop that, since it could be huge.
+    drop(reachable_blobs);
+
     let bmode = if args.dry_run {
         backup::Mode::DryRun
     } else {
-- 
2.43.0


From 7911ee7203fa4a064a65b0dbf51ea2c41beac981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 05/23] fix: don't resume an interrupted prune as a backup or
 copy, losing what it hadn't repacked yet

---
 src/backup.rs    | 21 +++++++++++++++++++++
 src/ui/backup.rs |  2 +-
 src/ui/copy.rs   |  2 +-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index d2d7a98..958f77f 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -303,6 +303,27 @@ pub fn find_resumable(backend: &backend::CachedBackend) -> Result<Option<Resumab
     }))
 }
 
+/// [`find_resumable()`] for commands that only add to the repository (`backup`, `copy`):
+/// Don't pick up where an interrupted `prune` or `rebuild-index` left off.
+///
+/// Its WIP index supersedes indexes that are still in use, but doesn't (yet!) list
+/// everything they do. Finishing it with anything else would lose what's missing.
+pub fn find_resumable_additions(
+    backend: &backend::CachedBackend,
+    master_index: &index::Index,
+) -> Result<ResumableBackup> {
+    let resumable = find_resumable(backend)?.unwrap_or_default();
+    if !resumable
+        .wip_index
+        .supersedes
+        .is_subset(&master_index.supersedes)
+    {
+        warn!("WIP index file supersedes indexes in use. Starting over.");
+        return Ok(ResumableBackup::default());
+    }
+    Ok(resumable)
+}
+
 fn find_cwd_packfiles(index: &index::Index) -> Result<Vec<ObjectId>> {
     let mut packfiles = vec![];
 
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 9b8e2f1..2ebf029 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -140,7 +140,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = find_resumable(&cached_backend)?.unwrap_or_default();
+    } = find_resumable_additions(&cached_backend, &index)?;
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index e9722c4..76a6e20 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -89,7 +89,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
     let backup::ResumableBackup {
         wip_index,
         cwd_packfiles,
-    } = backup::find_resumable(&dst_cached_backend)?.unwrap_or_default();
+    } = backup::find_resumable_additions(&dst_cached_backend, &dst_index)?;
 
     for manifest in wip_index.packs.values() {
         for entry in manifest {
-- 
2.43.0


From 9a77caa6ae4535e577b0712d7620160e0d371402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 06/23] fix: never give a new index the ID of one that's
 already superseded

---
 src/backup.rs             |  5 +++++
 src/index.rs              | 11 +++++++++++
 src/ui/backup.rs          |  1 +
 src/ui/copy.rs            |  1 +
 src/ui/filter_snapshot.rs |  1 +
 src/ui/prune.rs           |  1 +
 src/ui/rebuild_index.rs   |  1 +
 7 files changed, 21 insertions(+)

diff --git a/src/backup.rs b/src/backup.rs
index 958f77f..766e167 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -46,6 +46,7 @@
 //! packs (passing it to the indexer as a starting point), then feeds blobs from
 //! the partially-used packs to the packers for compaction. And so on, and so forth.
 
+use std::collections::BTreeSet;
 use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
@@ -117,6 +118,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
     backend_config: &'env backend::Configuration,
     cached_backend: &'env backend::CachedBackend,
     starting_index: index::Index,
+    already_superseded: BTreeSet<ObjectId>,
     statistics: &'env BackupStatistics,
 ) -> Backup<'scope, 'env> {
     // Channels are all handoffs holding no elements - this simplifies reasoning about:
@@ -145,6 +147,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 cached_backend,
                 statistics,
                 starting_index,
+                already_superseded,
             )
         })
         .unwrap();
@@ -169,6 +172,7 @@ fn backup_master_thread<'env>(
     cached_backend: &'env backend::CachedBackend,
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
+    already_superseded: BTreeSet<ObjectId>,
 ) {
     // ALL THE CONCURRENCY
 
@@ -228,6 +232,7 @@ fn backup_master_thread<'env>(
                 index::index(
                     resumable,
                     starting_index,
+                    already_superseded,
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
diff --git a/src/index.rs b/src/index.rs
index 2face26..ac27bf4 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -75,9 +75,15 @@ pub enum Resumable {
 
 /// Gather metadata for completed packs from `rx` into an index file,
 /// and upload the index files when they reach a sufficient size.
+///
+/// `already_superseded` are the indexes superseded by others in the repository.
+/// Indexes with the same contents have the same ID, so the one we're making could turn out to be
+/// one of them (say, when backing up the same files after the first backup was pruned),
+/// and would be ignored from then on! If it supersedes them as well, it can't be.
 pub fn index(
     resumable: Resumable,
     starting_index: Index,
+    mut already_superseded: BTreeSet<ObjectId>,
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
@@ -85,6 +91,10 @@ pub fn index(
     let mut index = starting_index;
     let mut persisted = None;
 
+    if !index.packs.is_empty() {
+        index.supersedes.append(&mut already_superseded);
+    }
+
     // If we're given a non-empty index, write that out to start with.
     // (For example, it could be an index from `prune` that omits packs
     // we no longer need. If we don't write it but delete those packs anyways...)
@@ -99,6 +109,7 @@ pub fn index(
             "Duplicate pack received: {}",
             id
         );
+        index.supersedes.append(&mut already_superseded);
 
         indexed_packs.fetch_add(1, Ordering::Relaxed);
 
diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 2ebf029..5454d29 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -162,6 +162,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             wip_index,
+            index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/copy.rs b/src/ui/copy.rs
index 76a6e20..4850d8d 100644
--- a/src/ui/copy.rs
+++ b/src/ui/copy.rs
@@ -111,6 +111,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &dst_backend_config,
             &dst_cached_backend,
             wip_index,
+            dst_index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/filter_snapshot.rs b/src/ui/filter_snapshot.rs
index a4793ef..a01e16a 100644
--- a/src/ui/filter_snapshot.rs
+++ b/src/ui/filter_snapshot.rs
@@ -88,6 +88,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             &backend_config,
             &cached_backend,
             Index::default(),
+            index.supersedes,
             &back_stats,
         );
 
diff --git a/src/ui/prune.rs b/src/ui/prune.rs
index b9b925f..130effa 100644
--- a/src/ui/prune.rs
+++ b/src/ui/prune.rs
@@ -184,6 +184,7 @@ pub fn run(config: &Configuration, repository: &Utf8Path, args: Args) -> Result<
             &backend_config,
             &cached_backend,
             new_index,
+            BTreeSet::new(), // It supersedes everything there is.
             &back_stats,
         );
 
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index c0b1052..b18acee 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -51,6 +51,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
         index::index(
             index::Resumable::No,
             replacing,
+            BTreeSet::new(), // It supersedes everything there is.
             pack_rx,
             upload_tx,
             &indexed_packs,
-- 
2.43.0


From 8f3b7d9e1c89f447b7f0fd03f3cb1de659fec872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:44 +0000
Subject: [PATCH 07/23] fix: remove the WIP index once rebuild-index is done
 with it

---
 src/ui/rebuild_index.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index b18acee..860bd9a 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -1,4 +1,5 @@
 use std::collections::BTreeSet;
+use std::fs;
 use std::sync::{atomic::AtomicU64, mpsc::sync_channel};
 use std::thread;
 
@@ -92,6 +93,11 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     //     making sure indexes never refer to missing packs. (I hope...)
     ensure!(indexer.join().unwrap()?, "No new index built");
 
+    // The new index is written, so like `Backup::join()`, axe the WIP one.
+    // A later backup from this directory shouldn't mistake it for something to resume.
+    fs::remove_file(index::WIP_NAME)
+        .with_context(|| format!("Couldn't remove {}", index::WIP_NAME))?;
+
     if !args.dry_run {
         info!("Uploaded a new index; removing previous ones");
         for old_index in superseded {
-- 
2.43.0


From 192e54179b31f39411f19376c261a68aa70a05e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:23 +0000
Subject: [PATCH 08/23] fix: don't deadlock on machines with fewer cores than
 backup threads

---
 src/concurrently.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/concurrently.rs b/src/concurrently.rs
index e941e4a..6321fe0 100644
--- a/src/concurrently.rs
+++ b/src/concurrently.rs
@@ -38,20 +38,22 @@ where
     })
 }
 
+/// Run each of the given functions in its own, named, thread, all at once.
+///
+/// Unlike [`concurrently()`], don't limit the number of threads:
+/// these are few, and wait for each other. If some couldn't start until others finished
+/// (because we have fewer cores than functions), they'd wait forever.
 pub fn named_concurrently<S, F, I>(funs: I)
 where
     S: Into<String>,
     F: FnOnce() -> Result<()> + Send,
     I: Iterator<Item = (S, F)>,
 {
-    let conc = atomic_cpus();
     thread::scope(|s| {
         for (n, f) in funs {
-            let sem = semaphored::dec(&conc);
             thread::Builder::new()
                 .name(n.into())
                 .spawn_scoped(s, || {
-                    let _sem = sem;
                     if let Err(e) = f() {
                         fatal(e);
                     }
-- 
2.43.0


From b000ffc9efe151b28a6b577c0d1bfe3fb2c37911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:38 +0000
Subject: [PATCH 09/23] fix: don't panic when a resumed backup turns out to
 have nothing new

---
 src/ui/backup.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/backup.rs b/src/ui/backup.rs
index 5454d29..4ba7863 100644
--- a/src/ui/backup.rs
+++ b/src/ui/backup.rs
@@ -148,6 +148,9 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         }
     }
 
+    // (If we're resuming, at least the WIP index gets uploaded, whatever else happens.)
+    let resuming = !wip_index.packs.is_empty();
+
     let bmode = if args.dry_run {
         backup::Mode::DryRun
     } else {
@@ -217,7 +220,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
         assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
         assert_eq!(walk_stats.reused_bytes.load(Ordering::Relaxed), 0);
         assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-        assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+        assert!(resuming || cached_backend.bytes_uploaded.load(Ordering::Relaxed) == 0);
 
         info!("Nothing backed up! Pass --allow-empty to create an empty snapshot.");
         return Ok(());
@@ -255,7 +258,7 @@ pub fn run(config: Configuration, repository: &Utf8Path, args: Args) -> Result<(
             assert_eq!(back_stats.tree_bytes.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.indexed_packs.load(Ordering::Relaxed), 0);
             assert_eq!(back_stats.compressed_bytes.load(Ordering::Relaxed), 0);
-            assert_eq!(cached_backend.bytes_uploaded.load(Ordering::Relaxed), 0);
+            assert!(resuming || cached_backend.bytes_uploaded.load(Ordering::Relaxed) == 0);
 
             info!("Snapshot is the same as the last! Pass --allow-repeat to create a duplicate.");
             return Ok(());
-- 
2.43.0


From 3bca7dd90eeec75d20aa5258e21e1e670257c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:20 +0000
Subject: [PATCH 10/23] fix: wake a waiter for every returned permit, not only
 the first

---
 src/semaphored.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/semaphored.rs b/src/semaphored.rs
index a0ca22a..e5a7721 100644
--- a/src/semaphored.rs
+++ b/src/semaphored.rs
@@ -51,9 +51,11 @@ pub fn dec(count: &AtomicU32) -> SemaphoreGuard<'_> {
 
 impl Drop for SemaphoreGuard<'_> {
     fn drop(&mut self) {
-        if self.count.fetch_add(1, Ordering::Release) == 0 {
-            // real shit
-            wake_one(self.count);
-        }
+        self.count.fetch_add(1, Ordering::Release);
+        // real shit.
+        // Wake somebody for every permit, not just when the count was zero:
+        // if several are asleep and several permits come back before the first
+        // sleeper wakes up to take one, the rest would sleep forever.
+        wake_one(self.count);
     }
 }
-- 
2.43.0


From f84d7ab541cf227329b895c60f3c75f64459ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:56 +0000
Subject: [PATCH 11/23] fix: give an error, don't panic, when a pack of trees
 is shorter than its manifest

---
 src/pack.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pack.rs b/src/pack.rs
index c8244c5..8804db4 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -454,9 +454,10 @@ pub fn append_to_forest<R: Read + Seek>(
         };
         let entry_length = entry.length as u64;
         if skip {
-            assert_eq!(
-                entry_length,
-                io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?
+            ensure!(
+                entry_length == io::copy(&mut (&mut decoder).take(entry_length), &mut io::sink())?,
+                "Pack ends before the end of blob {}",
+                entry.id
             );
             continue;
         }
-- 
2.43.0


From f9a57af679c75915c9edb06c07f9b1341ac77138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 12/23] fix: don't verify a pack that ends before the listed
 length of its last blob

---
 src/pack.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pack.rs b/src/pack.rs
index 8804db4..5366943 100644
--- a/src/pack.rs
+++ b/src/pack.rs
@@ -313,7 +313,12 @@ pub fn verify<R: Read + Seek>(
     for entry in manifest_from_index {
         let mut hashing_decoder = HashingReader::new((&mut decoder).take(entry.length as u64));
 
-        io::copy(&mut hashing_decoder, &mut io::sink())?;
+        let length = io::copy(&mut hashing_decoder, &mut io::sink())?;
+        ensure!(
+            length == entry.length as u64,
+            "Pack ends before the end of blob {}",
+            entry.id
+        );
 
         let (hash, _) = hashing_decoder.finalize();
         ensure!(
-- 
2.43.0


From 5c326e016a8e5594035cf551657a4b73943cbcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:54 +0000
Subject: [PATCH 13/23] fix: read a tree or chunk that was stored as the other
 kind

---
 src/read.rs |  7 ++-----
 src/tree.rs | 11 +++++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index a0e38b5..7b86fb7 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -192,12 +192,9 @@ impl<'a> ChunkReader<'a> {
         let mut bytes_read = 0;
         let mut blob_buf = vec![];
         for entry in manifest {
+            // Don't skip trees: a file can have the same bytes as one that was packed first.
             if entry.blob_type != blob::Type::Chunk {
-                warn!(
-                    "Tree {} found in pack where we expected only chunks",
-                    entry.id
-                );
-                continue;
+                trace!("Reading tree {} as a chunk", entry.id);
             }
 
             blob_buf.clear();
diff --git a/src/tree.rs b/src/tree.rs
index dd037dc..ca4e2c2 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -418,6 +418,17 @@ impl<'a> Cache<'a> {
 
         pack::append_to_forest(&mut pack_containing_tree, manifest, &mut self.tree_cache)?;
 
+        // A file can have the same bytes as a tree. If it was packed first, it's there as a chunk.
+        if !self.tree_cache.contains_key(id) {
+            let mut pack_containing_chunk = self.pack_cache.read_pack(pack_id)?;
+            let (_, bytes) = pack::extract_blob(&mut pack_containing_chunk, id, manifest)?;
+            let mut unread: &[u8] = &bytes;
+            let tree: Tree = ciborium::from_reader(&mut unread)
+                .with_context(|| format!("CBOR decoding of tree {id} failed"))?;
+            ensure!(unread.is_empty(), "Blob {id} is more than a tree");
+            self.tree_cache.insert(*id, Arc::new(tree));
+        }
+
         self.tree_cache
             .get(id)
             .ok_or_else(|| anyhow!("Tree {} missing from pack {}", id, pack_id))
-- 
2.43.0


From eec298c3ef743194e0574a688b248f6c0f204af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 14/23] fix: evict cache entries that don't fit, instead of
 overrunning the limit by one

---
 src/backend/cache.rs | 58 ++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/src/backend/cache.rs b/src/backend/cache.rs
index 0dc23ac..226d1da 100644
--- a/src/backend/cache.rs
+++ b/src/backend/cache.rs
@@ -151,43 +151,37 @@ impl Cache {
                 r.get(0)
             })?;
 
-        // Find least-recently used entries that exceed our cache size.
-        let mut statement =
-            transaction.prepare("SELECT name, time, size FROM cache ORDER BY time DESC")?;
-        let mut times_and_sizes = statement.query(())?;
-
-        let mut acc = 0i64;
-        let mut oldest_that_fits = None;
-        while acc < max_size {
-            match times_and_sizes.next()? {
-                Some(row) => {
-                    let t: i64 = row.get(1)?;
-                    let s: i64 = row.get(2)?;
-                    oldest_that_fits = Some(t);
-                    acc += s;
-                }
-                None => {
-                    // The whole cache fits. We're done.
-                    return Ok(());
+        if max_size <= 0 {
+            bail!("Absurd: zero-size cache");
+        }
+
+        // Keep the most-recently used entries that fit, and always at least one.
+        let mut spilled: Vec<String> = vec![];
+        {
+            let mut statement =
+                transaction.prepare("SELECT name, size FROM cache ORDER BY time DESC")?;
+            let mut names_and_sizes = statement.query(())?;
+
+            let mut acc = 0i64;
+            let mut first = true;
+            while let Some(row) = names_and_sizes.next()? {
+                let name: String = row.get(0)?;
+                let size: i64 = row.get(1)?;
+                acc = acc.saturating_add(size);
+                if acc > max_size && !first {
+                    spilled.push(name);
                 }
+                first = false;
             }
         }
-        // Delete files older than this
-        while let Some(row) = times_and_sizes.next()? {
-            let name: String = row.get(0)?;
+
+        // Delete the rest.
+        for name in &spilled {
             bump(Op::BackendCacheSpill);
-            self.delete_if_exists(&name)?;
-        }
-        drop(times_and_sizes);
-        drop(statement);
-
-        // Delete those least-recently used entries that are too big.
-        if let Some(o) = oldest_that_fits {
-            transaction.execute("DELETE FROM cache WHERE time < ?1", [o])?;
-            transaction.commit()?;
-        } else {
-            bail!("Absurd: zero-size cache");
+            self.delete_if_exists(name)?;
+            transaction.execute("DELETE FROM cache WHERE name == ?1", [name])?;
         }
+        transaction.commit()?;
 
         Ok(())
     }
-- 
2.43.0


From f161e04fb4bd9638774a73570b43e38ff4655aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 15/23] fix: don't panic when unfilter ends just before its
 feeding thread does

---
 src/backend/filter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/filter.rs b/src/backend/filter.rs
index d338491..1100a6c 100644
--- a/src/backend/filter.rs
+++ b/src/backend/filter.rs
@@ -59,7 +59,6 @@ impl Read for UnfilterRead {
 
             // Make sure we actually fed all the bytes into the filter program.
             let copy_thread = self.copy_thread.take().unwrap();
-            assert!(copy_thread.is_finished());
             copy_thread.join().expect("unfilter-copy thread aborted")?;
         }
 
-- 
2.43.0


From dfa2f71f0e38588bb25654847179595e09e23050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:25 +0000
Subject: [PATCH 16/23] fix: sync new files before giving them their final name

---
 src/file_util.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 09a14fe..ad09db0 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -131,12 +131,15 @@ pub fn safe_copy_to_file<R: Read>(mut from: R, to: &Utf8Path) -> Result<File> {
         .with_context(|| format!("Couldn't write to {temp_path}"))?;
     drop(from);
 
+    // Sync before the rename: if this fails, `to` shouldn't exist.
+    to_fh
+        .as_file()
+        .sync_all()
+        .with_context(|| format!("Couldn't sync {temp_path}"))?;
+
     let persisted = to_fh
         .persist(to)
         .with_context(|| format!("Couldn't persist {temp_path} to {to}"))?;
-    persisted
-        .sync_all()
-        .with_context(|| format!("Couldn't sync {to}"))?;
 
     Ok(persisted)
 }
-- 
2.43.0


From 314b7c24074b9cb8400dd0341045db6fde09a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 17/23] fix: don't replace indexes with an incomplete one when
 a prune fails

---
 src/backup.rs           | 13 ++++++++++++-
 src/index.rs            | 10 +++++++++-
 src/ui/rebuild_index.rs | 10 +++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/backup.rs b/src/backup.rs
index 766e167..2acdc8d 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -50,7 +50,8 @@ use std::collections::BTreeSet;
 use std::fs::{self, File};
 use std::str::FromStr;
 use std::sync::{
-    atomic::AtomicU64,
+    Arc,
+    atomic::{AtomicBool, AtomicU64, Ordering},
     mpsc::{Receiver, SyncSender, sync_channel},
 };
 use std::thread;
@@ -78,6 +79,8 @@ pub struct Backup<'scope, 'env> {
     pub tree_tx: SyncSender<Blob>,
     pub upload_tx: SyncSender<(String, File)>,
     pub statistics: &'env BackupStatistics,
+    /// Set once everything that belongs in the backup was sent.
+    finished: Arc<AtomicBool>,
     threads: thread::ScopedJoinHandle<'scope, ()>,
 }
 
@@ -93,6 +96,7 @@ impl Backup<'_, '_> {
     /// Convenience function to join the threads
     /// assuming the channels haven't been moved out.
     pub fn join(self) -> Result<()> {
+        self.finished.store(true, Ordering::SeqCst);
         drop(self.chunk_tx);
         drop(self.tree_tx);
         drop(self.upload_tx);
@@ -134,6 +138,9 @@ pub fn spawn_backup_threads<'scope, 'env>(
     let (upload_tx, upload_rx) = sync_channel(0);
     let upload_tx2 = upload_tx.clone();
 
+    let finished = Arc::new(AtomicBool::new(false));
+    let finished2 = finished.clone();
+
     let threads = thread::Builder::new()
         .name(String::from("backup master"))
         .spawn_scoped(s, move || {
@@ -148,6 +155,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
                 statistics,
                 starting_index,
                 already_superseded,
+                &finished2,
             )
         })
         .unwrap();
@@ -157,6 +165,7 @@ pub fn spawn_backup_threads<'scope, 'env>(
         tree_tx,
         upload_tx,
         statistics,
+        finished,
         threads,
     }
 }
@@ -173,6 +182,7 @@ fn backup_master_thread<'env>(
     statistics: &'env BackupStatistics,
     starting_index: index::Index,
     already_superseded: BTreeSet<ObjectId>,
+    finished: &AtomicBool,
 ) {
     // ALL THE CONCURRENCY
 
@@ -236,6 +246,7 @@ fn backup_master_thread<'env>(
                     index_rx,
                     index_upload_tx,
                     indexed_packs,
+                    finished,
                 )?;
                 Ok(())
             }),
diff --git a/src/index.rs b/src/index.rs
index ac27bf4..bd21146 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -23,7 +23,7 @@ use std::fs::{self, File};
 use std::io::prelude::*;
 use std::sync::{
     Mutex,
-    atomic::{AtomicU64, Ordering},
+    atomic::{AtomicBool, AtomicU64, Ordering},
     mpsc::{Receiver, SyncSender},
 };
 
@@ -80,6 +80,9 @@ pub enum Resumable {
 /// Indexes with the same contents have the same ID, so the one we're making could turn out to be
 /// one of them (say, when backing up the same files after the first backup was pruned),
 /// and would be ignored from then on! If it supersedes them as well, it can't be.
+///
+/// `finished` tells if `rx` was closed because we got everything, or because something failed.
+/// If we don't have everything, we can't replace other indexes - that'd lose the rest.
 pub fn index(
     resumable: Resumable,
     starting_index: Index,
@@ -87,6 +90,7 @@ pub fn index(
     rx: Receiver<PackMetadata>,
     to_upload: SyncSender<(String, File)>,
     indexed_packs: &AtomicU64,
+    finished: &AtomicBool,
 ) -> Result<bool> {
     let mut index = starting_index;
     let mut persisted = None;
@@ -120,6 +124,10 @@ pub fn index(
             persisted = Some(to_temp_file(&index)?);
         }
     }
+    if !index.supersedes.is_empty() && !finished.load(Ordering::SeqCst) {
+        debug!("No new indexes created - something failed");
+        return Ok(false);
+    }
     // If we haven't been saving a WIP index, write it all out now.
     if !index.is_empty() && resumable == Resumable::No {
         persisted = Some(to_temp_file(&index)?);
diff --git a/src/ui/rebuild_index.rs b/src/ui/rebuild_index.rs
index 860bd9a..61b049d 100644
--- a/src/ui/rebuild_index.rs
+++ b/src/ui/rebuild_index.rs
@@ -1,6 +1,10 @@
 use std::collections::BTreeSet;
 use std::fs;
-use std::sync::{atomic::AtomicU64, mpsc::sync_channel};
+use std::sync::{
+    Arc,
+    atomic::{AtomicBool, AtomicU64, Ordering},
+    mpsc::sync_channel,
+};
 use std::thread;
 
 use anyhow::{Context, Result, ensure};
@@ -48,6 +52,8 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
     let (upload_tx, upload_rx) = sync_channel(0);
 
     let indexed_packs = AtomicU64::new(0); // TODO: Progress CLI!
+    let finished = Arc::new(AtomicBool::new(false));
+    let finished2 = finished.clone();
     let indexer = thread::spawn(move || {
         index::index(
             index::Resumable::No,
@@ -56,6 +62,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
             pack_rx,
             upload_tx,
             &indexed_packs,
+            &finished2,
         )
     });
 
@@ -75,6 +82,7 @@ pub fn run(config: &Configuration, repository: &camino::Utf8Path, args: Args) ->
             }
         });
     concurrently::concurrently(read_packs);
+    finished.store(true, Ordering::SeqCst);
     drop(pack_tx);
 
     let umode = if args.dry_run {
-- 
2.43.0


From d6fca31d68d32e5bab0a91156622c2e8069a08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:03 +0000
Subject: [PATCH 18/23] fix: don't resume a backup whose blobs were since
 stored in other packs

---
 src/backup.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.rs b/src/backup.rs
index 2acdc8d..81a03a0 100644
--- a/src/backup.rs
+++ b/src/backup.rs
@@ -337,6 +337,17 @@ pub fn find_resumable_additions(
         warn!("WIP index file supersedes indexes in use. Starting over.");
         return Ok(ResumableBackup::default());
     }
+    // Another run (from another directory) could have backed up some of it since.
+    // Indexing both would list the same blobs in different packs.
+    let stored = index::blob_to_pack_map(master_index)?;
+    for (pack_id, manifest) in &resumable.wip_index.packs {
+        for entry in manifest {
+            if stored.get(&entry.id).is_some_and(|p| p != pack_id) {
+                warn!("WIP index file contains blobs backed up elsewhere. Starting over.");
+                return Ok(ResumableBackup::default());
+            }
+        }
+    }
     Ok(resumable)
 }
 
-- 
2.43.0


From 149336c4bca5787909cdad2fe75e44518296b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:34 +0000
Subject: [PATCH 19/23] fix: don't restore through a dangling symlink in the
 output directory

With several paths and --output, a dangling symlink in place of one of them
was taken to be nothing at all. Files were then written where it pointed,
outside of what's being restored.
---
 src/ui/restore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index de64642..998dcce 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -236,7 +236,8 @@ fn load_fs_tree_and_mapping<'a>(
                 .paths
                 .iter()
                 .map(|p| to.join(p.file_name().unwrap()))
-                .filter(|p| p.exists())
+                // NB: Not exists(), which follows symlinks. (See above.)
+                .filter(|p| p.symlink_metadata().is_ok())
                 .collect();
 
             fs_tree::forest_from_fs(
-- 
2.43.0


From 54e97553364ab7494b4773a7eb9fd213870bf071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:39 +0000
Subject: [PATCH 20/23] fix: restore the times of directories whose contents
 changed

When a directory's metadata was that of the snapshot but its contents weren't,
restoring them changed its modification time, and --times didn't put it back.
---
 src/diff.rs       | 7 +++++++
 src/ui/restore.rs | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/diff.rs b/src/diff.rs
index 1144bd9..eb0a177 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -38,6 +38,11 @@ pub trait Callbacks {
         new_node: &Node,
     ) -> Result<()>;
 
+    /// The contents of a directory changed (and were compared), but not its metadata.
+    fn directory_changed(&mut self, _node_path: &Utf8Path, _new_node: &Node) -> Result<()> {
+        Ok(())
+    }
+
     /// A node didn't change.
     fn nothing_changed(&mut self, _node_path: &Utf8Path, _node: &Node) -> Result<()> {
         Ok(())
@@ -135,6 +140,8 @@ pub fn compare_nodes(
                 // trace!("{:#?} != {:#?}", node1.metadata, node2.metadata);
                 callbacks.metadata_changed(path, node1, node2)?;
                 changed = true;
+            } else if changed {
+                callbacks.directory_changed(path, node2)?;
             }
             if !changed {
                 callbacks.nothing_changed(path, node1)?;
diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 998dcce..75e9251 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -529,6 +529,14 @@ impl diff::Callbacks for Restorer<'_> {
         self.set_metadata(&node_path, new_node)
     }
 
+    fn directory_changed(&mut self, node_path: &Utf8Path, new_node: &Node) -> Result<()> {
+        if self.args.dry_run {
+            return Ok(());
+        }
+        // Adding or removing entries changed its modification time.
+        self.set_metadata(&self.translate_path(node_path), new_node)
+    }
+
     fn type_changed(
         &mut self,
         node_path: &Utf8Path,
-- 
2.43.0


From 299cdf1f3862e2eaac332c8a2418f33bdb6a9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:41 +0000
Subject: [PATCH 21/23] fix: restore times before 1970

Their fractions of a second became negative nanoseconds, which the OS rejects.
---
 src/ui/restore.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 75e9251..46846f1 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -282,10 +282,14 @@ fn load_fs_tree_and_mapping<'a>(
 
 #[cfg(unix)]
 fn to_timespec(t: Timestamp) -> Timespec {
-    Timespec {
-        tv_sec: t.as_second(),
-        tv_nsec: t.subsec_nanosecond() as i64,
+    let (mut tv_sec, mut tv_nsec) = (t.as_second(), t.subsec_nanosecond() as i64);
+    // jiff rounds towards zero (so both are negative before 1970),
+    // but the nanoseconds of a timespec can't be.
+    if tv_nsec < 0 {
+        tv_sec -= 1;
+        tv_nsec += 1_000_000_000;
     }
+    Timespec { tv_sec, tv_nsec }
 }
 
 struct Restorer<'a> {
-- 
2.43.0


From 5b61732caac93821001b4507008e320f87bdd8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:43 +0000
Subject: [PATCH 22/23] fix: restore the times of an output directory given as
 a symlink

The symlink's own times were set instead, and those of the directory weren't.
---
 src/ui/restore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 46846f1..8d680de 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -159,7 +159,6 @@ fn load_fs_tree_and_mapping<'a>(
             // Map the last component of the snapshot dir
             // (i.e., the one entry in our top-level tree) to the output dir.
             let last_dir = snapshot.paths.iter().next().unwrap().file_name().unwrap();
-            assert!(path_map.insert(last_dir, to.clone()).is_none());
 
             // We need to canonicalize the path since the user might have specified "./"
             // or ".." or "./foo/bar/.." or anything else that might trip up calling file_name()
@@ -168,6 +167,10 @@ fn load_fs_tree_and_mapping<'a>(
                 .canonicalize_utf8()
                 .with_context(|| format!("Couldn't canonicalize {to}"))?;
 
+            // If it's a symlink, we're restoring to where it points (e.g., don't set its times).
+            let map_to = if to.is_symlink() { &canonical_to } else { to };
+            assert!(path_map.insert(last_dir, map_to.clone()).is_none());
+
             let (fs_id, mut fs_forest) = fs_tree::forest_from_fs(
                 // NB: We do *NOT* want to dereference symbolic links when we're
                 // building our current understanding of the filesystem - if it's a symlink now
-- 
2.43.0


From 82eea1626ac9b2fef8cda4ba7d1974be545283d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 23/23] fix: don't restore a file into a FIFO or a device

Special files are skipped when looking at what's there, so a file of the snapshot
was opened and written as though nothing was, hanging on a FIFO
or writing to whatever is behind a device.
---
 src/ui/restore.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ui/restore.rs b/src/ui/restore.rs
index 8d680de..4d73cf6 100644
--- a/src/ui/restore.rs
+++ b/src/ui/restore.rs
@@ -5,7 +5,7 @@ use std::{
     sync::Arc,
 };
 
-use anyhow::{Context, Result, anyhow};
+use anyhow::{Context, Result, anyhow, ensure};
 use camino::{Utf8Path, Utf8PathBuf};
 use clap::Parser;
 use jiff::Timestamp;
@@ -386,6 +386,11 @@ impl Restorer<'_> {
     fn add_node(&mut self, node_path: &Utf8Path, new_node: &Node, forest: &Forest) -> Result<()> {
         match &new_node.contents {
             NodeContents::File { .. } => {
+                // Don't write into something that isn't a file but isn't in a tree either.
+                // (We skip special files when walking the filesystem.)
+                if let Ok(existing) = fs::symlink_metadata(node_path) {
+                    ensure!(existing.is_file(), "{node_path} is a special file");
+                }
                 let fh = File::create(node_path)
                     .with_context(|| format!("Couldn't create file {node_path}"))?;
                 fill_file(fh, new_node, &mut self.blob_reader)?;
-- 
2.43.0

