From 258c76e01b01477c77768de548689f8aa8533ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 01/38] fix: symsorter keeps all identifiers of duplicate files
 and survives interrupted runs

Duplicates made process_file drop what it had sorted already and skip the
remaining objects of an archive, and overwrote the metadata of the file that was
kept. A file left incomplete by an interrupted or failed run was taken for a
duplicate by the next one, whose bundle index then lacked all existing files.
---
 crates/symsorter/src/app.rs | 100 ++++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 34 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index beeadb1..e2e409f 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -1,8 +1,8 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fs;
 use std::io;
 use std::ops::Deref;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Mutex;
 
 use anyhow::{anyhow, Context, Result};
@@ -82,11 +82,34 @@ pub struct BundleMeta {
     pub debug_ids: Vec<String>,
 }
 
+/// Writes a sorted file so that it only ever appears complete under its final name.
+fn write_sorted_file(path: &Path, data: &[u8], compression_level: i32) -> io::Result<()> {
+    let temp_path = path.with_extension("tmp");
+    let write = || {
+        let mut out = fs::File::create(&temp_path)?;
+        if compression_level > 0 {
+            copy_encode(data, &mut out, compression_level)?;
+        } else {
+            io::copy(&mut &data[..], &mut out)?;
+        }
+        fs::rename(&temp_path, path)
+    };
+
+    write().inspect_err(|_| {
+        fs::remove_file(&temp_path).ok();
+    })
+}
+
+/// Sorts all objects of a file.
+///
+/// Returns the ID and kind of each object, and whether the same ID and kind was sorted before in
+/// this run.
 fn process_file(
     sort_config: &SortConfig,
     bv: ByteView<'static>,
     filename: String,
-) -> Result<Vec<(String, ObjectKind)>> {
+    sorted_files: &Mutex<HashSet<PathBuf>>,
+) -> Result<Vec<(String, ObjectKind, bool)>> {
     let mut rv = vec![];
 
     macro_rules! maybe_ignore_error {
@@ -140,6 +163,22 @@ fn process_file(
             fs::write(refs_path.join(bundle_id), b"")?;
         }
 
+        let unified_id = maybe_ignore_error!(get_unified_id(&obj));
+        let is_duplicate = !sorted_files.lock().unwrap().insert(new_filename.clone());
+
+        // Files are only ever visible once they are complete, so an existing one is kept.
+        if is_duplicate || new_filename.exists() {
+            eprintln!(
+                "{}: File {} already exists, you seem to have duplicate debug files for ID {}.\n\
+                Skipping {filename}.",
+                style("WARNING").red().bold(),
+                new_filename.display(),
+                unified_id,
+            );
+            rv.push((unified_id, obj.kind(), is_duplicate));
+            continue;
+        }
+
         let meta = DebugIdMeta {
             name: Some(filename.clone()),
             arch: Some(obj.arch()),
@@ -159,28 +198,8 @@ fn process_file(
             style(new_filename.display()).cyan(),
         );
 
-        let mut out = match fs::File::create_new(&new_filename) {
-            Ok(out) => out,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                eprintln!(
-                    "{}: File {} already exists, you seem to have duplicate debug files for ID {}.\n\
-                    Skipping {filename}.",
-                    style("WARNING").red().bold(),
-                    new_filename.display(),
-                    get_unified_id(&obj)?,
-                );
-                return Ok(vec![]);
-            }
-            Err(e) => return Err(e.into()),
-        };
-
-        if compression_level > 0 {
-            copy_encode(obj.data(), &mut out, compression_level)?;
-        } else {
-            io::copy(&mut obj.data(), &mut out)?;
-        }
-        let unified_id = maybe_ignore_error!(get_unified_id(&obj));
-        rv.push((unified_id, obj.kind()));
+        write_sorted_file(&new_filename, obj.data(), compression_level)?;
+        rv.push((unified_id, obj.kind(), false));
     }
 
     Ok(rv)
@@ -191,6 +210,7 @@ fn process_zip_archive(
     bv: ByteView,
     zip_file_name: &str,
     debug_ids: &Mutex<Vec<String>>,
+    sorted_files: &Mutex<HashSet<PathBuf>>,
 ) -> Result<()> {
     let result: Result<()> = (|| {
         let mut zip = ZipArchive::new(io::Cursor::new(bv))?;
@@ -200,9 +220,9 @@ fn process_zip_archive(
             let bv = ByteView::read(zip_file)?;
             if Archive::peek(&bv) != FileFormat::Unknown {
                 debug_ids.lock().unwrap().extend(
-                    process_file(sort_config, bv, name)?
+                    process_file(sort_config, bv, name, sorted_files)?
                         .into_iter()
-                        .map(|x| x.0),
+                        .filter_map(|(id, _, is_duplicate)| (!is_duplicate).then_some(id)),
                 );
             }
         }
@@ -227,6 +247,7 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
     let mut source_bundles_created = 0;
     let source_candidates = Mutex::new(HashMap::<String, Option<PathBuf>>::new());
     let debug_ids = Mutex::new(Vec::new());
+    let sorted_files = Mutex::new(HashSet::new());
 
     log!("{}", style("Sorting debug information files").bold());
 
@@ -245,14 +266,21 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
 
             // zip archive
             if bv.get(..2) == Some(b"PK") {
-                process_zip_archive(sort_config, bv, path.to_string_lossy().deref(), &debug_ids)?;
+                process_zip_archive(
+                    sort_config,
+                    bv,
+                    path.to_string_lossy().deref(),
+                    &debug_ids,
+                    &sorted_files,
+                )?;
 
             // object file directly
             } else if Archive::peek(&bv) != FileFormat::Unknown {
-                for (unified_id, object_kind) in process_file(
+                for (unified_id, object_kind, is_duplicate) in process_file(
                     sort_config,
                     bv,
                     path.file_name().unwrap().to_string_lossy().to_string(),
+                    &sorted_files,
                 )? {
                     if sort_config.with_sources {
                         let mut source_candidates = source_candidates.lock().unwrap();
@@ -264,7 +292,9 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
                             source_candidates.insert(unified_id.clone(), Some(path.to_path_buf()));
                         }
                     }
-                    debug_ids.lock().unwrap().push(unified_id);
+                    if !is_duplicate {
+                        debug_ids.lock().unwrap().push(unified_id);
+                    }
                 }
             }
 
@@ -289,12 +319,14 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
                     sort_config,
                     source_bundle,
                     path.file_name().unwrap().to_string_lossy().to_string(),
+                    &sorted_files,
                 )?;
 
-                debug_ids
-                    .lock()
-                    .unwrap()
-                    .extend(processed_objects.into_iter().map(|x| x.0));
+                debug_ids.lock().unwrap().extend(
+                    processed_objects
+                        .into_iter()
+                        .filter_map(|(id, _, is_duplicate)| (!is_duplicate).then_some(id)),
+                );
 
                 Ok(1)
             })
-- 
2.43.0


From ee2d9a74d5973d3df3583a73a37a52d7a0968b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 02/38] fix: symsorter --with-sources honors --ignore-errors
 and names the broken file

A debug file whose sources could not be listed aborted the run even when errors
were to be ignored, and the error did not tell which file it was about.
---
 crates/symsorter/src/app.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index e2e409f..c3dd3c3 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -82,6 +82,16 @@ pub struct BundleMeta {
     pub debug_ids: Vec<String>,
 }
 
+/// Prints an error that does not end the run.
+fn print_ignored_error(err: &anyhow::Error, filename: &str) {
+    eprintln!(
+        "{}: ignored error {} ({})",
+        style("error").red().bold(),
+        err,
+        style(filename).cyan(),
+    );
+}
+
 /// Writes a sorted file so that it only ever appears complete under its final name.
 fn write_sorted_file(path: &Path, data: &[u8], compression_level: i32) -> io::Result<()> {
     let temp_path = path.with_extension("tmp");
@@ -310,9 +320,17 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
             .into_par_iter()
             .filter_map(|(id, path)| Some((id, path?)))
             .map(|(unified_id, path)| -> Result<usize> {
-                let source_bundle = match create_source_bundle(&path, &unified_id)? {
-                    Some(source_bundle) => source_bundle,
-                    None => return Ok(0),
+                let source_bundle = match create_source_bundle(&path, &unified_id) {
+                    Ok(Some(source_bundle)) => source_bundle,
+                    Ok(None) => return Ok(0),
+                    Err(err) if RunConfig::get().ignore_errors => {
+                        print_ignored_error(&err, &path.to_string_lossy());
+                        return Ok(0);
+                    }
+                    Err(err) => {
+                        return Err(err)
+                            .context(format!("failed to process file {}", path.display()));
+                    }
                 };
 
                 let processed_objects = process_file(
-- 
2.43.0


From e5f9aadef580f467dd87dda15a2bbd2850541aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 03/38] fix: symsorter fails on inputs it cannot read instead
 of skipping them

Files that could not be opened and directories that could not be listed were
left out silently and the run still succeeded; with --ignore-errors they are
skipped with a message like broken files.
---
 crates/symsorter/src/app.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index c3dd3c3..089e990 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -264,14 +264,31 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
     paths
         .into_iter()
         .flat_map(WalkDir::new)
-        .filter_map(Result::ok)
-        .filter(|entry| entry.metadata().is_ok_and(|x| x.is_file()))
+        .filter(|entry| match entry {
+            Ok(entry) => entry.metadata().map_or(true, |x| x.is_file()),
+            Err(_) => true,
+        })
         .par_bridge()
         .map(|entry| {
+            let entry = match entry {
+                Ok(entry) => entry,
+                Err(err) if RunConfig::get().ignore_errors => {
+                    let path = err.path().map(Path::to_path_buf).unwrap_or_default();
+                    print_ignored_error(&err.into(), &path.to_string_lossy());
+                    return Ok(());
+                }
+                Err(err) => return Err(err.into()),
+            };
             let path = entry.path();
             let bv = match ByteView::open(path) {
                 Ok(bv) => bv,
-                Err(_) => return Ok(()),
+                Err(err) if RunConfig::get().ignore_errors => {
+                    print_ignored_error(&err.into(), &path.to_string_lossy());
+                    return Ok(());
+                }
+                Err(err) => {
+                    return Err(err).context(format!("failed to process file {}", path.display()));
+                }
             };
 
             // zip archive
-- 
2.43.0


From 33f5c4af2ca4a79a2e0adf4595bdd68304d1629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 04/38] fix: wasm-split reports errors of the last write

The buffered writer was dropped without flushing it, which ignores errors: on a
full disk the tool succeeded with an incomplete output file.
---
 crates/wasm-split/src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 1402b06..1e89b2a 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -9,8 +9,8 @@
 
 use clap::Parser;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
-use std::path::PathBuf;
+use std::io::{BufReader, BufWriter, Write};
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 use wasmbin::sections::{CustomSection, Section};
 use wasmbin::Module;
@@ -69,6 +69,14 @@ fn is_strippable_section(section: &Section, strip_names: bool) -> bool {
     })
 }
 
+/// Writes a module to a file, failing unless all of it was written.
+fn write_module(module: &Module, path: &Path) -> anyhow::Result<()> {
+    let mut writer = BufWriter::new(File::create(path)?);
+    module.encode_into(&mut writer)?;
+    writer.flush()?;
+    Ok(())
+}
+
 fn main() -> anyhow::Result<()> {
     let cli = Cli::parse();
 
@@ -110,7 +118,7 @@ fn main() -> anyhow::Result<()> {
         // That said, this limitation might actually turn out to be a good thing.
         // On other platforms we also generally require that we get access to
         // the binary for eh_frame and friends.
-        module.encode_into(BufWriter::new(File::create(debug_output)?))?;
+        write_module(&module, debug_output)?;
     }
 
     // do we want to strip debug data from main file?
@@ -146,7 +154,7 @@ fn main() -> anyhow::Result<()> {
     // main module
     if should_write_main_module {
         let output = cli.out.as_ref().unwrap_or(&cli.input);
-        module.encode_into(BufWriter::new(File::create(output)?))?;
+        write_module(&module, output)?;
     }
 
     // always print the build id.
-- 
2.43.0


From 1e6b1764a881be471ba18ea4c14ad61366b9ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 05/38] fix: wasm-split writes the output file even if nothing
 had to be changed

For a module that has a build ID already, --out was ignored unless another
option changed the module, and the run succeeded without writing the file.
---
 crates/wasm-split/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 1e89b2a..2565850 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -151,8 +151,8 @@ fn main() -> anyhow::Result<()> {
             .push(CustomSection::ExternalDebugInfo(external_dwarf_url.into()).into());
     }
 
-    // main module
-    if should_write_main_module {
+    // main module, which is always written if it goes to a different file
+    if should_write_main_module || cli.out.is_some() {
         let output = cli.out.as_ref().unwrap_or(&cli.input);
         write_module(&module, output)?;
     }
-- 
2.43.0


From e5a286c2501e71f8befad85f16403010aa9feabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:32 +0000
Subject: [PATCH 06/38] fix: negative cache items with unlimited retry time do
 not panic

---
 crates/symbolicator-service/src/caching/fs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index b1776d6..1081603 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -22,6 +22,9 @@ use super::{CacheContents, CacheEntry, CacheError, CacheName, Metadata};
 /// This is being debounced to once every hour to not have to touch them on every single use.
 const TOUCH_EVERY: Duration = Duration::from_secs(3600);
 
+/// The time after which items that never expire are looked up in the file system again.
+const FAR_FUTURE: Duration = Duration::from_secs(3600 * 24 * 365);
+
 /// Extension for [`Metadata`] files.
 pub(crate) const METADATA_EXTENSION: &str = "metadata";
 
@@ -383,7 +386,10 @@ impl ExpirationTime {
             ExpirationTime::RefreshIn(d) => d,
             ExpirationTime::TouchIn(d) => d,
         };
-        Instant::now() + *duration
+        let now = Instant::now();
+        // An item that never expires has a duration of `Duration::MAX`, which is not representable
+        // as an `Instant`.
+        now.checked_add(*duration).unwrap_or(now + FAR_FUTURE)
     }
 }
 
-- 
2.43.0


From cd06510bc6ca36d4ddf30c45d824593a2735ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:15 +0000
Subject: [PATCH 07/38] fix: public negative cache items use their own retry
 time in memory as well

---
 crates/symbolicator-service/src/caching/fs.rs  | 18 +++++++++++++-----
 .../symbolicator-service/src/caching/memory.rs | 14 ++++++++------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index 1081603..0202b00 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -353,19 +353,27 @@ pub enum ExpirationTime {
 }
 
 impl ExpirationTime {
-    /// Gives the [`ExpirationTime`] for a freshly created cache with the given [`CacheContents`].
-    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheContents<T>) -> Self {
+    /// Gives the [`ExpirationTime`] for a freshly created cache entry.
+    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheEntry<T>) -> Self {
         let config = &cache.cache_config;
-        let strategy = expiration_strategy(entry);
+        let strategy = expiration_strategy(entry.contents());
         match strategy {
             ExpirationStrategy::None => {
                 // we want to touch good caches once every hour
                 Self::TouchIn(Duration::from_secs(3600))
             }
             ExpirationStrategy::Negative => {
-                let retry_misses_after = config.retry_misses_after().unwrap_or(Duration::MAX);
+                let is_public = entry
+                    .metadata
+                    .as_ref()
+                    .is_some_and(|md| md.scope == Scope::Global);
+                let retry_misses_after = if is_public {
+                    config.retry_misses_after_public()
+                } else {
+                    config.retry_misses_after()
+                };
 
-                Self::RefreshIn(retry_misses_after)
+                Self::RefreshIn(retry_misses_after.unwrap_or(Duration::MAX))
             }
             ExpirationStrategy::Malformed => {
                 let retry_malformed_after = config.retry_malformed_after().unwrap_or(Duration::MAX);
diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 0fda977..f683a0d 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -439,11 +439,13 @@ impl<T: CacheItemRequest> Cacher<T> {
                 match lookup_local_cache(&self.config, cache_dir, &cache_key.cache_path(version)) {
                     Err(CacheError::NotFound) => continue,
                     Err(err) => {
-                        let contents = Err(err);
-                        let deadline =
-                            ExpirationTime::for_fresh_status(&self.config, &contents).as_instant();
                         let metadata = Some(Metadata::from_key(cache_key));
-                        let data = CacheEntry { metadata, contents };
+                        let data = CacheEntry {
+                            metadata,
+                            contents: Err(err),
+                        };
+                        let deadline =
+                            ExpirationTime::for_fresh_status(&self.config, &data).as_instant();
                         return Some(InMemoryItem { deadline, data });
                     }
                     Ok((item, needs_reupload)) => {
@@ -533,7 +535,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             .await;
 
         // we just created a fresh cache, so use the initial expiration times
-        let expiration = ExpirationTime::for_fresh_status(&self.config, data.contents());
+        let expiration = ExpirationTime::for_fresh_status(&self.config, &data);
 
         InMemoryItem {
             deadline: expiration.as_instant(),
@@ -592,7 +594,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             let data = this.compute(request, &cache_key, true).await;
 
             // we just created a fresh cache, so use the initial expiration times
-            let expiration = ExpirationTime::for_fresh_status(&this.config, data.contents());
+            let expiration = ExpirationTime::for_fresh_status(&this.config, &data);
             let value = InMemoryItem {
                 deadline: expiration.as_instant(),
                 data,
-- 
2.43.0


From f9052035b0d8e9e5193525d1257e1b9b0f7ac50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:15 +0000
Subject: [PATCH 08/38] fix: failing to write a cache error is noticed instead
 of storing something else

---
 crates/symbolicator-service/src/caching/cache_error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/cache_error.rs b/crates/symbolicator-service/src/caching/cache_error.rs
index 66ce1a1..d2b1498 100644
--- a/crates/symbolicator-service/src/caching/cache_error.rs
+++ b/crates/symbolicator-service/src/caching/cache_error.rs
@@ -118,6 +118,8 @@ impl CacheError {
             }
         }
 
+        // Writes happen in the background, and only flushing reports that one of them failed.
+        file.flush().await?;
         let new_len = file.stream_position().await?;
         file.set_len(new_len).await?;
 
-- 
2.43.0


From ea1ca76caa1de735b25e0597c1880471bd11ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 09/38] fix: cache metadata files are replaced atomically

---
 crates/symbolicator-service/src/caching/fs.rs   | 17 ++++++++++++-----
 .../symbolicator-service/src/caching/memory.rs  |  5 ++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index 0202b00..602a517 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{self, BufReader};
+use std::io::{self, BufReader, Write};
 use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicIsize;
 use std::sync::Arc;
@@ -434,9 +434,16 @@ pub(crate) fn metadata_path(path: impl AsRef<Path>) -> PathBuf {
 }
 
 /// Writes metadata for the cache entry at the given path.
-pub(crate) fn write_metadata(path: impl AsRef<Path>, metadata: &Metadata) -> io::Result<()> {
+///
+/// The metadata are first written to `temp_file`, so that nobody ever sees a partially written file.
+pub(crate) fn write_metadata(
+    path: impl AsRef<Path>,
+    metadata: &Metadata,
+    mut temp_file: NamedTempFile,
+) -> io::Result<()> {
     let md_path = metadata_path(path);
-    let mut md_file = File::create(md_path)?;
-    serde_json::to_writer(&mut md_file, metadata)
-        .map_err(|e| io::Error::new(io::ErrorKind::Other, e))
+    let buf = serde_json::to_vec(metadata).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+    temp_file.write_all(&buf)?;
+    temp_file.persist(md_path)?;
+    Ok(())
 }
diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index f683a0d..d582f0c 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -378,7 +378,10 @@ impl<T: CacheItemRequest> Cacher<T> {
 
             // Write metadata if we have them
             if let Some(metadata) = metadata.as_ref() {
-                if let Err(e) = super::fs::write_metadata(&cache_path, metadata) {
+                let result = self.config.tempfile().and_then(|temp_file| {
+                    super::fs::write_metadata(&cache_path, metadata, temp_file)
+                });
+                if let Err(e) = result {
                     tracing::error!(
                         error = &e as &dyn std::error::Error,
                         path = %cache_path.display(),
-- 
2.43.0


From 17b5b3b47c71aefc2cfd70d520e61ca295eec28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 10/38] fix: cache entries that could not be written do not
 affect what is stored

---
 crates/symbolicator-service/src/caching/memory.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index d582f0c..547278f 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -374,6 +374,9 @@ impl<T: CacheItemRequest> Cacher<T> {
                     path = %cache_path.display(),
                     "Failed to persist temp file",
                 );
+                // The entry was not replaced, so its metadata and the entries of older versions
+                // have to stay as they are, too.
+                return;
             };
 
             // Write metadata if we have them
-- 
2.43.0


From 366893c50656d26375d55e7c3155ff032eded4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 11/38] fix: cleanup keeps directories with entries that could
 not be checked or were just added

---
 .../src/caching/cleanup.rs                    | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index ebd5d0d..960d61d 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -1,5 +1,5 @@
 use std::ffi::OsStr;
-use std::fs::{read_dir, remove_dir_all, remove_file};
+use std::fs::{read_dir, remove_dir, remove_file};
 use std::io;
 use std::path::Path;
 
@@ -104,6 +104,22 @@ impl Caches {
     }
 }
 
+/// Removes a directory that contains no cache entries.
+///
+/// Metadata files whose cache entry is gone are removed along with it. This fails if an entry was
+/// added to the directory in the meantime.
+fn remove_empty_dir(directory: &Path) -> io::Result<()> {
+    for entry in read_dir(directory)? {
+        let path = entry?.path();
+        if path.extension().and_then(OsStr::to_str) == Some(METADATA_EXTENSION)
+            && !path.with_extension("").exists()
+        {
+            catch_not_found(|| remove_file(&path))?;
+        }
+    }
+    remove_dir(directory)
+}
+
 #[derive(Default)]
 struct CleanupStats {
     removed_dirs: usize,
@@ -203,7 +219,7 @@ impl Cache {
                         if dir_is_empty {
                             tracing::debug!("Removing directory `{}`", directory.display());
                             if !dry_run {
-                                if let Err(e) = remove_dir_all(&path) {
+                                if let Err(e) = remove_empty_dir(&path) {
                                     sentry::with_scope(
                                         |scope| {
                                             scope.set_extra(
@@ -237,6 +253,8 @@ impl Cache {
                                     },
                                     || tracing::error!("Failed to clean cache file: {:?}", e),
                                 );
+                                // The file is still there.
+                                is_empty = false;
                             }
                             Ok((file_removed, file_stats)) => {
                                 is_empty &= file_removed;
-- 
2.43.0


From a89605eeb63593fdea58cc7d994be305495c7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 12/38] fix: data of a failed shared cache transfer does not
 end up in the computed item

---
 crates/symbolicator-service/src/caching/memory.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 547278f..4402506 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -270,6 +270,14 @@ impl<T: CacheItemRequest> Cacher<T> {
         let entry = match entry {
             Some(entry) => entry,
             None => {
+                if self.shared_cache(&request).is_some() {
+                    // A transfer from the shared cache that failed half-way leaves partial data
+                    // in the temp file, so start the computation with a new one.
+                    temp_file = match self.config.tempfile() {
+                        Ok(temp_file) => temp_file,
+                        Err(e) => return CacheEntry::from_err(e),
+                    };
+                }
                 metric!(counter("caches.computation") += 1, "cache" => name.as_ref());
                 match request.compute(&mut temp_file).await {
                     Ok(()) => {
-- 
2.43.0


From fa6cb6a67afec60ecfc95eeac14585665857f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 13/38] fix: a stalled response does not occupy an upload slot
 of the shared cache for good

---
 crates/symbolicator-service/src/caching/shared_cache/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/caching/shared_cache/mod.rs b/crates/symbolicator-service/src/caching/shared_cache/mod.rs
index e6eb366..136afd2 100644
--- a/crates/symbolicator-service/src/caching/shared_cache/mod.rs
+++ b/crates/symbolicator-service/src/caching/shared_cache/mod.rs
@@ -231,7 +231,10 @@ impl GcsState {
             Ok(Ok(response)) => {
                 // Consume the response body to be nice to the server, it is only a bit of JSON.
                 let status = response.status();
-                response.bytes().await.ok();
+                // Don't wait for it for long though: nothing else bounds the time this takes.
+                tokio::time::timeout(CONNECT_TIMEOUT, response.bytes())
+                    .await
+                    .ok();
 
                 match status {
                     StatusCode::OK => Ok(true),
-- 
2.43.0


From 28585156e28e361be1567cc22701a26d26dd2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 14/38] fix: files in the shared cache are not replaced by a
 concurrent upload

---
 .../src/caching/shared_cache/mod.rs                  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/shared_cache/mod.rs b/crates/symbolicator-service/src/caching/shared_cache/mod.rs
index 136afd2..fff0f66 100644
--- a/crates/symbolicator-service/src/caching/shared_cache/mod.rs
+++ b/crates/symbolicator-service/src/caching/shared_cache/mod.rs
@@ -406,10 +406,14 @@ impl FilesystemSharedCacheConfig {
             .await
             .context("Failed to copy data into file")?;
 
-        temp_file
-            .persist(abspath)
-            .context("Failed to save file in shared cache")?;
-        Ok(SharedCacheStoreResult::Written(bytes))
+        match temp_file.persist_noclobber(abspath) {
+            Ok(_) => Ok(SharedCacheStoreResult::Written(bytes)),
+            // The item was stored by someone else in the meantime.
+            Err(err) if err.error.kind() == io::ErrorKind::AlreadyExists => {
+                Ok(SharedCacheStoreResult::Skipped)
+            }
+            Err(err) => Err(err).context("Failed to save file in shared cache")?,
+        }
     }
 }
 
-- 
2.43.0


From a63f93b61b5f32a453275747656ac3dedfb07fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 15/38] partial downloads: allow small splits in simulations
 (cfg symbolicator_dst, off by default)

---
 crates/symbolicator-service/src/download/mod.rs     | 1 +
 crates/symbolicator-service/src/download/partial.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index f928bf5..9f1af5b 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -41,6 +41,7 @@ mod filesystem;
 mod gcs;
 mod http;
 mod index;
+#[allow(unexpected_cfgs)]
 mod partial;
 mod s3;
 pub mod sentry;
diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 798006d..2231683 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -9,8 +9,11 @@ const MAX_PARTIAL_RANGES: u64 = 4;
 
 /// The amount of bytes when a download should split into multiple parts,
 /// this essentially means the minimum split size is `PARTIAL_SPLIT_SIZE / 2`.
-#[cfg(not(test))]
+#[cfg(not(any(test, symbolicator_dst)))]
 const PARTIAL_SPLIT_SIZE: u64 = 128 * 1024 * 1024;
+/// Simulated downloads are small, but still need to be split.
+#[cfg(all(symbolicator_dst, not(test)))]
+const PARTIAL_SPLIT_SIZE: u64 = 4096;
 #[cfg(test)]
 const PARTIAL_SPLIT_SIZE: u64 = 100;
 
-- 
2.43.0


From ddb8982c34fabdeb412d06d4de29aac038af9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 16/38] fix: breakpad symbols of .exe and .dll files are looked
 up without the extension

---
 crates/symbolicator-sources/src/paths.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 36c86d8..9bae973 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -105,12 +105,9 @@ fn get_breakpad_path(identifier: &ObjectId) -> Option<String> {
 
     let debug_file = identifier.validated_debug_file_basename()?;
     let debug_id = identifier.debug_id.as_ref()?;
-    let new_debug_file = debug_file
-        .strip_suffix(".exe")
-        .unwrap_or(debug_file)
-        .strip_suffix(".dll")
-        .unwrap_or(debug_file)
-        .strip_suffix(".pdb")
+    let new_debug_file = [".exe", ".dll", ".pdb"]
+        .iter()
+        .find_map(|ext| debug_file.strip_suffix(ext))
         .unwrap_or(debug_file);
 
     Some(format!(
-- 
2.43.0


From 3aabec1d9ad60dc5763e5e118bf0d75bf20f21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 17/38] fix: module names without a file name do not lead
 lookups out of the directory of a source

---
 crates/symbolicator-sources/src/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/symbolicator-sources/src/types.rs b/crates/symbolicator-sources/src/types.rs
index 80b556c..7b50d73 100644
--- a/crates/symbolicator-sources/src/types.rs
+++ b/crates/symbolicator-sources/src/types.rs
@@ -152,10 +152,14 @@ impl ObjectId {
 /// Returns the "valid" basename of the file.
 ///
 /// The basename is valid if:
+/// - it is not empty and does not refer to a directory (`.` and `..`),
 /// - it is not longer than 255 bytes and
 /// - does not contain a control character
 fn valid_file_name(file_name: &str) -> Option<&str> {
     let basename = split_path(file_name).1;
+    if matches!(basename, "" | "." | "..") {
+        return None;
+    }
     if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
         return Some(basename);
     }
-- 
2.43.0


From fb906e8f18090db37ffb89454dd9d462ac242f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 18/38] fix: no debuginfod lookups with an empty build id

---
 crates/symbolicator-sources/src/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 9bae973..41b742b 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -303,11 +303,11 @@ fn get_symstore_index2_path(filetype: FileType, identifier: &ObjectId) -> Option
 fn get_debuginfod_path(filetype: FileType, identifier: &ObjectId) -> Option<String> {
     match filetype {
         FileType::ElfCode => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
+            let code_id = identifier.code_id.as_ref().filter(|id| !id.is_nil())?;
             Some(format!("{code_id}/executable"))
         }
         FileType::ElfDebug => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
+            let code_id = identifier.code_id.as_ref().filter(|id| !id.is_nil())?;
             Some(format!("{code_id}/debuginfo"))
         }
 
-- 
2.43.0


From e869e3ae7a623b0681b9786f9af7c6678654e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:48 +0000
Subject: [PATCH 19/38] fix: the URIs of different files in a bucket are
 different

---
 crates/symbolicator-sources/src/remotefile.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-sources/src/remotefile.rs b/crates/symbolicator-sources/src/remotefile.rs
index 4a280de..2885c54 100644
--- a/crates/symbolicator-sources/src/remotefile.rs
+++ b/crates/symbolicator-sources/src/remotefile.rs
@@ -342,9 +342,15 @@ impl RemoteFileUri {
     /// ```
     pub fn from_parts(scheme: &str, host: &str, path: &str) -> Self {
         Url::parse(&format!("{scheme}://{host}/"))
-            .and_then(|base| base.join(path))
-            .map(|url| RemoteFileUri::new(url.as_str()))
-            .unwrap_or_else(|_| {
+            .ok()
+            .and_then(|mut url| {
+                url.path_segments_mut()
+                    .ok()?
+                    .pop_if_empty()
+                    .extend(path.split('/'));
+                Some(RemoteFileUri::new(url.as_str()))
+            })
+            .unwrap_or_else(|| {
                 // All these Result-returning operations *should* be infallible and this
                 // branch should never be used.  Nevertheless, for panic-safety we default
                 // to something infallible that's also pretty correct.
-- 
2.43.0


From b1b50e3f3af04b8941ab217931ac8b11019301a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 20/38] fix: indexes of sources are kept apart by scope and
 location

---
 .../src/download/index.rs                     | 39 ++++++++++++++++---
 .../symbolicator-service/src/download/mod.rs  | 25 +++++++++++-
 .../symbolicator-service/src/objects/mod.rs   |  3 +-
 3 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 38afbac..34018b8 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -9,8 +9,8 @@ use moka::ops::compute::Op;
 use symbolic::common::{AccessPattern, ByteView};
 use symbolicator_sources::{
     DirectoryLayoutType, FilesystemRemoteFile, FilesystemSourceConfig, GcsRemoteFile,
-    GcsSourceConfig, HttpRemoteFile, HttpSourceConfig, RemoteFile, S3RemoteFile, S3SourceConfig,
-    SourceConfig, SourceId, SourceIndex, SourceLocation, SymstoreIndex,
+    GcsSourceConfig, HttpRemoteFile, HttpSourceConfig, RemoteFile, RemoteFileUri, S3RemoteFile,
+    S3SourceConfig, SourceConfig, SourceId, SourceIndex, SourceLocation, SymstoreIndex,
 };
 use tempfile::NamedTempFile;
 
@@ -74,6 +74,15 @@ impl IndexSourceConfig {
         }
     }
 
+    fn is_public(&self) -> bool {
+        match self {
+            IndexSourceConfig::Filesystem(fs) => fs.files.is_public,
+            IndexSourceConfig::Gcs(gcs) => gcs.files.is_public,
+            IndexSourceConfig::Http(http) => http.files.is_public,
+            IndexSourceConfig::S3(s3) => s3.files.is_public,
+        }
+    }
+
     fn layout_ty(&self) -> DirectoryLayoutType {
         match self {
             IndexSourceConfig::Filesystem(fs) => fs.files.layout.ty,
@@ -93,6 +102,15 @@ impl IndexSourceConfig {
             IndexSourceConfig::S3(s3) => S3RemoteFile::new(Arc::clone(s3), loc).into(),
         }
     }
+
+    /// The location of the source's index.
+    ///
+    /// Together with the source's ID this identifies the index: sources of different
+    /// scopes, or a source whose configuration was changed, may share an ID.
+    fn index_uri(&self) -> RemoteFileUri {
+        self.remote_file(SourceLocation::new(LASTID_FILE)).uri()
+    }
+
     /// Returns a key that uniquely identifies the source for metrics.
     ///
     /// If this is a built-in source the source_id is returned, otherwise this falls
@@ -221,6 +239,7 @@ async fn download_full_index(
         let mut cache_key = CacheKey::scoped_builder(&scope);
         writeln!(&mut cache_key, "type: symstore_segment").unwrap();
         writeln!(&mut cache_key, "source_id: {}", source.id()).unwrap();
+        writeln!(&mut cache_key, "location: {}", source.index_uri()).unwrap();
         writeln!(&mut cache_key, "segment: {i}").unwrap();
         let cache_key = cache_key.build();
         let result = cache.compute_memoized(request, cache_key).await;
@@ -317,7 +336,7 @@ pub struct SourceIndexService {
     /// An in-memory cache for keeping track of the last segment uploaded
     /// to a Symstore index.
     symstore_last_id_cache:
-        moka::future::Cache<(Scope, SourceId), (CacheContents<u32>, SystemTime)>,
+        moka::future::Cache<(Scope, SourceId, RemoteFileUri), (CacheContents<u32>, SystemTime)>,
     /// The download service to download index files.
     downloader: Arc<DownloadService>,
 }
@@ -378,7 +397,7 @@ impl SourceIndexService {
 
         let comp_result = self
             .symstore_last_id_cache
-            .entry((scope, source.id().clone()))
+            .entry((scope, source.id().clone(), source.index_uri()))
             .and_compute_with(|entry| async {
                 let now = SystemTime::now();
                 let Some(entry) = entry else {
@@ -488,6 +507,7 @@ impl SourceIndexService {
         let mut cache_key = CacheKey::scoped_builder(&scope);
         writeln!(&mut cache_key, "type: symstore").unwrap();
         writeln!(&mut cache_key, "source_id: {}", source.id()).unwrap();
+        writeln!(&mut cache_key, "location: {}", source.index_uri()).unwrap();
         writeln!(&mut cache_key, "last_id: {last_id}").unwrap();
         let cache_key = cache_key.build();
 
@@ -507,6 +527,9 @@ impl SourceIndexService {
     /// If fetching the index fails, an empty index is returned. This
     /// effectively disables the source because the empty index will
     /// reject any path.
+    ///
+    /// The index of a public source is shared between all scopes, any other index is only
+    /// used for the scope it was fetched for.
     pub async fn fetch_index(&self, scope: Scope, source: &SourceConfig) -> Option<SourceIndex> {
         let source = IndexSourceConfig::maybe_from(source)?;
 
@@ -514,10 +537,16 @@ impl SourceIndexService {
             return None;
         }
 
+        let scope = if source.is_public() {
+            Scope::Global
+        } else {
+            scope
+        };
+
         match source.layout_ty() {
             symbolicator_sources::DirectoryLayoutType::Symstore => {
                 let symstore_index = self
-                    .fetch_symstore_index(scope.clone(), source)
+                    .fetch_symstore_index(scope, source)
                     .await
                     .unwrap_or_default();
                 Some(symstore_index.into())
diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 9f1af5b..dfdeeac 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -434,6 +434,29 @@ pub async fn list_files(
     sources: &[SourceConfig],
     filetypes: &[FileType],
     object_id: &ObjectId,
+) -> Vec<RemoteFile> {
+    let scope = Scope::Global;
+    list_scoped_files(
+        downloader,
+        source_index_svc,
+        &scope,
+        sources,
+        filetypes,
+        object_id,
+    )
+    .await
+}
+
+/// Like [`list_files`], but looks the files up on behalf of the given [`Scope`].
+///
+/// Indexes of private sources are only ever used for the scope they were fetched for.
+pub async fn list_scoped_files(
+    downloader: &DownloadService,
+    source_index_svc: &SourceIndexService,
+    scope: &Scope,
+    sources: &[SourceConfig],
+    filetypes: &[FileType],
+    object_id: &ObjectId,
 ) -> Vec<RemoteFile> {
     let mut remote_files = vec![];
 
@@ -450,7 +473,7 @@ pub async fn list_files(
     }
 
     for source in sources {
-        let index = source_index_svc.fetch_index(Scope::Global, source).await;
+        let index = source_index_svc.fetch_index(scope.clone(), source).await;
         match source {
             SourceConfig::Sentry(cfg) => {
                 let future = downloader
diff --git a/crates/symbolicator-service/src/objects/mod.rs b/crates/symbolicator-service/src/objects/mod.rs
index 6805bd0..6660a7f 100644
--- a/crates/symbolicator-service/src/objects/mod.rs
+++ b/crates/symbolicator-service/src/objects/mod.rs
@@ -144,9 +144,10 @@ impl ObjectsActor {
             sources,
             purpose,
         } = request;
-        let file_ids = download::list_files(
+        let file_ids = download::list_scoped_files(
             &self.download_svc,
             &self.source_index_svc,
+            &scope,
             &sources,
             filetypes,
             &identifier,
-- 
2.43.0


From 261df0fcad9fad782fe81bc1a426ec3ab7687b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 21/38] fix: parts of a download that are not what was
 requested do not end up in the file

The responses to partial requests were written into the destination whatever they contained: a server
ignoring the range, returning a different one, or less than announced corrupted the downloaded file, and a
file that shrunk after the initial request was reported as not existing.
---
 .../src/download/destination.rs               | 10 ++--
 .../symbolicator-service/src/download/mod.rs  | 59 +++++++++++++++++--
 .../src/download/partial.rs                   | 23 +++++++-
 3 files changed, 82 insertions(+), 10 deletions(-)

diff --git a/crates/symbolicator-service/src/download/destination.rs b/crates/symbolicator-service/src/download/destination.rs
index 4c9bee9..64cc31f 100644
--- a/crates/symbolicator-service/src/download/destination.rs
+++ b/crates/symbolicator-service/src/download/destination.rs
@@ -209,10 +209,12 @@ impl WriteStream for OffsetFileWriteStream {
         let offset = self.offset;
         let length = buf.len() as u64;
 
-        debug_assert!(
-            offset + length < self.end,
-            "attempt to write past end of stream"
-        );
+        if offset + length >= self.end {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "attempt to write past end of stream",
+            ));
+        }
 
         let file = Arc::clone(&self.file);
         tokio::task::spawn_blocking(move || file.write_all_at(&buf, offset)).await??;
diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index dfdeeac..56689b7 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -686,6 +686,18 @@ async fn do_download_reqwest_range(
             let destination = std::pin::pin!(destination.into_write());
             do_download_reqwest(request, destination).await
         }
+        // The range is valid, but is not the beginning of the requested resource.
+        Some(Ok(content_range)) if !content_range.is_head() => {
+            tracing::error!(
+                source_name = request.source_name,
+                source = source,
+                "server returned {content_range} for the initial range"
+            );
+            drop(response);
+
+            let destination = std::pin::pin!(destination.into_write());
+            do_download_reqwest(request, destination).await
+        }
         // Server indicates it supports ranges.
         Some(Ok(content_range)) => {
             tracing::trace!(
@@ -723,7 +735,8 @@ async fn do_download_reqwest_range(
                     .with_range(range);
 
                 let destination = destination.stream(range.start, range.size());
-                let partial = do_download_reqwest(request, destination).send();
+                let expected = content_range.with_range(range);
+                let partial = do_download_reqwest_part(request, expected, destination).send();
                 futures.push(Either::Right(partial));
             }
 
@@ -756,6 +769,31 @@ async fn do_download_reqwest(
     }
 }
 
+/// Downloads one part of a resource into the `destination`.
+///
+/// The server has to reply with exactly the `expected` part. It may fail to do so, for example
+/// because the resource was modified after the initial request.
+async fn do_download_reqwest_part(
+    request: SymRequest<'_>,
+    expected: BytesContentRange,
+    destination: impl WriteStream,
+) -> CacheContents {
+    let source = request.to_source();
+    let response = request.execute().await?;
+
+    let status = response.status();
+    match response.content_range() {
+        Some(Ok(range)) if range == expected => response.download(destination).await,
+        _ if status.is_success() || status == StatusCode::RANGE_NOT_SATISFIABLE => {
+            tracing::error!(source = source, "server did not return `{expected}`");
+            Err(CacheError::DownloadError(format!(
+                "server did not return the requested range: {status}"
+            )))
+        }
+        _ => Err(status_to_error(&source, status)),
+    }
+}
+
 /// Converts a status code to an error.
 ///
 /// Any status code will be converted to an error, callers must ensure success cases
@@ -885,10 +923,11 @@ impl SymResponse<'_> {
 
     /// Downloads the resource into `destination`, applying timeouts.
     async fn download(self, mut destination: impl WriteStream) -> CacheContents {
+        let content_range = self.content_range().and_then(|r| r.ok());
+
         // Use the content range, if available for a timeout, we're really just interested in
         // limiting the total time, not the time of individual requests.
-        let timeout = BytesContentRange::from_response(&self.response)
-            .and_then(|r| r.ok())
+        let timeout = content_range
             .map(|r| r.total_size)
             .or_else(|| self.response.content_length())
             .map(|cl| content_length_timeout(cl, self.timeouts.streaming))
@@ -897,12 +936,24 @@ impl SymResponse<'_> {
         let mut stream = self.response.bytes_stream().map_err(CacheError::from);
         // Transfer the contents, into the destination and track progress.
         tokio::time::timeout(timeout, async move {
+            let mut received = 0;
             while let Some(chunk) = stream.next().await.transpose()? {
                 self.measure.add_bytes_transferred(chunk.len() as u64);
+                received += chunk.len() as u64;
+                if content_range.is_some_and(|r| received > r.range().size()) {
+                    break;
+                }
                 destination.write_buf(chunk).await?;
             }
 
-            Ok(())
+            // The body of a partial response has to contain the announced range, anything else
+            // would leave holes in the resource, or overwrite other parts of it.
+            match content_range {
+                Some(range) if received != range.range().size() => Err(CacheError::DownloadError(
+                    format!("server did not send exactly `{range}`"),
+                )),
+                _ => Ok(()),
+            }
         })
         .await
         .map_err(|_| CacheError::Timeout(timeout))?
diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 2231683..e97effa 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -137,6 +137,22 @@ impl BytesContentRange {
         }
     }
 
+    /// Returns `true` if this is a valid range at the beginning of the resource.
+    ///
+    /// Some servers describe an empty resource as `bytes 0-0/0`.
+    pub fn is_head(self) -> bool {
+        self.start == 0 && (self.end < self.total_size || self.total_size == 0)
+    }
+
+    /// Returns the content range of a different `range` of the same resource.
+    pub fn with_range(self, range: Range) -> Self {
+        Self {
+            start: range.start,
+            end: range.end,
+            total_size: self.total_size,
+        }
+    }
+
     /// Parses a [`BytesContentRange`] from a [`reqwest::Response`].
     ///
     /// Returns `None` if the response is not a partial response.
@@ -145,11 +161,14 @@ impl BytesContentRange {
             return None;
         }
 
-        response
+        let content_range = response
             .headers()
             .get(reqwest::header::CONTENT_RANGE)
             .and_then(|hv| hv.to_str().ok())
-            .map(|s| s.parse())
+            .ok_or(InvalidBytesRange::Malformed)
+            .and_then(|s| s.parse());
+
+        Some(content_range)
     }
 }
 
-- 
2.43.0


From f48d573a5c1fb01f9147017ca31e425c6892d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 22/38] fix: large chunks of a download are written completely

---
 crates/symbolicator-service/src/download/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/download/destination.rs b/crates/symbolicator-service/src/download/destination.rs
index 64cc31f..943f9a2 100644
--- a/crates/symbolicator-service/src/download/destination.rs
+++ b/crates/symbolicator-service/src/download/destination.rs
@@ -15,7 +15,7 @@ use std::{io::Write, sync::Arc};
 pub trait WriteStream: Send {
     /// Attempts to write an entire buffer into this writer.
     ///
-    /// See also: [`AsyncWriteExt::write_buf`].
+    /// See also: [`AsyncWriteExt::write_all_buf`].
     fn write_buf(&mut self, buf: Bytes) -> impl Future<Output = io::Result<()>> + Send;
 }
 
@@ -24,7 +24,7 @@ where
     T: AsyncWrite + Unpin + Send,
 {
     async fn write_buf(&mut self, mut buf: Bytes) -> io::Result<()> {
-        AsyncWriteExt::write_buf(self, &mut buf).await.map(|_| ())
+        self.write_all_buf(&mut buf).await
     }
 }
 
-- 
2.43.0


From c3e10af1addeb40ac6bc3d855e00fc996d932148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 23/38] fix: a download that could not be written completely
 fails

---
 crates/symbolicator-service/src/download/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 56689b7..511ed27 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -314,8 +314,10 @@ impl DownloadService {
                     self.fs.download_source(source, &mut destination).await
                 }
             };
-            let _ = destination.flush().await;
-            result
+            // Writes happen in the background, and only flushing reports that the last one failed.
+            let flushed = destination.flush().await;
+            result?;
+            Ok(flushed?)
         })
         .await;
 
@@ -745,7 +747,7 @@ async fn do_download_reqwest_range(
             while futures.try_next().await?.is_some() {}
             drop(futures);
 
-            let _ = destination.flush().await;
+            destination.flush().await?;
 
             Ok(())
         }
-- 
2.43.0


From 7068ec31954a28af5321e6883087cb350bbe62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:42 +0000
Subject: [PATCH 24/38] fix: writes of a failed range download do not interfere
 with the next attempt

---
 .../src/download/destination.rs               | 19 ++++++++++++++++++-
 .../symbolicator-service/src/download/mod.rs  | 13 +++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/crates/symbolicator-service/src/download/destination.rs b/crates/symbolicator-service/src/download/destination.rs
index 943f9a2..9577832 100644
--- a/crates/symbolicator-service/src/download/destination.rs
+++ b/crates/symbolicator-service/src/download/destination.rs
@@ -5,6 +5,9 @@ use tokio::io::{AsyncWrite, AsyncWriteExt};
 #[cfg(unix)]
 use std::{io::Write, sync::Arc};
 
+#[cfg(unix)]
+use tokio::sync::RwLock;
+
 /// A simplified version of [`AsyncWrite`] which only supports
 /// [`write_all`](AsyncWriteExt::write_all).
 ///
@@ -85,6 +88,8 @@ pub trait MultiStreamDestination: Send {
     fn stream(&self, offset: u64, size: u64) -> Self::Stream<'_>;
 
     /// Flushes this output stream, ensuring that all intermediately buffered contents reach their destination.
+    ///
+    /// This includes writes to streams which already have been dropped.
     fn flush(&mut self) -> impl Future<Output = io::Result<()>> + Send;
 
     /// Converts the destination into a generic [`AsyncWrite`].
@@ -129,6 +134,7 @@ impl<'a> Destination for &'a mut tokio::fs::File {
         Ok(FileMultiStreamDestination {
             original: self,
             file: Arc::new(dup),
+            writes: Default::default(),
         })
     }
 
@@ -156,6 +162,8 @@ impl Destination for &mut tokio::fs::File {
 pub struct FileMultiStreamDestination<'a> {
     original: &'a mut tokio::fs::File,
     file: Arc<std::fs::File>,
+    /// Locked by writes while they are in progress, they are not cancelled with their stream.
+    writes: Arc<RwLock<()>>,
 }
 
 #[cfg(unix)]
@@ -176,11 +184,14 @@ impl<'file> MultiStreamDestination for FileMultiStreamDestination<'file> {
     fn stream(&self, offset: u64, size: u64) -> Self::Stream<'_> {
         OffsetFileWriteStream {
             file: Arc::clone(&self.file),
+            writes: Arc::clone(&self.writes),
             offset,
             end: offset + size + 1,
         }
     }
     async fn flush(&mut self) -> io::Result<()> {
+        let _writes = self.writes.write().await;
+
         let mut file = Arc::clone(&self.file);
         tokio::task::spawn_blocking(move || file.flush()).await?
     }
@@ -194,6 +205,7 @@ impl<'file> MultiStreamDestination for FileMultiStreamDestination<'file> {
 #[cfg(unix)]
 pub struct OffsetFileWriteStream {
     file: Arc<std::fs::File>,
+    writes: Arc<RwLock<()>>,
     offset: u64,
     end: u64,
 }
@@ -217,7 +229,12 @@ impl WriteStream for OffsetFileWriteStream {
         }
 
         let file = Arc::clone(&self.file);
-        tokio::task::spawn_blocking(move || file.write_all_at(&buf, offset)).await??;
+        let write = Arc::clone(&self.writes).read_owned().await;
+        tokio::task::spawn_blocking(move || {
+            let _write = write;
+            file.write_all_at(&buf, offset)
+        })
+        .await??;
 
         // Update the offset for the next write.
         //
diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 511ed27..4eb3e0e 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -725,7 +725,7 @@ async fn do_download_reqwest_range(
 
             destination.set_size(content_range.total_size).await?;
 
-            let mut futures = FuturesUnordered::new();
+            let futures = FuturesUnordered::new();
 
             let head = response.download(destination.stream(0, content_range.range().size()));
             futures.push(Either::Left(head.send()));
@@ -744,12 +744,13 @@ async fn do_download_reqwest_range(
 
             request.measure.set_streams(futures.len());
 
-            while futures.try_next().await?.is_some() {}
-            drop(futures);
+            let result = futures.try_for_each(|()| future::ready(Ok(()))).await;
 
-            destination.flush().await?;
-
-            Ok(())
+            // If one of the streams failed, there may still be writes of the others in progress,
+            // which must not interfere with another attempt to download the resource.
+            let flushed = destination.flush().await;
+            result?;
+            Ok(flushed?)
         }
     }
 }
-- 
2.43.0


From b540faae049c399f813d0d59d35a23da2ed182e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:59 +0000
Subject: [PATCH 25/38] fix: writes of a cancelled computation do not end up in
 the stored error

---
 crates/symbolicator-service/src/caching/memory.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 4402506..2056851 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -299,6 +299,12 @@ impl<T: CacheItemRequest> Cacher<T> {
                         return CacheEntry::from_err(CacheError::InternalError);
                     }
                     Err(err) => {
+                        // The computation may have been cancelled, but writes of it can still be in
+                        // progress, so they must not end up in the file with the error.
+                        temp_file = match self.config.tempfile() {
+                            Ok(temp_file) => temp_file,
+                            Err(e) => return CacheEntry::from_err(e),
+                        };
                         let temp_fd = match temp_file.reopen() {
                             Ok(fd) => fd,
                             Err(e) => return CacheEntry::from_err(e),
-- 
2.43.0


From dde5a253bffbe7ae9c6f124cee52cd39785909cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:43 +0000
Subject: [PATCH 26/38] fix: blocking of hosts does not depend on the system
 clock

---
 .../symbolicator-service/src/download/mod.rs  | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 4eb3e0e..15e311c 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -99,7 +99,8 @@ impl From<GcsError> for CacheError {
 /// A record of a number of download failures in a given second.
 #[derive(Debug, Clone, Copy)]
 struct FailureCount {
-    /// The time at which the failures occurred, measured in milliseconds since the Unix Epoch.
+    /// The time at which the failures occurred, measured in milliseconds since the creation of
+    /// the [`HostDenyList`].
     timestamp: u64,
     /// The number of failures.
     failures: usize,
@@ -117,6 +118,8 @@ type CountedFailures = Arc<Mutex<VecDeque<FailureCount>>>;
 /// Hosts included in `never_block` will never be blocked regardless of download_failures.
 #[derive(Clone, Debug)]
 struct HostDenyList {
+    /// The time from which failures are timed. This is not affected by changes to the system clock.
+    start: Instant,
     time_window_millis: u64,
     bucket_size_millis: u64,
     failure_threshold: usize,
@@ -132,6 +135,7 @@ impl HostDenyList {
         let time_window_millis = config.deny_list_time_window.as_millis() as u64;
         let bucket_size_millis = config.deny_list_bucket_size.as_millis() as u64;
         Self {
+            start: Instant::now(),
             time_window_millis,
             bucket_size_millis,
             failure_threshold: config.deny_list_threshold,
@@ -165,22 +169,17 @@ impl HostDenyList {
     /// If that puts the host over the threshold, it is added
     /// to the blocked servers.
     fn register_failure(&self, source_name: &str, host: String) {
-        let current_ts = SystemTime::now();
-
         tracing::trace!(
             host = %host,
-            time = %humantime::format_rfc3339(current_ts),
+            time = %humantime::format_rfc3339(SystemTime::now()),
             "Registering download failure"
         );
 
-        let current_ts = current_ts
-            .duration_since(std::time::UNIX_EPOCH)
-            .unwrap_or_default();
-
-        let current_ts = self.round_duration(current_ts);
         let entry = self.failures.entry_by_ref(&host).or_default();
 
         let mut queue = entry.value().lock().unwrap();
+        // Read the time while holding the lock, so that the queue is ordered.
+        let current_ts = self.round_duration(self.start.elapsed());
         match queue.back_mut() {
             Some(last) if last.timestamp == current_ts => {
                 last.failures += 1;
@@ -197,7 +196,7 @@ impl HostDenyList {
             queue.pop_front();
         }
 
-        let cutoff = current_ts - self.time_window_millis;
+        let cutoff = current_ts.saturating_sub(self.time_window_millis);
         let total_failures: usize = queue
             .iter()
             .skip_while(|failure_count| failure_count.timestamp < cutoff)
-- 
2.43.0


From c2ca09b8cdf28ef8b223c51d6f3e1c5c46a3b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:01 +0000
Subject: [PATCH 27/38] fix: all of the reserved networks 192.0.0.0/24 and
 203.0.113.0/24 are recognized

---
 crates/symbolicator-service/src/utils/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index 371e6ba..95791a6 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -17,12 +17,13 @@ static RESERVED_IP_BLOCKS: Lazy<Vec<Ipv4Network>> = Lazy::new(|| {
         "127.0.0.0/8",
         "169.254.0.0/16",
         "172.16.0.0/12",
-        "192.0.0.0/29",
+        "192.0.0.0/24",
         "192.0.2.0/24",
         "192.88.99.0/24",
         "192.168.0.0/16",
         "198.18.0.0/15",
         "198.51.100.0/24",
+        "203.0.113.0/24",
         "224.0.0.0/4",
         "240.0.0.0/4",
         "255.255.255.255/32",
-- 
2.43.0


From 0758653fd2909349961f4f602f96c03bfa75b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:52 +0000
Subject: [PATCH 28/38] fix: an index without a segment that could not be
 downloaded is not used as if it was complete

---
 crates/symbolicator-service/src/download/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 34018b8..8dc3870 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -197,7 +197,8 @@ async fn download_index_segment(
             source_id = %source.id(),
             segment,
             "Failed to download Symstore index segment",
-        )
+        );
+        return Err(e);
     }
 
     let buf = BufReader::new(temp_file);
-- 
2.43.0


From 233b8cf6133a9f8a4ab863e5291406292e683e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:52 +0000
Subject: [PATCH 29/38] fix: fetching the index of a source does not depend on
 the system clock

---
 crates/symbolicator-service/src/download/index.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 8dc3870..ecad71c 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -2,7 +2,7 @@ use std::fmt::Write;
 use std::fs::File;
 use std::io::BufReader;
 use std::sync::Arc;
-use std::time::{Duration, SystemTime};
+use std::time::{Duration, Instant};
 
 use futures::future::BoxFuture;
 use moka::ops::compute::Op;
@@ -337,7 +337,7 @@ pub struct SourceIndexService {
     /// An in-memory cache for keeping track of the last segment uploaded
     /// to a Symstore index.
     symstore_last_id_cache:
-        moka::future::Cache<(Scope, SourceId, RemoteFileUri), (CacheContents<u32>, SystemTime)>,
+        moka::future::Cache<(Scope, SourceId, RemoteFileUri), (CacheContents<u32>, Instant)>,
     /// The download service to download index files.
     downloader: Arc<DownloadService>,
 }
@@ -400,7 +400,7 @@ impl SourceIndexService {
             .symstore_last_id_cache
             .entry((scope, source.id().clone(), source.index_uri()))
             .and_compute_with(|entry| async {
-                let now = SystemTime::now();
+                let now = Instant::now();
                 let Some(entry) = entry else {
                     // If there is no existing entry, there's nothing to do but compute one.
                     tracing::info!("Fetching last ID for the first time");
@@ -418,7 +418,7 @@ impl SourceIndexService {
                     LASTID_ERROR_CACHE_TIME
                 };
 
-                if ts.elapsed().unwrap() > cache_time {
+                if ts.elapsed() > cache_time {
                     tracing::info!("Last ID is older than {} seconds", cache_time.as_secs());
                     // The old entry is expired, we might need to update it.
                     let res_new = compute().await;
-- 
2.43.0


From f06e2156c7fde713e9692e3ae369b4f232fb61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:04 +0000
Subject: [PATCH 30/38] fix: access tokens are renewed in time after changes to
 the system clock

---
 crates/symbolicator-service/src/utils/gcs.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/symbolicator-service/src/utils/gcs.rs b/crates/symbolicator-service/src/utils/gcs.rs
index 3110684..15bbb03 100644
--- a/crates/symbolicator-service/src/utils/gcs.rs
+++ b/crates/symbolicator-service/src/utils/gcs.rs
@@ -1,8 +1,9 @@
 //! Access to Google Cloud Storeage
 
 use std::sync::Arc;
+use std::time::Instant;
 
-use chrono::{DateTime, Duration, Utc};
+use chrono::{Duration, Utc};
 use jsonwebtoken::errors::Error as JwtError;
 use jsonwebtoken::EncodingKey;
 use reqwest::Client;
@@ -12,17 +13,21 @@ use url::Url;
 
 use symbolicator_sources::GcsSourceKey;
 
+/// How long a token is used before a new one is requested.
+const TOKEN_LIFETIME: std::time::Duration = std::time::Duration::from_secs(58 * 60);
+
 /// A JWT token usable for GCS.
 #[derive(Debug, Clone)]
 pub struct GcsToken {
     bearer_token: Arc<str>,
-    expires_at: DateTime<Utc>,
+    /// When the token expires, independently of changes to the system clock.
+    expires_at: Instant,
 }
 
 impl GcsToken {
     /// Whether the token is expired or is still valid.
     pub fn is_expired(&self) -> bool {
-        self.expires_at < Utc::now()
+        self.expires_at < Instant::now()
     }
 
     /// The token in the HTTP Bearer-header format, header value only.
@@ -117,8 +122,9 @@ pub async fn request_new_token(
     client: &Client,
     source_key: &GcsSourceKey,
 ) -> Result<GcsToken, GcsError> {
-    let expires_at = Utc::now() + Duration::minutes(58);
-    let auth_jwt = get_auth_jwt(source_key, expires_at.timestamp() + 30)?;
+    let expires_at = Instant::now() + TOKEN_LIFETIME;
+    let expiration = Utc::now() + TOKEN_LIFETIME + Duration::seconds(30);
+    let auth_jwt = get_auth_jwt(source_key, expiration.timestamp())?;
 
     let request = client
         .post("https://www.googleapis.com/oauth2/v4/token")
-- 
2.43.0


From de91a631ecc774540dab9ac9e314cc95b7cd6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:21 +0000
Subject: [PATCH 31/38] fix: a segment of an index that lists no file is not
 taken for a missing one after a restart

---
 crates/symbolicator-sources/src/index.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/index.rs b/crates/symbolicator-sources/src/index.rs
index 264cf66..ea1d30b 100644
--- a/crates/symbolicator-sources/src/index.rs
+++ b/crates/symbolicator-sources/src/index.rs
@@ -67,7 +67,10 @@ impl SymstoreIndex {
         let mut out = Self::default();
         let reader = BufReader::new(data);
         for line in reader.lines() {
-            out.files.insert(line?.into());
+            let line = line?;
+            if !line.is_empty() {
+                out.files.insert(line.into());
+            }
         }
         Ok(out)
     }
@@ -99,10 +102,16 @@ impl SymstoreIndex {
     }
 
     /// Writes this index to a writer.
+    ///
+    /// An index without entries is written as an empty line: an empty file in
+    /// a cache would be taken for an index that doesn't exist.
     pub fn write(&self, mut destination: impl Write) -> io::Result<()> {
         for line in &self.files {
             writeln!(destination, "{line}")?;
         }
+        if self.files.is_empty() {
+            writeln!(destination)?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From f7a973b7a27416eb151169f8c5325b1c2b03a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:20 +0000
Subject: [PATCH 32/38] fix: the request limit holds under concurrent requests,
 and a crashed request frees its slot

The check of the limit and the increment of the counter were separate, so that
concurrent requests could exceed the limit, and a computation that panicked or
was dropped never gave back its slot, so that the service rejected all requests
after max_concurrent_requests of them.
---
 crates/symbolicator/src/service.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/symbolicator/src/service.rs b/crates/symbolicator/src/service.rs
index 2fc01f8..78ea0a3 100644
--- a/crates/symbolicator/src/service.rs
+++ b/crates/symbolicator/src/service.rs
@@ -393,17 +393,26 @@ impl RequestService {
         let requests = Arc::clone(&self.inner.requests);
         let current_requests = Arc::clone(&self.inner.current_requests);
 
-        let num_requests = current_requests.load(Ordering::Relaxed);
+        // Reserve a slot for this request, unless `max_concurrent_requests` are already in flight.
+        // Checking the limit and taking the slot have to be one atomic operation.
+        let max_concurrent_requests = self.inner.max_concurrent_requests.unwrap_or(usize::MAX);
+        let reservation =
+            current_requests.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |num_requests| {
+                (num_requests < max_concurrent_requests).then_some(num_requests + 1)
+            });
+        let (Ok(num_requests) | Err(num_requests)) = reservation;
         metric!(gauge("requests.in_flight") = num_requests as u64);
 
-        // Reject the request if `requests` already contains `max_concurrent_requests` elements.
-        if let Some(max_concurrent_requests) = self.inner.max_concurrent_requests {
-            if num_requests >= max_concurrent_requests {
-                metric!(counter("requests.rejected") += 1);
-                return Err(MaxRequestsError);
-            }
+        if reservation.is_err() {
+            metric!(counter("requests.rejected") += 1);
+            return Err(MaxRequestsError);
         }
 
+        // This also releases the slot of a request whose computation panics or gets dropped.
+        let in_flight_guard = CallOnDrop::new(move || {
+            current_requests.fetch_sub(1, Ordering::Relaxed);
+        });
+
         // Using `task_name` as the tag should be fine, there is only a small
         // fixed number of them.
         metric!(counter("requests.accepted") += 1, "task" => task_name);
@@ -413,7 +422,6 @@ impl RequestService {
             .lock()
             .unwrap()
             .insert(request_id, receiver.shared());
-        current_requests.fetch_add(1, Ordering::Relaxed);
         let drop_hub = hub.clone();
         let token = CallOnDrop::new(move || {
             requests.lock().unwrap().remove(&request_id);
@@ -480,7 +488,7 @@ impl RequestService {
 
             // We stop counting the request as an in-flight request at this point, even though
             // it will stay in the `requests` map for another 90s.
-            current_requests.fetch_sub(1, Ordering::Relaxed);
+            drop(in_flight_guard);
 
             // Using `task_name` as the tag should be fine, there is only a small
             // fixed number of them.
-- 
2.43.0


From 2c98bad2faebef2a38ee8e80a9fa96787c4d4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:58 +0000
Subject: [PATCH 33/38] fix: a file cached from an artifact bundle does not
 hide a better match for another event

---
 crates/symbolicator-js/src/bundle_lookup.rs | 53 +++++++++---------
 crates/symbolicator-js/src/lookup.rs        | 60 +++++++++++----------
 2 files changed, 61 insertions(+), 52 deletions(-)

diff --git a/crates/symbolicator-js/src/bundle_lookup.rs b/crates/symbolicator-js/src/bundle_lookup.rs
index db59c7e..18d8c9c 100644
--- a/crates/symbolicator-js/src/bundle_lookup.rs
+++ b/crates/symbolicator-js/src/bundle_lookup.rs
@@ -4,11 +4,19 @@ use std::time::Duration;
 use symbolicator_service::metric;
 use symbolicator_sources::RemoteFileUri;
 
-use crate::interface::ResolvedWith;
 use crate::lookup::{CachedFileEntry, FileKey};
 
 type FileInBundleCacheInner =
-    moka::sync::Cache<(RemoteFileUri, FileKey), (CachedFileEntry, ResolvedWith)>;
+    moka::sync::Cache<(RemoteFileUri, FileKey, BundleLookup), CachedFileEntry>;
+
+/// The way in which a file is looked up in an artifact bundle.
+#[derive(Clone, Debug, PartialEq, Eq, Hash)]
+pub enum BundleLookup {
+    /// By the debug ID of its [`FileKey`].
+    DebugId,
+    /// By this candidate URL.
+    Url(String),
+}
 
 /// A cache that memoizes looking up files in artifact bundles.
 #[derive(Clone)]
@@ -33,7 +41,6 @@ impl FileInBundleCache {
             .name("file-in-bundle")
             .weigher(|_k, v| {
                 let content_size = v
-                    .0
                     .entry
                     .as_ref()
                     .map(|cached_file| cached_file.contents.as_deref().unwrap_or_default().len())
@@ -46,30 +53,25 @@ impl FileInBundleCache {
         Self { cache }
     }
 
-    /// Tries to retrieve a file from the cache.
+    /// Tries to retrieve the file that `lookup` finds for `key` in the given bundle from the cache.
     ///
-    /// We look for the file under `(bundle_uri, key)` for `bundle_uri` in `bundle_uris`.
-    /// Retrieval is limited to a specific list of bundles so that e.g. files with the same
-    /// `abs_path` belonging to different events are disambiguated.
+    /// Retrieval is limited to one bundle and one way of looking up the file, so that a hit is
+    /// exactly what the lookup itself would result in. In particular, a file that was cached for
+    /// one event does not take precedence over a better match for a different event.
     pub fn try_get(
         &self,
-        bundle_uris: impl Iterator<Item = RemoteFileUri>,
-        mut key: FileKey,
-    ) -> Option<(RemoteFileUri, CachedFileEntry, ResolvedWith)> {
-        for bundle_uri in bundle_uris {
-            // XXX: this is a really horrible workaround for not being able to look up things via `(&A, &B)` instead of `&(A, B)`.
-            let lookup_key = (bundle_uri, key);
-            if let Some((file_entry, resolved_with)) = self.cache.get(&lookup_key) {
-                metric!(counter("js.file_in_bundle.hit") += 1);
-                return Some((lookup_key.0, file_entry, resolved_with));
-            }
-            key = lookup_key.1;
-        }
-        metric!(counter("js.file_in_bundle.miss") += 1);
-        None
+        bundle_uri: &RemoteFileUri,
+        key: &FileKey,
+        lookup: &BundleLookup,
+    ) -> Option<CachedFileEntry> {
+        let file_entry = self
+            .cache
+            .get(&(bundle_uri.clone(), key.clone(), lookup.clone()))?;
+        metric!(counter("js.file_in_bundle.hit") += 1);
+        Some(file_entry)
     }
 
-    /// Inserts `file_entry` into the cache under `(bundle_uri, key)`.
+    /// Inserts `file_entry` into the cache under `(bundle_uri, key, lookup)`.
     ///
     /// Files are inserted under a specific bundle so that e.g. files with the same
     /// `abs_path` belonging to different events are disambiguated.
@@ -77,9 +79,10 @@ impl FileInBundleCache {
         &self,
         bundle_uri: &RemoteFileUri,
         key: &FileKey,
-        resolved_with: ResolvedWith,
+        lookup: BundleLookup,
         file_entry: &CachedFileEntry,
     ) {
+        metric!(counter("js.file_in_bundle.miss") += 1);
         let mut file_entry = file_entry.clone();
         if matches!(key, FileKey::SourceMap { .. }) {
             if let Ok(cached_file) = file_entry.entry.as_mut() {
@@ -89,7 +92,7 @@ impl FileInBundleCache {
                 cached_file.contents = None;
             }
         }
-        let key = (bundle_uri.clone(), key.clone());
-        self.cache.insert(key, (file_entry, resolved_with))
+        let key = (bundle_uri.clone(), key.clone(), lookup);
+        self.cache.insert(key, file_entry)
     }
 }
diff --git a/crates/symbolicator-js/src/lookup.rs b/crates/symbolicator-js/src/lookup.rs
index 6782452..e17423f 100644
--- a/crates/symbolicator-js/src/lookup.rs
+++ b/crates/symbolicator-js/src/lookup.rs
@@ -49,7 +49,7 @@ use symbolicator_service::types::{Scope, ScrapingConfig};
 use symbolicator_service::utils::http::is_valid_origin;
 
 use crate::api_lookup::{ArtifactHeaders, JsLookupResult, SentryLookupApi};
-use crate::bundle_lookup::FileInBundleCache;
+use crate::bundle_lookup::{BundleLookup, FileInBundleCache};
 use crate::interface::{
     JsScrapingAttempt, JsScrapingFailureReason, JsStacktrace, ResolvedWith,
     SymbolicateJsStacktraces,
@@ -840,25 +840,6 @@ impl ArtifactFetcher {
             return None;
         }
 
-        // First see if we have already cached this file for any of this event's bundles.
-        if let Some((bundle_uri, file_entry, resolved_with)) = self
-            .files_in_bundles
-            .try_get(self.artifact_bundles.keys().rev().cloned(), key.clone())
-        {
-            // we would like to gather metrics for which method we used to resolve the artifact bundle
-            // containing the file. we should also be doing so if we got the file from the cache.
-            if let Some(Ok((_, bundle_resolved_with))) = self.artifact_bundles.get(&bundle_uri) {
-                self.metrics.record_file_found_in_bundle(
-                    key.as_type(),
-                    resolved_with,
-                    *bundle_resolved_with,
-                    key.debug_id().is_some(),
-                );
-            }
-
-            return Some(file_entry);
-        }
-
         // If we have a `DebugId`, we try a lookup based on that.
         if let Some(debug_id) = key.debug_id() {
             let ty = key.as_type();
@@ -866,6 +847,20 @@ impl ArtifactFetcher {
                 let Ok((bundle, bundle_resolved_with)) = bundle else {
                     continue;
                 };
+                let cached = self
+                    .files_in_bundles
+                    .try_get(bundle_uri, key, &BundleLookup::DebugId);
+                if let Some(file_entry) = cached {
+                    // we would like to gather metrics for which method we used to resolve the artifact bundle
+                    // containing the file. we should also be doing so if we got the file from the cache.
+                    self.metrics.record_file_found_in_bundle(
+                        key.as_type(),
+                        ResolvedWith::DebugId,
+                        *bundle_resolved_with,
+                        key.debug_id().is_some(),
+                    );
+                    return Some(file_entry);
+                }
                 let bundle = bundle.get();
                 if let Ok(Some(descriptor)) = bundle.source_by_debug_id(debug_id, ty) {
                     self.metrics.record_file_found_in_bundle(
@@ -883,7 +878,7 @@ impl ArtifactFetcher {
                     self.files_in_bundles.insert(
                         bundle_uri,
                         key,
-                        ResolvedWith::DebugId,
+                        BundleLookup::DebugId,
                         &file_entry,
                     );
                     return Some(file_entry);
@@ -894,10 +889,25 @@ impl ArtifactFetcher {
         // Otherwise, try all the candidate `abs_path` patterns in every artifact bundle.
         if let Some(abs_path) = key.abs_path() {
             for url in get_release_file_candidate_urls(abs_path) {
+                let lookup = BundleLookup::Url(url.clone());
                 for (bundle_uri, bundle) in self.artifact_bundles.iter().rev() {
                     let Ok((bundle, resolved_with)) = bundle else {
                         continue;
                     };
+                    if let Some(file_entry) =
+                        self.files_in_bundles.try_get(bundle_uri, key, &lookup)
+                    {
+                        self.metrics.record_file_found_in_bundle(
+                            key.as_type(),
+                            ResolvedWith::Url,
+                            *resolved_with,
+                            key.debug_id().is_some(),
+                        );
+                        return Some(CachedFileEntry {
+                            resolved_with: *resolved_with,
+                            ..file_entry
+                        });
+                    }
                     let bundle = bundle.get();
                     if let Ok(Some(descriptor)) = bundle.source_by_url(&url) {
                         self.metrics.record_file_found_in_bundle(
@@ -912,12 +922,8 @@ impl ArtifactFetcher {
                             entry: CachedFile::from_descriptor(Some(abs_path), descriptor),
                             resolved_with: *resolved_with,
                         };
-                        self.files_in_bundles.insert(
-                            bundle_uri,
-                            key,
-                            ResolvedWith::Url,
-                            &file_entry,
-                        );
+                        self.files_in_bundles
+                            .insert(bundle_uri, key, lookup, &file_entry);
                         return Some(file_entry);
                     }
                 }
-- 
2.43.0


From 69b8ddfb836972c258c10b606b626c59703629aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:58 +0000
Subject: [PATCH 34/38] fix: a path segment of 32 characters that is not a hash
 is kept in module names

---
 crates/symbolicator-js/src/utils.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index 411454a..e3a7102 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -149,9 +149,7 @@ pub fn generate_module(abs_path: &str) -> String {
     // return all the segments following a 32/40-char hash
     let mut segments = path.split('/');
     while let Some(segment) = segments.next() {
-        if segment.len() == 32
-            || segment.len() == 40 && segment.chars().all(|c| c.is_ascii_hexdigit())
-        {
+        if matches!(segment.len(), 32 | 40) && segment.chars().all(|c| c.is_ascii_hexdigit()) {
             let mut s = String::new();
             for (i, seg) in segments.enumerate() {
                 if i > 0 {
-- 
2.43.0


From 9b7fece1cbc86ce10384c2f444a59cd6226d9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:58 +0000
Subject: [PATCH 35/38] fix: a ProGuard file that cannot be decompressed is
 reported as invalid instead of panicking

---
 crates/symbolicator-proguard/src/symbolication.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-proguard/src/symbolication.rs b/crates/symbolicator-proguard/src/symbolication.rs
index 49c43de..563defe 100644
--- a/crates/symbolicator-proguard/src/symbolication.rs
+++ b/crates/symbolicator-proguard/src/symbolication.rs
@@ -65,11 +65,11 @@ impl ProguardService {
                     }
                     let kind = match e {
                         CacheError::Malformed(msg) => match msg.as_str() {
-                            "The file is not a valid ProGuard file" => ProguardErrorKind::Invalid,
                             "The ProGuard file doesn't contain any line mappings" => {
                                 ProguardErrorKind::NoLineInfo
                             }
-                            _ => unreachable!(),
+                            // Either the file is not a ProGuard file, or it couldn't be decompressed.
+                            _ => ProguardErrorKind::Invalid,
                         },
                         _ => ProguardErrorKind::Missing,
                     };
-- 
2.43.0


From 6324dfc98516ff0e101069ba480b3a8038b574c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:41 +0000
Subject: [PATCH 36/38] fix: the symbol server proxy finds files whose names
 have capital letters outside of ASCII

---
 crates/symbolicator-sources/src/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 41b742b..22c56ab 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -480,7 +480,7 @@ pub fn parse_symstore_path(path: &str) -> Option<(&'static [FileType], ObjectId)
     let trailing_fn = split.next()?;
 
     let leading_fn_lower = leading_fn.to_lowercase();
-    if !leading_fn_lower.eq_ignore_ascii_case(trailing_fn) {
+    if leading_fn_lower != trailing_fn.to_lowercase() {
         return None;
     }
 
-- 
2.43.0


From de7e21f63c182544a38e2c254771eb0c61267e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:41 +0000
Subject: [PATCH 37/38] fix: symsorter reports the number of source bundles it
 created

---
 crates/symsorter/src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index 089e990..bfe72e1 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -424,7 +424,7 @@ fn execute(cli: Cli) -> Result<()> {
             let (debug_files_sorted, source_bundles_created) =
                 sort_files(&sort_config, vec![path])?;
             debug_files += debug_files_sorted;
-            source_bundles *= source_bundles_created;
+            source_bundles += source_bundles_created;
         }
     } else {
         if let Some(bundle_id) = cli.bundle_id {
@@ -433,7 +433,7 @@ fn execute(cli: Cli) -> Result<()> {
         }
         let (debug_files_sorted, source_bundles_created) = sort_files(&sort_config, cli.input)?;
         debug_files += debug_files_sorted;
-        source_bundles *= source_bundles_created;
+        source_bundles += source_bundles_created;
     }
 
     log!();
-- 
2.43.0


From 6ed758480befd2d770030cff2c234fe79a70bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:14 +0000
Subject: [PATCH 38/38] fix: read symstore index segments that are not UTF-8

A single byte outside of UTF-8, such as in a local path, made the
segment fail to load, and with it the whole index of the source.
---
 crates/symbolicator-sources/src/index.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-sources/src/index.rs b/crates/symbolicator-sources/src/index.rs
index ea1d30b..040c5b0 100644
--- a/crates/symbolicator-sources/src/index.rs
+++ b/crates/symbolicator-sources/src/index.rs
@@ -76,11 +76,16 @@ impl SymstoreIndex {
     }
 
     /// Parses a `SymstoreIndex` from a reader.
+    ///
+    /// The files are not necessarily UTF-8, for example if they contain local paths in the
+    /// code page of the machine the symbols were uploaded from.
     pub fn parse_from_reader<R: BufRead>(reader: R) -> io::Result<Self> {
         let mut out = Self::default();
-        for line in reader.lines() {
+        for line in reader.split(b'\n') {
             let line = line?;
-            match Self::parse_line(&line) {
+            let line = String::from_utf8_lossy(&line);
+            let line = line.strip_suffix('\r').unwrap_or(&line);
+            match Self::parse_line(line) {
                 Some(parsed) => {
                     out.files.insert(parsed);
                 }
-- 
2.43.0

