From afc6d1ce5c93d472eab0fd57c3f728dd3edcc595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 01/44] fix: do not build source locations from empty or
 relative file names

A code or debug file whose basename is empty, `.` or `..` produced locations like
`/<id>/symbols` or `../<id>/symbols`, which leave the root of the source.
---
 crates/symbolicator-sources/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/types.rs b/crates/symbolicator-sources/src/types.rs
index 80b556c..0e37a7d 100644
--- a/crates/symbolicator-sources/src/types.rs
+++ b/crates/symbolicator-sources/src/types.rs
@@ -153,9 +153,13 @@ impl ObjectId {
 ///
 /// The basename is valid if:
 /// - it is not longer than 255 bytes and
-/// - does not contain a control character
+/// - does not contain a control character and
+/// - actually names a file, i.e. it is neither empty nor one of `.` and `..`
 fn valid_file_name(file_name: &str) -> Option<&str> {
     let basename = split_path(file_name).1;
+    if matches!(basename, "" | "." | "..") {
+        return None;
+    }
     if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
         return Some(basename);
     }
-- 
2.43.0


From 4c36a9bb5c7db4f1ec585a0110dc0834834edc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 02/44] fix: no debuginfod location for an empty build id

An empty code id resulted in the absolute location `/executable`.
---
 crates/symbolicator-sources/src/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 36c86d8..94561e5 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -306,11 +306,11 @@ fn get_symstore_index2_path(filetype: FileType, identifier: &ObjectId) -> Option
 fn get_debuginfod_path(filetype: FileType, identifier: &ObjectId) -> Option<String> {
     match filetype {
         FileType::ElfCode => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
+            let code_id = identifier.code_id.as_ref().filter(|id| !id.is_nil())?;
             Some(format!("{code_id}/executable"))
         }
         FileType::ElfDebug => {
-            let code_id = identifier.code_id.as_ref()?.as_str();
+            let code_id = identifier.code_id.as_ref().filter(|id| !id.is_nil())?;
             Some(format!("{code_id}/debuginfo"))
         }
 
-- 
2.43.0


From 461f413b285a5e689533a7d1402c0a8d72fc0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 03/44] fix: replace .exe and .dll extensions in breakpad
 locations

Every step of the chain fell back to the unmodified name, so that only `.pdb`
was ever replaced by `.sym`.
---
 crates/symbolicator-sources/src/paths.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 94561e5..46ab20a 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -107,10 +107,8 @@ fn get_breakpad_path(identifier: &ObjectId) -> Option<String> {
     let debug_id = identifier.debug_id.as_ref()?;
     let new_debug_file = debug_file
         .strip_suffix(".exe")
-        .unwrap_or(debug_file)
-        .strip_suffix(".dll")
-        .unwrap_or(debug_file)
-        .strip_suffix(".pdb")
+        .or_else(|| debug_file.strip_suffix(".dll"))
+        .or_else(|| debug_file.strip_suffix(".pdb"))
         .unwrap_or(debug_file);
 
     Some(format!(
-- 
2.43.0


From b3b101d73ba524cc4a892e23dc5db7fcbe0c151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 04/44] fix: accept symstore paths with non-ASCII uppercase
 file names

The leading name was lowercased fully, but compared ASCII-insensitively.
---
 crates/symbolicator-sources/src/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 46ab20a..a0de028 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -481,7 +481,7 @@ pub fn parse_symstore_path(path: &str) -> Option<(&'static [FileType], ObjectId)
     let trailing_fn = split.next()?;
 
     let leading_fn_lower = leading_fn.to_lowercase();
-    if !leading_fn_lower.eq_ignore_ascii_case(trailing_fn) {
+    if leading_fn_lower != trailing_fn.to_lowercase() {
         return None;
     }
 
-- 
2.43.0


From 7379f25eb01368368fe6b8fdb262f86ad6c07370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 05/44] fix: treat backslashes in path patterns as separators

`\` is documented to be equal to `/`, but only paths were normalized, so that a
pattern containing a backslash could never match.
---
 crates/symbolicator-sources/src/paths.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index a0de028..b05a858 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -1,6 +1,7 @@
 use std::borrow::Cow;
 use std::fmt::Write;
 
+use glob::Pattern;
 use symbolic::common::{CodeId, DebugId, Uuid};
 
 use crate::filetype::FileType;
@@ -573,6 +574,16 @@ pub fn matches_path_patterns(object_id: &ObjectId, patterns: &[Glob]) -> bool {
     }
 
     for pattern in patterns {
+        // Both separators are treated as equal in the pattern as well as in the path.
+        let pattern = if pattern.as_str().contains('\\') {
+            Cow::Owned(
+                Pattern::new(&canonicalize_path(pattern.as_str()))
+                    .unwrap_or_else(|_| pattern.0.clone()),
+            )
+        } else {
+            Cow::Borrowed(&pattern.0)
+        };
+
         if let Some(ref path) = object_id.code_file {
             if pattern.matches_with(&canonicalize_path(path), GLOB_OPTIONS) {
                 return true;
-- 
2.43.0


From b8e4fd6d6a6af6c909649578ce46cab863a3dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 06/44] fix: keep bucket and key in URIs of unusual keys

Joining the key as a URL reference interpreted `:` as a scheme, `?` and `#` as
delimiters, and trimmed surrounding whitespace.
---
 crates/symbolicator-sources/src/remotefile.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-sources/src/remotefile.rs b/crates/symbolicator-sources/src/remotefile.rs
index 4a280de..6596767 100644
--- a/crates/symbolicator-sources/src/remotefile.rs
+++ b/crates/symbolicator-sources/src/remotefile.rs
@@ -342,8 +342,12 @@ impl RemoteFileUri {
     /// ```
     pub fn from_parts(scheme: &str, host: &str, path: &str) -> Self {
         Url::parse(&format!("{scheme}://{host}/"))
-            .and_then(|base| base.join(path))
-            .map(|url| RemoteFileUri::new(url.as_str()))
+            .map(|mut url| {
+                if let Ok(mut segments) = url.path_segments_mut() {
+                    segments.pop_if_empty().extend(path.split('/'));
+                }
+                RemoteFileUri::new(url.as_str())
+            })
             .unwrap_or_else(|_| {
                 // All these Result-returning operations *should* be infallible and this
                 // branch should never be used.  Nevertheless, for panic-safety we default
-- 
2.43.0


From 13219a339cc5369b466231abcd7e468c0913e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 07/44] fix: keep trailing slash when fetching a plain URL

Remote files created from an absolute URL have an empty location, and lost the
trailing slash of the URL they were created for.
---
 crates/symbolicator-sources/src/remotefile.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/symbolicator-sources/src/remotefile.rs b/crates/symbolicator-sources/src/remotefile.rs
index 6596767..42cd300 100644
--- a/crates/symbolicator-sources/src/remotefile.rs
+++ b/crates/symbolicator-sources/src/remotefile.rs
@@ -69,6 +69,11 @@ impl SourceLocation {
             .map_err(|_| anyhow::Error::msg("URL cannot-be-a-base"))?
             .pop_if_empty()
             .extend(self.segments());
+
+        // There is nothing to append, so the base is already the final URL.
+        if self.segments().next().is_none() {
+            return Ok(base.clone());
+        }
         Ok(joined)
     }
 }
-- 
2.43.0


From a6be3863c19ebd95aa100f39c4c6030d531ad3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:21 +0000
Subject: [PATCH 08/44] fix: S3 credentials differ by their provider

Clients are cached by S3 source key. Without the provider in its identity, a
client using container credentials was reused for static credentials and vice
versa.
---
 crates/symbolicator-sources/src/sources/s3.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-sources/src/sources/s3.rs b/crates/symbolicator-sources/src/sources/s3.rs
index 63f89dd..b033954 100644
--- a/crates/symbolicator-sources/src/sources/s3.rs
+++ b/crates/symbolicator-sources/src/sources/s3.rs
@@ -132,7 +132,7 @@ where
 ///
 /// For details on the AWS side, see:
 /// <https://docs.aws.amazon.com/AmazonECS/latest/developerguide/task-iam-roles.html>.
-#[derive(Clone, Copy, Debug, Deserialize, Serialize)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Deserialize, Serialize)]
 #[serde(rename_all = "lowercase")]
 #[derive(Default)]
 pub enum AwsCredentialsProvider {
@@ -187,7 +187,8 @@ impl From<&str> for S3Region {
 
 impl PartialEq for S3SourceKey {
     fn eq(&self, other: &S3SourceKey) -> bool {
-        self.access_key == other.access_key
+        self.aws_credentials_provider == other.aws_credentials_provider
+            && self.access_key == other.access_key
             && self.secret_key == other.secret_key
             && self.region == other.region
     }
@@ -197,6 +198,7 @@ impl Eq for S3SourceKey {}
 
 impl std::hash::Hash for S3SourceKey {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.aws_credentials_provider.hash(state);
         self.access_key.hash(state);
         self.secret_key.hash(state);
         self.region.hash(state);
-- 
2.43.0


From cdcfd9ea82791945e105bc42bdef9c61644eeb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 09/44] fix: count created source bundles

The counter started at zero and was multiplied, so symsorter always
reported that no source bundle was created.
---
 crates/symsorter/src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index beeadb1..face3f5 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -357,7 +357,7 @@ fn execute(cli: Cli) -> Result<()> {
             let (debug_files_sorted, source_bundles_created) =
                 sort_files(&sort_config, vec![path])?;
             debug_files += debug_files_sorted;
-            source_bundles *= source_bundles_created;
+            source_bundles += source_bundles_created;
         }
     } else {
         if let Some(bundle_id) = cli.bundle_id {
@@ -366,7 +366,7 @@ fn execute(cli: Cli) -> Result<()> {
         }
         let (debug_files_sorted, source_bundles_created) = sort_files(&sort_config, cli.input)?;
         debug_files += debug_files_sorted;
-        source_bundles *= source_bundles_created;
+        source_bundles += source_bundles_created;
     }
 
     log!();
-- 
2.43.0


From 56c9a6b415c00f1bba51528644369e3f762996b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 10/44] fix: a duplicate slice does not drop the rest of a fat
 archive

Skipping one object that exists already also skipped the remaining objects of
the same file and forgot those stored before, which were then missing from
the bundle.
---
 crates/symsorter/src/app.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index face3f5..b858507 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -169,7 +169,7 @@ fn process_file(
                     new_filename.display(),
                     get_unified_id(&obj)?,
                 );
-                return Ok(vec![]);
+                continue;
             }
             Err(e) => return Err(e.into()),
         };
-- 
2.43.0


From 265e1f13600825608e4c9010cad2683c897f0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 11/44] fix: symsorter stores files atomically and keeps their
 metadata

- A run that was interrupted or ran out of space left a partial file behind,
  which later runs took for a duplicate: the file was never completed.
- The metadata of an existing file was overwritten with that of the duplicate
  that was skipped, also by concurrent workers.
---
 crates/symsorter/src/app.rs | 55 +++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index b858507..e82174c 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeSet, HashMap};
 use std::fs;
 use std::io;
 use std::ops::Deref;
@@ -82,6 +82,9 @@ pub struct BundleMeta {
     pub debug_ids: Vec<String>,
 }
 
+/// The target files which were written by this process, or are being written.
+static CLAIMED_TARGETS: Mutex<BTreeSet<PathBuf>> = Mutex::new(BTreeSet::new());
+
 fn process_file(
     sort_config: &SortConfig,
     bv: ByteView<'static>,
@@ -140,6 +143,22 @@ fn process_file(
             fs::write(refs_path.join(bundle_id), b"")?;
         }
 
+        // Whoever claims the target first stores it, including its metadata.
+        let claimed = CLAIMED_TARGETS
+            .lock()
+            .unwrap()
+            .insert(new_filename.clone());
+        if !claimed || new_filename.exists() {
+            eprintln!(
+                "{}: File {} already exists, you seem to have duplicate debug files for ID {}.\n\
+                Skipping {filename}.",
+                style("WARNING").red().bold(),
+                new_filename.display(),
+                get_unified_id(&obj)?,
+            );
+            continue;
+        }
+
         let meta = DebugIdMeta {
             name: Some(filename.clone()),
             arch: Some(obj.arch()),
@@ -159,25 +178,21 @@ fn process_file(
             style(new_filename.display()).cyan(),
         );
 
-        let mut out = match fs::File::create_new(&new_filename) {
-            Ok(out) => out,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                eprintln!(
-                    "{}: File {} already exists, you seem to have duplicate debug files for ID {}.\n\
-                    Skipping {filename}.",
-                    style("WARNING").red().bold(),
-                    new_filename.display(),
-                    get_unified_id(&obj)?,
-                );
-                continue;
-            }
-            Err(e) => return Err(e.into()),
-        };
-
-        if compression_level > 0 {
-            copy_encode(obj.data(), &mut out, compression_level)?;
-        } else {
-            io::copy(&mut obj.data(), &mut out)?;
+        // The file appears under its final name only once it is complete.  Otherwise a partial file
+        // would be taken for a duplicate and never be completed by later runs.
+        let temp_filename = new_filename.with_extension("tmp");
+        let written = fs::File::create(&temp_filename)
+            .and_then(|mut out| {
+                if compression_level > 0 {
+                    copy_encode(obj.data(), &mut out, compression_level)
+                } else {
+                    io::copy(&mut obj.data(), &mut out).map(|_| ())
+                }
+            })
+            .and_then(|()| fs::rename(&temp_filename, &new_filename));
+        if let Err(err) = written {
+            fs::remove_file(&temp_filename).ok();
+            return Err(err.into());
         }
         let unified_id = maybe_ignore_error!(get_unified_id(&obj));
         rv.push((unified_id, obj.kind()));
-- 
2.43.0


From 5db98cdfe98835c379acd2c1c95129370347b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 12/44] fix: report an error for objects with too short an
 identifier

symsorter crashed on a WASM file with an empty build id, also with
--ignore-errors.
---
 crates/symsorter/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/symsorter/src/utils.rs b/crates/symsorter/src/utils.rs
index 9c11096..d5b64f2 100644
--- a/crates/symsorter/src/utils.rs
+++ b/crates/symsorter/src/utils.rs
@@ -54,6 +54,9 @@ pub fn get_unified_id(obj: &Object) -> Result<String> {
 /// Returns the intended target filename for an object.
 pub fn get_target_filename(obj: &Object) -> Result<PathBuf> {
     let id = get_unified_id(obj)?;
+    let (Some(prefix), Some(rest)) = (id.get(..2), id.get(2..)) else {
+        bail!("identifier {id:?} is too short");
+    };
     // match the unified format here.
     let suffix = match obj.kind() {
         ObjectKind::Debug => "debuginfo",
@@ -61,7 +64,7 @@ pub fn get_target_filename(obj: &Object) -> Result<PathBuf> {
         ObjectKind::Library | ObjectKind::Executable => "executable",
         _ => bail!("unsupported file"),
     };
-    Ok(format!("{}/{}/{}", &id[..2], &id[2..], suffix).into())
+    Ok(format!("{prefix}/{rest}/{suffix}").into())
 }
 
 // Filters very large files, embedded source files, and Precompiled headers from Source bundles.
-- 
2.43.0


From a842587af8f316cb2cd55655088c7481c2454e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 13/44] fix: wasm-split always writes the output file it was
 asked for

With `-o` and a module that already had a build id, no output file was
written at all unless something else had to be changed.
---
 crates/wasm-split/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 1402b06..7f8e95b 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -143,8 +143,8 @@ fn main() -> anyhow::Result<()> {
             .push(CustomSection::ExternalDebugInfo(external_dwarf_url.into()).into());
     }
 
-    // main module
-    if should_write_main_module {
+    // main module.  An explicitly requested output is always written.
+    if should_write_main_module || cli.out.is_some() {
         let output = cli.out.as_ref().unwrap_or(&cli.input);
         module.encode_into(BufWriter::new(File::create(output)?))?;
     }
-- 
2.43.0


From 3ed315f061f163c1470207a92b7420143d712451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 14/44] fix: wasm-split reports errors of its last writes

The buffered writers were dropped without being flushed, so that an error
such as a full disk was ignored and a truncated module reported as success.
---
 crates/wasm-split/src/main.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 7f8e95b..c19152a 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -9,7 +9,7 @@
 
 use clap::Parser;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::PathBuf;
 use uuid::Uuid;
 use wasmbin::sections::{CustomSection, Section};
@@ -69,6 +69,13 @@ fn is_strippable_section(section: &Section, strip_names: bool) -> bool {
     })
 }
 
+/// Writes the module into the file, reporting all errors.
+fn write_module(module: &Module, file: File) -> anyhow::Result<()> {
+    let mut writer = module.encode_into(BufWriter::new(file))?;
+    writer.flush()?;
+    Ok(())
+}
+
 fn main() -> anyhow::Result<()> {
     let cli = Cli::parse();
 
@@ -110,7 +117,7 @@ fn main() -> anyhow::Result<()> {
         // That said, this limitation might actually turn out to be a good thing.
         // On other platforms we also generally require that we get access to
         // the binary for eh_frame and friends.
-        module.encode_into(BufWriter::new(File::create(debug_output)?))?;
+        write_module(&module, File::create(debug_output)?)?;
     }
 
     // do we want to strip debug data from main file?
@@ -146,7 +153,7 @@ fn main() -> anyhow::Result<()> {
     // main module.  An explicitly requested output is always written.
     if should_write_main_module || cli.out.is_some() {
         let output = cli.out.as_ref().unwrap_or(&cli.input);
-        module.encode_into(BufWriter::new(File::create(output)?))?;
+        write_module(&module, File::create(output)?)?;
     }
 
     // always print the build id.
-- 
2.43.0


From d988c8b00279ba0c558089da7d77aa5fdc62e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 15/44] fix: wasm-split never leaves a partial module when
 modifying in place

A crash or a full disk while the module was being written back destroyed
the input file.
---
 crates/wasm-split/src/main.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index c19152a..11fce2a 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -8,9 +8,9 @@
 )]
 
 use clap::Parser;
-use std::fs::File;
+use std::fs::{self, File};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use uuid::Uuid;
 use wasmbin::sections::{CustomSection, Section};
 use wasmbin::Module;
@@ -76,6 +76,29 @@ fn write_module(module: &Module, file: File) -> anyhow::Result<()> {
     Ok(())
 }
 
+/// Replaces the file with the module, such that it is never found incomplete.
+fn replace_module(module: &Module, path: &Path) -> anyhow::Result<()> {
+    // follow symlinks, so that it is their target which is replaced
+    let path = path.canonicalize()?;
+    let original = File::options().write(true).open(&path)?;
+
+    let mut temp_path = path.clone().into_os_string();
+    temp_path.push(".tmp");
+    let temp_path = PathBuf::from(temp_path);
+
+    let write = || {
+        let file = File::create(&temp_path)?;
+        file.set_permissions(original.metadata()?.permissions())?;
+        write_module(module, file)?;
+        fs::rename(&temp_path, &path)?;
+        Ok(())
+    };
+
+    write().inspect_err(|_| {
+        fs::remove_file(&temp_path).ok();
+    })
+}
+
 fn main() -> anyhow::Result<()> {
     let cli = Cli::parse();
 
@@ -152,8 +175,10 @@ fn main() -> anyhow::Result<()> {
 
     // main module.  An explicitly requested output is always written.
     if should_write_main_module || cli.out.is_some() {
-        let output = cli.out.as_ref().unwrap_or(&cli.input);
-        write_module(&module, File::create(output)?)?;
+        match cli.out.as_ref() {
+            Some(output) => write_module(&module, File::create(output)?)?,
+            None => replace_module(&module, &cli.input)?,
+        }
     }
 
     // always print the build id.
-- 
2.43.0


From 9f75f639257d7f4d35ab76740d0738fa3f5c27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 16/44] fix: do not panic on cache entries without expiration

Cache durations may be configured as `null` to disable expiration, which
is represented as `Duration::MAX`. Adding that to an `Instant` panics.
---
 crates/symbolicator-service/src/caching/fs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index b1776d6..a634616 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -22,6 +22,9 @@ use super::{CacheContents, CacheEntry, CacheError, CacheName, Metadata};
 /// This is being debounced to once every hour to not have to touch them on every single use.
 const TOUCH_EVERY: Duration = Duration::from_secs(3600);
 
+/// Roughly 30 years, used for entries that never expire.
+const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
+
 /// Extension for [`Metadata`] files.
 pub(crate) const METADATA_EXTENSION: &str = "metadata";
 
@@ -383,7 +386,9 @@ impl ExpirationTime {
             ExpirationTime::RefreshIn(d) => d,
             ExpirationTime::TouchIn(d) => d,
         };
-        Instant::now() + *duration
+        // Without expiration the duration is too large to be added to an `Instant`.
+        let now = Instant::now();
+        now.checked_add(*duration).unwrap_or(now + FAR_FUTURE)
     }
 }
 
-- 
2.43.0


From 366e7eabc51308c625bf8b9e9676683ce6df0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 17/44] fix: honour retry_misses_after_public for entries kept
 in memory

A freshly computed negative entry of a public source was kept in memory
for `retry_misses_after`, so with a shorter `retry_misses_after_public`
it was served after its configured lifetime.
---
 crates/symbolicator-service/src/caching/fs.rs   | 17 ++++++++++++-----
 .../symbolicator-service/src/caching/memory.rs  |  8 ++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index a634616..a427479 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -353,19 +353,26 @@ pub enum ExpirationTime {
 }
 
 impl ExpirationTime {
-    /// Gives the [`ExpirationTime`] for a freshly created cache with the given [`CacheContents`].
-    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheContents<T>) -> Self {
+    /// Gives the [`ExpirationTime`] for a freshly created [`CacheEntry`].
+    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheEntry<T>) -> Self {
         let config = &cache.cache_config;
-        let strategy = expiration_strategy(entry);
+        let strategy = expiration_strategy(entry.contents());
         match strategy {
             ExpirationStrategy::None => {
                 // we want to touch good caches once every hour
                 Self::TouchIn(Duration::from_secs(3600))
             }
             ExpirationStrategy::Negative => {
-                let retry_misses_after = config.retry_misses_after().unwrap_or(Duration::MAX);
+                let is_public = entry
+                    .metadata()
+                    .is_some_and(|md| md.scope == Scope::Global);
+                let retry_misses_after = if is_public {
+                    config.retry_misses_after_public()
+                } else {
+                    config.retry_misses_after()
+                };
 
-                Self::RefreshIn(retry_misses_after)
+                Self::RefreshIn(retry_misses_after.unwrap_or(Duration::MAX))
             }
             ExpirationStrategy::Malformed => {
                 let retry_malformed_after = config.retry_malformed_after().unwrap_or(Duration::MAX);
diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 0fda977..298e87e 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -440,10 +440,10 @@ impl<T: CacheItemRequest> Cacher<T> {
                     Err(CacheError::NotFound) => continue,
                     Err(err) => {
                         let contents = Err(err);
-                        let deadline =
-                            ExpirationTime::for_fresh_status(&self.config, &contents).as_instant();
                         let metadata = Some(Metadata::from_key(cache_key));
                         let data = CacheEntry { metadata, contents };
+                        let deadline =
+                            ExpirationTime::for_fresh_status(&self.config, &data).as_instant();
                         return Some(InMemoryItem { deadline, data });
                     }
                     Ok((item, needs_reupload)) => {
@@ -533,7 +533,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             .await;
 
         // we just created a fresh cache, so use the initial expiration times
-        let expiration = ExpirationTime::for_fresh_status(&self.config, data.contents());
+        let expiration = ExpirationTime::for_fresh_status(&self.config, &data);
 
         InMemoryItem {
             deadline: expiration.as_instant(),
@@ -592,7 +592,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             let data = this.compute(request, &cache_key, true).await;
 
             // we just created a fresh cache, so use the initial expiration times
-            let expiration = ExpirationTime::for_fresh_status(&this.config, data.contents());
+            let expiration = ExpirationTime::for_fresh_status(&this.config, &data);
             let value = InMemoryItem {
                 deadline: expiration.as_instant(),
                 data,
-- 
2.43.0


From 9e5fa1760a29bfaf0dc3f986569c06e9f3393a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 18/44] fix: report errors when writing cache error markers

`tokio::fs::File` writes in the background and reports errors on the
next write or flush. Without a flush the error was dropped, and a
truncated marker was persisted, which is read back as another error.
---
 crates/symbolicator-service/src/caching/cache_error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/cache_error.rs b/crates/symbolicator-service/src/caching/cache_error.rs
index 66ce1a1..dc75cfc 100644
--- a/crates/symbolicator-service/src/caching/cache_error.rs
+++ b/crates/symbolicator-service/src/caching/cache_error.rs
@@ -118,6 +118,8 @@ impl CacheError {
             }
         }
 
+        // Writes happen in the background. Errors are lost unless the file is flushed.
+        file.flush().await?;
         let new_len = file.stream_position().await?;
         file.set_len(new_len).await?;
 
-- 
2.43.0


From 2989345200bf3a04584c364b6b9fd3562adc64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0000
Subject: [PATCH 19/44] fix: cleanup keeps directories of files it failed to
 check

---
 crates/symbolicator-service/src/caching/cleanup.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index ebd5d0d..577fb75 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -237,6 +237,8 @@ impl Cache {
                                     },
                                     || tracing::error!("Failed to clean cache file: {:?}", e),
                                 );
+                                // The file may well still be alive, so its directory has to stay.
+                                is_empty = false;
                             }
                             Ok((file_removed, file_stats)) => {
                                 is_empty &= file_removed;
-- 
2.43.0


From 154cbff0132df03122b782db82f5d2491df82f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 20/44] fix: apply the source index cache's own
 max_lazy_recomputations

---
 crates/symbolicator-service/src/caching/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/mod.rs b/crates/symbolicator-service/src/caching/mod.rs
index a32c391..1a00d2d 100644
--- a/crates/symbolicator-service/src/caching/mod.rs
+++ b/crates/symbolicator-service/src/caching/mod.rs
@@ -214,6 +214,9 @@ impl Caches {
         let max_lazy_recomputations = Arc::new(AtomicIsize::new(
             config.caches.derived.max_lazy_recomputations.max(1),
         ));
+        let max_lazy_index_recomputations = Arc::new(AtomicIsize::new(
+            config.caches.index.max_lazy_recomputations.max(1),
+        ));
 
         // NOTE: A small cache item with all its structures is around ~100 bytes, which gives us an
         // approximate upper bound of items in the cache.
@@ -298,14 +301,14 @@ impl Caches {
                 CacheName::Proguard,
                 config,
                 config.caches.downloaded.into(),
-                max_lazy_redownloads.clone(),
+                max_lazy_redownloads,
                 default_cap,
             )?,
             source_index: Cache::from_config(
                 CacheName::SourceIndex,
                 config,
                 config.caches.index.into(),
-                max_lazy_redownloads,
+                max_lazy_index_recomputations,
                 in_memory.source_index_capacity,
             )?,
         })
-- 
2.43.0


From 67d82ed68ab072fedd2163dff213986a27c640e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 21/44] fix: do not mix partial contents from the shared cache
 into computed items

---
 crates/symbolicator-service/src/caching/memory.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 298e87e..8070627 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -271,6 +271,16 @@ impl<T: CacheItemRequest> Cacher<T> {
             Some(entry) => entry,
             None => {
                 metric!(counter("caches.computation") += 1, "cache" => name.as_ref());
+
+                // A failed fetch from the shared cache may have left partial contents in the temp
+                // file (or may still be writing to it), so the computation gets a new one.
+                if self.shared_cache(&request).is_some() {
+                    temp_file = match self.config.tempfile() {
+                        Ok(temp_file) => temp_file,
+                        Err(e) => return CacheEntry::from_err(e),
+                    };
+                }
+
                 match request.compute(&mut temp_file).await {
                     Ok(()) => {
                         // Now we have written the data to the tempfile we can mmap it, persisting it later
-- 
2.43.0


From 2d42eee0cf94febf05d791ea88b5a4d267efe5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:13 +0000
Subject: [PATCH 22/44] fix: report failures to write the tail of a download

Writes to a tokio file are buffered, an error of the last write is only returned when flushing. A WriteStream must also write the entire buffer, not only as much as the file accepts at once.
---
 crates/symbolicator-service/src/download/destination.rs | 4 ++--
 crates/symbolicator-service/src/download/mod.rs         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/symbolicator-service/src/download/destination.rs b/crates/symbolicator-service/src/download/destination.rs
index 4c9bee9..14577ca 100644
--- a/crates/symbolicator-service/src/download/destination.rs
+++ b/crates/symbolicator-service/src/download/destination.rs
@@ -15,7 +15,7 @@ use std::{io::Write, sync::Arc};
 pub trait WriteStream: Send {
     /// Attempts to write an entire buffer into this writer.
     ///
-    /// See also: [`AsyncWriteExt::write_buf`].
+    /// See also: [`AsyncWriteExt::write_all_buf`].
     fn write_buf(&mut self, buf: Bytes) -> impl Future<Output = io::Result<()>> + Send;
 }
 
@@ -24,7 +24,7 @@ where
     T: AsyncWrite + Unpin + Send,
 {
     async fn write_buf(&mut self, mut buf: Bytes) -> io::Result<()> {
-        AsyncWriteExt::write_buf(self, &mut buf).await.map(|_| ())
+        AsyncWriteExt::write_all_buf(self, &mut buf).await
     }
 }
 
diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index f928bf5..2cd2d9b 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -313,8 +313,8 @@ impl DownloadService {
                     self.fs.download_source(source, &mut destination).await
                 }
             };
-            let _ = destination.flush().await;
-            result
+            // The file buffers writes, an error writing the last of them only surfaces here.
+            result.and(destination.flush().await.map_err(CacheError::from))
         })
         .await;
 
@@ -708,7 +708,7 @@ async fn do_download_reqwest_range(
             while futures.try_next().await?.is_some() {}
             drop(futures);
 
-            let _ = destination.flush().await;
+            destination.flush().await?;
 
             Ok(())
         }
-- 
2.43.0


From d5b4060879478fba343f4b2cb5d30b3f976a1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 23/44] fix: validate the ranges a server replies with

A download made of multiple ranges is only the requested file if the server replied with exactly the requested ranges: a part the server replied to with the entire file, with a different range or with too few bytes silently resulted in a corrupted file.
---
 .../symbolicator-service/src/download/mod.rs  | 91 +++++++++++++++++--
 .../src/download/partial.rs                   |  5 +
 2 files changed, 86 insertions(+), 10 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 2cd2d9b..e58bc26 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -13,7 +13,7 @@ use std::time::{Duration, Instant, SystemTime};
 use ::sentry::SentryFutureExt;
 use bytes::Bytes;
 use futures::{future::Either, prelude::*};
-use partial::BytesContentRange;
+use partial::{BytesContentRange, InvalidBytesRange};
 use reqwest::StatusCode;
 
 use stream::FuturesUnordered;
@@ -619,8 +619,15 @@ async fn do_download_reqwest_range(
         .execute()
         .await?;
 
+    // A range which does not start where it was requested to start, or which is not within the
+    // resource, is just as unusable as a malformed one.
+    let content_range = response.content_range().map(|range| match range {
+        Ok(range) if !range.is_initial() => Err(InvalidBytesRange::Malformed),
+        range => range,
+    });
+
     // Server supports range requests and just sent us the first batch.
-    match response.content_range() {
+    match content_range {
         // Server does not know about ranges and returns us the full contents.
         None if response.status().is_success() => {
             tracing::trace!(
@@ -689,17 +696,22 @@ async fn do_download_reqwest_range(
 
             let mut futures = FuturesUnordered::new();
 
-            let head = response.download(destination.stream(0, content_range.range().size()));
+            let head = response.download_range(
+                content_range,
+                destination.stream(0, content_range.range().size()),
+            );
             futures.push(Either::Left(head.send()));
 
             for range in partial::split(content_range) {
-                let request = request
-                    .try_clone()
-                    .ok_or(CacheError::InternalError)?
-                    .with_range(range);
+                let request = request.try_clone().ok_or(CacheError::InternalError)?;
+                let part = BytesContentRange {
+                    start: range.start,
+                    end: range.end,
+                    total_size: content_range.total_size,
+                };
 
                 let destination = destination.stream(range.start, range.size());
-                let partial = do_download_reqwest(request, destination).send();
+                let partial = do_download_reqwest_part(request, part, destination).send();
                 futures.push(Either::Right(partial));
             }
 
@@ -715,6 +727,30 @@ async fn do_download_reqwest_range(
     }
 }
 
+/// Downloads exactly the requested `part` of a resource into the `destination`.
+async fn do_download_reqwest_part(
+    request: SymRequest<'_>,
+    part: BytesContentRange,
+    destination: impl WriteStream,
+) -> CacheContents {
+    let source = request.to_source();
+    let response = request.with_range(part.range()).execute().await?;
+
+    match response.content_range() {
+        Some(Ok(content_range)) if content_range == part => {
+            response.download_range(part, destination).await
+        }
+        None if !response.status().is_success() => {
+            Err(status_to_error(&source, response.status()))
+        }
+        // The server ignored the range, replied with a different range or the resource changed,
+        // the response does not fit the other parts.
+        _ => Err(CacheError::DownloadError(format!(
+            "server did not reply with the requested range {part}"
+        ))),
+    }
+}
+
 /// Downloads the requested resource with a single download request into the `destination`.
 async fn do_download_reqwest(
     request: SymRequest<'_>,
@@ -860,7 +896,30 @@ impl SymResponse<'_> {
     }
 
     /// Downloads the resource into `destination`, applying timeouts.
-    async fn download(self, mut destination: impl WriteStream) -> CacheContents {
+    async fn download(self, destination: impl WriteStream) -> CacheContents {
+        self.download_exact(None, destination).await
+    }
+
+    /// Downloads a part of the resource into `destination`, applying timeouts.
+    ///
+    /// Fails if the response is not made up of exactly the bytes of the `part`.
+    async fn download_range(
+        self,
+        part: BytesContentRange,
+        destination: impl WriteStream,
+    ) -> CacheContents {
+        let size = part.range().size();
+        self.download_exact(Some(size), destination).await
+    }
+
+    /// Downloads the response into `destination`, applying timeouts.
+    ///
+    /// The response must be exactly `size` bytes long, if a `size` is specified.
+    async fn download_exact(
+        self,
+        size: Option<u64>,
+        mut destination: impl WriteStream,
+    ) -> CacheContents {
         // Use the content range, if available for a timeout, we're really just interested in
         // limiting the total time, not the time of individual requests.
         let timeout = BytesContentRange::from_response(&self.response)
@@ -873,12 +932,24 @@ impl SymResponse<'_> {
         let mut stream = self.response.bytes_stream().map_err(CacheError::from);
         // Transfer the contents, into the destination and track progress.
         tokio::time::timeout(timeout, async move {
+            let mut received = 0;
+
             while let Some(chunk) = stream.next().await.transpose()? {
+                received += chunk.len() as u64;
+                if size.is_some_and(|size| received > size) {
+                    break;
+                }
+
                 self.measure.add_bytes_transferred(chunk.len() as u64);
                 destination.write_buf(chunk).await?;
             }
 
-            Ok(())
+            match size {
+                Some(size) if size != received => Err(CacheError::DownloadError(
+                    "size of the response does not match its range".to_owned(),
+                )),
+                _ => Ok(()),
+            }
         })
         .await
         .map_err(|_| CacheError::Timeout(timeout))?
diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 798006d..47fe860 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -134,6 +134,11 @@ impl BytesContentRange {
         }
     }
 
+    /// Returns `true` if this is a valid range at the start of the resource.
+    pub fn is_initial(self) -> bool {
+        self.start == 0 && (self.end < self.total_size || self.total_size == 0)
+    }
+
     /// Parses a [`BytesContentRange`] from a [`reqwest::Response`].
     ///
     /// Returns `None` if the response is not a partial response.
-- 
2.43.0


From 60e01f8e6c126d48d87b9be201b34b640864c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 24/44] Split downloads into small ranges under cfg(vmc)

---
 crates/symbolicator-service/src/download/partial.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 47fe860..82511ad 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -9,8 +9,10 @@ const MAX_PARTIAL_RANGES: u64 = 4;
 
 /// The amount of bytes when a download should split into multiple parts,
 /// this essentially means the minimum split size is `PARTIAL_SPLIT_SIZE / 2`.
-#[cfg(not(test))]
+#[cfg(not(any(test, vmc)))]
 const PARTIAL_SPLIT_SIZE: u64 = 128 * 1024 * 1024;
+#[cfg(all(vmc, not(test)))]
+const PARTIAL_SPLIT_SIZE: u64 = 4;
 #[cfg(test)]
 const PARTIAL_SPLIT_SIZE: u64 = 100;
 
-- 
2.43.0


From ccb9da00c8424334cc162514d507d74f272485b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:41 +0000
Subject: [PATCH 25/44] fix: do not take a partial response without a range for
 the entire file

A partial response always has a Content-Range, without one it is unknown which part of the file it contains.
---
 crates/symbolicator-service/src/download/partial.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 82511ad..e22ad06 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -149,11 +149,14 @@ impl BytesContentRange {
             return None;
         }
 
-        response
+        let range = response
             .headers()
             .get(reqwest::header::CONTENT_RANGE)
             .and_then(|hv| hv.to_str().ok())
-            .map(|s| s.parse())
+            .ok_or(InvalidBytesRange::Malformed)
+            .and_then(|s| s.parse());
+
+        Some(range)
     }
 }
 
-- 
2.43.0


From ffaaf768e4eae428183f29d8d9a26ffa5a2fc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:39 +0000
Subject: [PATCH 26/44] fix: recognize zlib files of every compression level

Levels 2 to 5 announce themselves as 78 5e. Such files were kept compressed, as the symbol file itself.
---
 crates/symbolicator-service/src/download/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/compression.rs b/crates/symbolicator-service/src/download/compression.rs
index 6ad85a4..6931a96 100644
--- a/crates/symbolicator-service/src/download/compression.rs
+++ b/crates/symbolicator-service/src/download/compression.rs
@@ -64,7 +64,7 @@ pub fn maybe_decompress_file(src: &mut NamedTempFile) -> io::Result<()> {
             std::mem::swap(src, &mut dst);
         }
         // Magic bytes for zlib
-        [0x78, 0x01, _, _] | [0x78, 0x9c, _, _] | [0x78, 0xda, _, _] => {
+        [0x78, 0x01 | 0x5e | 0x9c | 0xda, _, _] => {
             metric!(counter("compression") += 1, "type" => "zlib");
 
             let mut dst = tempfile_in_parent(src)?;
-- 
2.43.0


From dbff48432a14bb809dd86287921ed9a9d56b85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:56 +0000
Subject: [PATCH 27/44] fix: report truncated zlib files

The zlib decoder silently ends with its input, so that a truncated file was taken for a shorter but complete one.
---
 .../src/download/compression.rs               | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-service/src/download/compression.rs b/crates/symbolicator-service/src/download/compression.rs
index 6931a96..7e5322e 100644
--- a/crates/symbolicator-service/src/download/compression.rs
+++ b/crates/symbolicator-service/src/download/compression.rs
@@ -1,7 +1,8 @@
-use std::io::{self, Read, Seek};
+use std::io::{self, BufRead, BufReader, Read, Seek, Write};
 use std::process::{Command, Stdio};
 
-use flate2::read::{MultiGzDecoder, ZlibDecoder};
+use flate2::read::MultiGzDecoder;
+use flate2::{Decompress, FlushDecompress, Status};
 use tempfile::NamedTempFile;
 
 /// Decompresses a downloaded file.
@@ -68,8 +69,7 @@ pub fn maybe_decompress_file(src: &mut NamedTempFile) -> io::Result<()> {
             metric!(counter("compression") += 1, "type" => "zlib");
 
             let mut dst = tempfile_in_parent(src)?;
-            let mut reader = ZlibDecoder::new(file);
-            io::copy(&mut reader, &mut dst)?;
+            decompress_zlib(file, &mut dst)?;
 
             std::mem::swap(src, &mut dst);
         }
@@ -128,6 +128,34 @@ pub fn maybe_decompress_file(src: &mut NamedTempFile) -> io::Result<()> {
     Ok(())
 }
 
+/// Decompresses a zlib stream.
+///
+/// Unlike [`flate2::read::ZlibDecoder`], this fails if `src` ends before the end of the stream.
+fn decompress_zlib(src: impl Read, dst: &mut impl Write) -> io::Result<()> {
+    let mut src = BufReader::new(src);
+    let mut decoder = Decompress::new(true);
+    let mut buf = vec![0; 32 * 1024];
+
+    loop {
+        let input = src.fill_buf()?;
+        let is_eof = input.is_empty();
+
+        let (total_in, total_out) = (decoder.total_in(), decoder.total_out());
+        let status = decoder.decompress(input, &mut buf, FlushDecompress::None)?;
+        let read = (decoder.total_in() - total_in) as usize;
+        let written = (decoder.total_out() - total_out) as usize;
+
+        src.consume(read);
+        dst.write_all(&buf[..written])?;
+
+        match status {
+            Status::StreamEnd => return Ok(()),
+            _ if is_eof && written == 0 => return Err(io::ErrorKind::UnexpectedEof.into()),
+            _ => {}
+        }
+    }
+}
+
 // FIXME(swatinem): this fn needs a better place
 pub fn tempfile_in_parent(file: &NamedTempFile) -> io::Result<NamedTempFile> {
     let dir = file
-- 
2.43.0


From 4bcb35713ea42030537d699ab8ea939273105de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:09 +0000
Subject: [PATCH 28/44] fix: do not take a failed download of an index segment
 for an empty one

---
 crates/symbolicator-service/src/download/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 38afbac..56a2ad4 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -179,7 +179,8 @@ async fn download_index_segment(
             source_id = %source.id(),
             segment,
             "Failed to download Symstore index segment",
-        )
+        );
+        return Err(e);
     }
 
     let buf = BufReader::new(temp_file);
-- 
2.43.0


From a531d2ffebe77b9413cf72f6b41eb455b6d5d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 29/44] fix: tell indexes of sources with the same id at
 different places apart

---
 .../symbolicator-service/src/download/index.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 56a2ad4..227b764 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -9,8 +9,8 @@ use moka::ops::compute::Op;
 use symbolic::common::{AccessPattern, ByteView};
 use symbolicator_sources::{
     DirectoryLayoutType, FilesystemRemoteFile, FilesystemSourceConfig, GcsRemoteFile,
-    GcsSourceConfig, HttpRemoteFile, HttpSourceConfig, RemoteFile, S3RemoteFile, S3SourceConfig,
-    SourceConfig, SourceId, SourceIndex, SourceLocation, SymstoreIndex,
+    GcsSourceConfig, HttpRemoteFile, HttpSourceConfig, RemoteFile, RemoteFileUri, S3RemoteFile,
+    S3SourceConfig, SourceConfig, SourceId, SourceIndex, SourceLocation, SymstoreIndex,
 };
 use tempfile::NamedTempFile;
 
@@ -93,6 +93,14 @@ impl IndexSourceConfig {
             IndexSourceConfig::S3(s3) => S3RemoteFile::new(Arc::clone(s3), loc).into(),
         }
     }
+
+    /// The location of the source's index.
+    ///
+    /// Source IDs can be chosen freely, so this tells sources with the same ID apart.
+    fn uri(&self) -> RemoteFileUri {
+        self.remote_file(SourceLocation::new(LASTID_FILE)).uri()
+    }
+
     /// Returns a key that uniquely identifies the source for metrics.
     ///
     /// If this is a built-in source the source_id is returned, otherwise this falls
@@ -222,6 +230,7 @@ async fn download_full_index(
         let mut cache_key = CacheKey::scoped_builder(&scope);
         writeln!(&mut cache_key, "type: symstore_segment").unwrap();
         writeln!(&mut cache_key, "source_id: {}", source.id()).unwrap();
+        writeln!(&mut cache_key, "location: {}", source.uri()).unwrap();
         writeln!(&mut cache_key, "segment: {i}").unwrap();
         let cache_key = cache_key.build();
         let result = cache.compute_memoized(request, cache_key).await;
@@ -318,7 +327,7 @@ pub struct SourceIndexService {
     /// An in-memory cache for keeping track of the last segment uploaded
     /// to a Symstore index.
     symstore_last_id_cache:
-        moka::future::Cache<(Scope, SourceId), (CacheContents<u32>, SystemTime)>,
+        moka::future::Cache<(Scope, SourceId, RemoteFileUri), (CacheContents<u32>, SystemTime)>,
     /// The download service to download index files.
     downloader: Arc<DownloadService>,
 }
@@ -379,7 +388,7 @@ impl SourceIndexService {
 
         let comp_result = self
             .symstore_last_id_cache
-            .entry((scope, source.id().clone()))
+            .entry((scope, source.id().clone(), source.uri()))
             .and_compute_with(|entry| async {
                 let now = SystemTime::now();
                 let Some(entry) = entry else {
@@ -489,6 +498,7 @@ impl SourceIndexService {
         let mut cache_key = CacheKey::scoped_builder(&scope);
         writeln!(&mut cache_key, "type: symstore").unwrap();
         writeln!(&mut cache_key, "source_id: {}", source.id()).unwrap();
+        writeln!(&mut cache_key, "location: {}", source.uri()).unwrap();
         writeln!(&mut cache_key, "last_id: {last_id}").unwrap();
         let cache_key = cache_key.build();
 
-- 
2.43.0


From 0a9999bb37929466ca9c1e5f99b9a2b398ccdca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:15 +0000
Subject: [PATCH 30/44] fix: search bundles for JS files in the same order
 whatever is cached

The cache of files found in artifact bundles was asked for all bundles of
an event before looking for the file by its debug ID, so an earlier event
could make a file be taken from the wrong bundle, or from a bundle that
could not be downloaded, whose source map is then taken to be empty.
---
 crates/symbolicator-js/src/bundle_lookup.rs | 48 ++++++++---------
 crates/symbolicator-js/src/lookup.rs        | 60 ++++++++++-----------
 2 files changed, 53 insertions(+), 55 deletions(-)

diff --git a/crates/symbolicator-js/src/bundle_lookup.rs b/crates/symbolicator-js/src/bundle_lookup.rs
index db59c7e..2ba6fbe 100644
--- a/crates/symbolicator-js/src/bundle_lookup.rs
+++ b/crates/symbolicator-js/src/bundle_lookup.rs
@@ -4,11 +4,13 @@ use std::time::Duration;
 use symbolicator_service::metric;
 use symbolicator_sources::RemoteFileUri;
 
-use crate::interface::ResolvedWith;
 use crate::lookup::{CachedFileEntry, FileKey};
 
-type FileInBundleCacheInner =
-    moka::sync::Cache<(RemoteFileUri, FileKey), (CachedFileEntry, ResolvedWith)>;
+/// The bundle, the [`FileKey`] being looked up, and the URL by which the file was found in the
+/// bundle. A file that was found by its `DebugId` has no such URL.
+type FileInBundleKey = (RemoteFileUri, FileKey, Option<String>);
+
+type FileInBundleCacheInner = moka::sync::Cache<FileInBundleKey, CachedFileEntry>;
 
 /// A cache that memoizes looking up files in artifact bundles.
 #[derive(Clone)]
@@ -33,7 +35,6 @@ impl FileInBundleCache {
             .name("file-in-bundle")
             .weigher(|_k, v| {
                 let content_size = v
-                    .0
                     .entry
                     .as_ref()
                     .map(|cached_file| cached_file.contents.as_deref().unwrap_or_default().len())
@@ -48,28 +49,27 @@ impl FileInBundleCache {
 
     /// Tries to retrieve a file from the cache.
     ///
-    /// We look for the file under `(bundle_uri, key)` for `bundle_uri` in `bundle_uris`.
-    /// Retrieval is limited to a specific list of bundles so that e.g. files with the same
-    /// `abs_path` belonging to different events are disambiguated.
+    /// Retrieval is limited to a specific bundle so that e.g. files with the same `abs_path`
+    /// belonging to different events are disambiguated. It is also limited to the way the file is
+    /// found in that bundle, by `url` or by its `DebugId`, so that what is in the cache does not
+    /// change the order in which bundles are searched.
     pub fn try_get(
         &self,
-        bundle_uris: impl Iterator<Item = RemoteFileUri>,
-        mut key: FileKey,
-    ) -> Option<(RemoteFileUri, CachedFileEntry, ResolvedWith)> {
-        for bundle_uri in bundle_uris {
-            // XXX: this is a really horrible workaround for not being able to look up things via `(&A, &B)` instead of `&(A, B)`.
-            let lookup_key = (bundle_uri, key);
-            if let Some((file_entry, resolved_with)) = self.cache.get(&lookup_key) {
-                metric!(counter("js.file_in_bundle.hit") += 1);
-                return Some((lookup_key.0, file_entry, resolved_with));
-            }
-            key = lookup_key.1;
+        bundle_uri: &RemoteFileUri,
+        key: &FileKey,
+        url: Option<&str>,
+    ) -> Option<CachedFileEntry> {
+        let lookup_key = (bundle_uri.clone(), key.clone(), url.map(str::to_owned));
+        let file_entry = self.cache.get(&lookup_key);
+        if file_entry.is_some() {
+            metric!(counter("js.file_in_bundle.hit") += 1);
+        } else {
+            metric!(counter("js.file_in_bundle.miss") += 1);
         }
-        metric!(counter("js.file_in_bundle.miss") += 1);
-        None
+        file_entry
     }
 
-    /// Inserts `file_entry` into the cache under `(bundle_uri, key)`.
+    /// Inserts `file_entry` into the cache under `(bundle_uri, key, url)`.
     ///
     /// Files are inserted under a specific bundle so that e.g. files with the same
     /// `abs_path` belonging to different events are disambiguated.
@@ -77,7 +77,7 @@ impl FileInBundleCache {
         &self,
         bundle_uri: &RemoteFileUri,
         key: &FileKey,
-        resolved_with: ResolvedWith,
+        url: Option<&str>,
         file_entry: &CachedFileEntry,
     ) {
         let mut file_entry = file_entry.clone();
@@ -89,7 +89,7 @@ impl FileInBundleCache {
                 cached_file.contents = None;
             }
         }
-        let key = (bundle_uri.clone(), key.clone());
-        self.cache.insert(key, (file_entry, resolved_with))
+        let key = (bundle_uri.clone(), key.clone(), url.map(str::to_owned));
+        self.cache.insert(key, file_entry)
     }
 }
diff --git a/crates/symbolicator-js/src/lookup.rs b/crates/symbolicator-js/src/lookup.rs
index 6782452..0525d76 100644
--- a/crates/symbolicator-js/src/lookup.rs
+++ b/crates/symbolicator-js/src/lookup.rs
@@ -840,25 +840,6 @@ impl ArtifactFetcher {
             return None;
         }
 
-        // First see if we have already cached this file for any of this event's bundles.
-        if let Some((bundle_uri, file_entry, resolved_with)) = self
-            .files_in_bundles
-            .try_get(self.artifact_bundles.keys().rev().cloned(), key.clone())
-        {
-            // we would like to gather metrics for which method we used to resolve the artifact bundle
-            // containing the file. we should also be doing so if we got the file from the cache.
-            if let Some(Ok((_, bundle_resolved_with))) = self.artifact_bundles.get(&bundle_uri) {
-                self.metrics.record_file_found_in_bundle(
-                    key.as_type(),
-                    resolved_with,
-                    *bundle_resolved_with,
-                    key.debug_id().is_some(),
-                );
-            }
-
-            return Some(file_entry);
-        }
-
         // If we have a `DebugId`, we try a lookup based on that.
         if let Some(debug_id) = key.debug_id() {
             let ty = key.as_type();
@@ -866,6 +847,16 @@ impl ArtifactFetcher {
                 let Ok((bundle, bundle_resolved_with)) = bundle else {
                     continue;
                 };
+                // See if we have already cached this file for this bundle.
+                if let Some(file_entry) = self.files_in_bundles.try_get(bundle_uri, key, None) {
+                    self.metrics.record_file_found_in_bundle(
+                        key.as_type(),
+                        ResolvedWith::DebugId,
+                        *bundle_resolved_with,
+                        key.debug_id().is_some(),
+                    );
+                    return Some(file_entry);
+                }
                 let bundle = bundle.get();
                 if let Ok(Some(descriptor)) = bundle.source_by_debug_id(debug_id, ty) {
                     self.metrics.record_file_found_in_bundle(
@@ -880,12 +871,8 @@ impl ArtifactFetcher {
                         entry: CachedFile::from_descriptor(key.abs_path(), descriptor),
                         resolved_with: ResolvedWith::DebugId,
                     };
-                    self.files_in_bundles.insert(
-                        bundle_uri,
-                        key,
-                        ResolvedWith::DebugId,
-                        &file_entry,
-                    );
+                    self.files_in_bundles
+                        .insert(bundle_uri, key, None, &file_entry);
                     return Some(file_entry);
                 }
             }
@@ -898,6 +885,21 @@ impl ArtifactFetcher {
                     let Ok((bundle, resolved_with)) = bundle else {
                         continue;
                     };
+                    // See if we have already cached this file for this bundle.
+                    if let Some(file_entry) =
+                        self.files_in_bundles.try_get(bundle_uri, key, Some(&url))
+                    {
+                        self.metrics.record_file_found_in_bundle(
+                            key.as_type(),
+                            ResolvedWith::Url,
+                            *resolved_with,
+                            key.debug_id().is_some(),
+                        );
+                        return Some(CachedFileEntry {
+                            resolved_with: *resolved_with,
+                            ..file_entry
+                        });
+                    }
                     let bundle = bundle.get();
                     if let Ok(Some(descriptor)) = bundle.source_by_url(&url) {
                         self.metrics.record_file_found_in_bundle(
@@ -912,12 +914,8 @@ impl ArtifactFetcher {
                             entry: CachedFile::from_descriptor(Some(abs_path), descriptor),
                             resolved_with: *resolved_with,
                         };
-                        self.files_in_bundles.insert(
-                            bundle_uri,
-                            key,
-                            ResolvedWith::Url,
-                            &file_entry,
-                        );
+                        self.files_in_bundles
+                            .insert(bundle_uri, key, Some(&url), &file_entry);
                         return Some(file_entry);
                     }
                 }
-- 
2.43.0


From d184acbaef0f4ddf4f727f71f580a8ac14e71f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:31 +0000
Subject: [PATCH 31/44] fix: allowed origins with a path

An allowed origin that has a port and ends with a slash, or that has any
path, matched nothing: the path was taken to be part of the port, and was
compared without its leading slash.
---
 crates/symbolicator-service/src/utils/http.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index 371e6ba..def850a 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -149,7 +149,7 @@ impl AllowedOriginPattern {
         let (scheme, rest) = value.split_once("://").unwrap_or(("*", value));
         let (domain, path) = rest.split_once('/').unwrap_or((rest, "*"));
 
-        let (domain, port) = match rest.split_once(':') {
+        let (domain, port) = match domain.split_once(':') {
             Some((d, p)) => (d, Some(p)),
             None => (domain, None),
         };
@@ -236,8 +236,10 @@ pub fn is_valid_origin(origin: &Url, allowed: &[String]) -> bool {
         if path == "*" {
             return true;
         }
+        // The pattern's path does not include the leading slash, see `AllowedOriginPattern::parse`.
         let path = path.strip_suffix('*').unwrap_or(&path);
-        if origin.path().starts_with(path) {
+        let origin_path = origin.path().strip_prefix('/').unwrap_or(origin.path());
+        if origin_path.starts_with(path) {
             return true;
         }
     }
-- 
2.43.0


From 3f5a900c33438f593bec6576a261f93682e925a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:05 +0000
Subject: [PATCH 32/44] fix: file stems of JS files with slashes in their query

The query was only cut off the last segment of the path, which is not where
it starts if there are slashes in it.
---
 crates/symbolicator-js/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index 411454a..21e6d5c 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -252,12 +252,12 @@ pub fn strip_hostname(path: &str) -> &str {
 pub fn extract_file_stem(path: &str) -> String {
     let path = strip_hostname(path);
 
+    // trim query strings and fragments, which may contain slashes themselves
+    let path = path.split_once('?').map(|(path, _)| path).unwrap_or(path);
+    let path = path.split_once('#').map(|(path, _)| path).unwrap_or(path);
+
     path.rsplit_once('/')
         .map(|(prefix, name)| {
-            // trim query strings and fragments
-            let name = name.split_once('?').map(|(name, _)| name).unwrap_or(name);
-            let name = name.split_once('#').map(|(name, _)| name).unwrap_or(name);
-
             // then, trim all the suffixes as often as they occurr
             let name = trim_all_end_matches(name, FILE_SUFFIX_PATTERNS);
 
-- 
2.43.0


From 3eb339f51888f653b007482c0c56e627529cd9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:14 +0000
Subject: [PATCH 33/44] fix: treat empty source files as not found whatever is
 cached

---
 crates/symbolicator-service/src/caches/sourcefiles.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/symbolicator-service/src/caches/sourcefiles.rs b/crates/symbolicator-service/src/caches/sourcefiles.rs
index 061b6fb..86998c8 100644
--- a/crates/symbolicator-service/src/caches/sourcefiles.rs
+++ b/crates/symbolicator-service/src/caches/sourcefiles.rs
@@ -107,6 +107,11 @@ impl CacheItemRequest for FetchFileRequest {
             fetch_file(self.download_svc.clone(), self.file.clone(), temp_file).await?;
 
             let view = ByteView::map_file_ref(temp_file.as_file())?;
+            // Empty cache files are read as `NotFound`, so an empty file has to be that from the
+            // beginning.
+            if view.is_empty() {
+                return Err(CacheError::NotFound);
+            }
             std::str::from_utf8(&view).map_err(|err| CacheError::Malformed(err.to_string()))?;
 
             Ok(())
-- 
2.43.0


From d78990c10f1d420177a75af10a4dc4e3136d73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 34/44] fix: join with addresses with slashes in their query

---
 crates/symbolicator-js/src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index 21e6d5c..a0dde01 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -173,7 +173,11 @@ pub fn join_paths(base: &str, right: &str) -> String {
         return right.into();
     }
 
-    let (scheme, rest) = base.split_once("://").unwrap_or(("file", base));
+    let (scheme, mut rest) = base.split_once("://").unwrap_or(("file", base));
+    if scheme != "file" {
+        // the query and the fragment of the base may contain slashes themselves
+        rest = rest.split(['?', '#']).next().unwrap_or(rest);
+    }
 
     let right = right.strip_prefix('~').unwrap_or(right);
     // the right path is absolute:
-- 
2.43.0


From 381217ec03b24e2dae38ab953db072f6f3937626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 35/44] fix: keep folders with names of 32 letters that are no
 hashes in names of modules

---
 crates/symbolicator-js/src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index a0dde01..5f8c57c 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -149,8 +149,8 @@ pub fn generate_module(abs_path: &str) -> String {
     // return all the segments following a 32/40-char hash
     let mut segments = path.split('/');
     while let Some(segment) = segments.next() {
-        if segment.len() == 32
-            || segment.len() == 40 && segment.chars().all(|c| c.is_ascii_hexdigit())
+        if (segment.len() == 32 || segment.len() == 40)
+            && segment.chars().all(|c| c.is_ascii_hexdigit())
         {
             let mut s = String::new();
             for (i, seg) in segments.enumerate() {
-- 
2.43.0


From 38440237594569f3a014afc81886cad423709594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:38 +0000
Subject: [PATCH 36/44] fix: find modules that end at the end of the address
 space

---
 crates/symbolicator-native/src/symbolication/module_lookup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index f0b5983..285e91b 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -502,7 +502,8 @@ impl ModuleLookup {
 
                 let start_addr = entry.object_info.raw.image_addr.0;
                 let size = entry.object_info.raw.image_size.unwrap_or(0);
-                let end_addr = start_addr.checked_add(size)?;
+                // A module may extend up to the very end of the address space.
+                let end_addr = start_addr.saturating_add(size);
 
                 if end_addr < addr && size != 0 {
                     // The debug image ends at a too low address and we're also confident that
-- 
2.43.0


From 04942ea050c2a8433e2a22a4f1241c87921d5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:15 +0000
Subject: [PATCH 37/44] fix: keep private completions of public symbols apart
 between scopes

The property lists, symbol maps and line mappings for a symbol file were cached under the scope of
that file, and the symcaches made with them too. For a public symbol file that is the global scope,
so that private files of one project were used for the others.
---
 .../src/caches/symcaches.rs                    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-native/src/caches/symcaches.rs b/crates/symbolicator-native/src/caches/symcaches.rs
index 99a652f..5a70185 100644
--- a/crates/symbolicator-native/src/caches/symcaches.rs
+++ b/crates/symbolicator-native/src/caches/symcaches.rs
@@ -12,14 +12,14 @@ use symbolic::common::{AccessPattern, ByteView, SelfCell};
 use symbolic::symcache::{SymCache, SymCacheConverter};
 use symbolicator_service::caches::versions::SYMCACHE_VERSIONS;
 use symbolicator_service::caching::{
-    Cache, CacheContents, CacheError, CacheItemRequest, Cacher, SharedCacheRef,
+    Cache, CacheContents, CacheError, CacheItemRequest, CacheKeyBuilder, Cacher, SharedCacheRef,
 };
 use symbolicator_service::objects::{
     CandidateStatus, FindObject, ObjectHandle, ObjectMetaHandle, ObjectPurpose, ObjectsActor,
 };
 use symbolicator_service::types::Scope;
 use symbolicator_service::utils::sentry::ConfigureScope;
-use symbolicator_sources::{FileType, ObjectId, ObjectType, SourceConfig};
+use symbolicator_sources::{FileType, ObjectId, ObjectType, RemoteFile, SourceConfig};
 
 use super::bitcode::{BcSymbolMapHandle, BitcodeService};
 use super::derived::{derive_from_object_handle, DerivedCache};
@@ -141,7 +141,7 @@ impl SymCacheActor {
                         self.bitcode_svc
                             .fetch_bcsymbolmap(
                                 debug_id,
-                                handle.scope().clone(),
+                                request.scope.clone(),
                                 request.sources.clone(),
                             )
                             .bind_hub(Hub::new_from_top(Hub::current()))
@@ -159,7 +159,7 @@ impl SymCacheActor {
                             .fetch_line_mapping(
                                 handle.object_id(),
                                 debug_id,
-                                handle.scope().clone(),
+                                request.scope.clone(),
                                 request.sources.clone(),
                             )
                             .bind_hub(Hub::new_from_top(Hub::current()))
@@ -172,13 +172,23 @@ impl SymCacheActor {
             let (bcsymbolmap_handle, il2cpp_handle) =
                 futures::future::join(fetch_bcsymbolmap, fetch_il2cpp).await;
 
+            // The cache key starts with the scope of the object, which is the global one for objects
+            // from public sources. Symcaches that include private files must not be shared then.
+            let write_private_scope = |builder: &mut CacheKeyBuilder, file: &RemoteFile| {
+                if !file.is_public() && handle.scope() != &request.scope {
+                    writeln!(builder, "scope: {}", request.scope).unwrap();
+                }
+            };
+
             let mut builder = handle.cache_key_builder();
             if let Some(handle) = &bcsymbolmap_handle {
                 builder.write_str("\nbcsymbolmap:\n").unwrap();
+                write_private_scope(&mut builder, &handle.file);
                 builder.write_file_meta(&handle.file).unwrap();
             }
             if let Some(handle) = &il2cpp_handle {
                 builder.write_str("\nil2cpp:\n").unwrap();
+                write_private_scope(&mut builder, &handle.file);
                 builder.write_file_meta(&handle.file).unwrap();
             }
 
-- 
2.43.0


From 916aa217f47f51cc30e873e72919c034d95a983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:16 +0000
Subject: [PATCH 38/44] fix: give no source context for the unknown line 0

---
 crates/symbolicator-service/src/source_context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/symbolicator-service/src/source_context.rs b/crates/symbolicator-service/src/source_context.rs
index d87256e..71fcd96 100644
--- a/crates/symbolicator-service/src/source_context.rs
+++ b/crates/symbolicator-service/src/source_context.rs
@@ -15,6 +15,11 @@ pub fn get_context_lines(
     trim_to_column: usize,
     context_lines: Option<usize>,
 ) -> Option<(Vec<String>, String, Vec<String>)> {
+    // Lines are counted from 1, and 0 stands for an unknown line.
+    if lineno == 0 {
+        return None;
+    }
+
     let context_lines = context_lines.unwrap_or(DEFAULT_CONTEXT_LINES);
 
     let start_line = lineno.saturating_sub(context_lines).saturating_sub(1);
-- 
2.43.0


From de8f760266981423c3b7700a5b88c830173490b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:04 +0000
Subject: [PATCH 39/44] fix: add candidates for source links to their own
 module

---
 .../symbolicator-native/src/symbolication/module_lookup.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index 285e91b..d36d201 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -524,7 +524,12 @@ impl ModuleLookup {
     ///
     /// If there is no module at that index, this is a no-op.
     pub fn add_candidate(&mut self, idx: usize, candidate: &ObjectCandidate) {
-        let Some(entry) = self.modules.get_mut(idx) else {
+        // The modules are sorted by address, `idx` is the index in the original order.
+        let Some(entry) = self
+            .modules
+            .iter_mut()
+            .find(|entry| entry.module_index == idx)
+        else {
             return;
         };
 
-- 
2.43.0


From 9ed59976916de001e65295996ad7c258e5ede98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:23 +0000
Subject: [PATCH 40/44] fix: keep the status of modules that have no frames
 left

Modules whose only frames were found by scanning the stack and then dropped were looked up, but
reported as unused once source context was applied.
---
 crates/symbolicator-native/src/symbolication/module_lookup.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index d36d201..51ea01c 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -347,7 +347,6 @@ impl ModuleLookup {
             .filter_map(|(idx, entry)| {
                 let is_used = referenced_objects.contains(&entry.module_index);
                 if !is_used {
-                    entry.object_info.debug_status = ObjectFileStatus::Unused;
                     entry.source_object = Err(CacheError::NotFound);
                     return None;
                 }
-- 
2.43.0


From 00991c605a2d55182dc3d24b68dd1013284984fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:19 +0000
Subject: [PATCH 41/44] fix: keep linked sources that were fetched with headers
 apart between scopes

Source files from source links were cached in the scope of the debug file, which is the global one
if that is public, even if the headers of one request were needed to fetch them.
---
 .../src/symbolication/module_lookup.rs                |  5 +++++
 .../src/symbolication/source_context.rs               | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index 51ea01c..2d3e9e4 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -196,6 +196,11 @@ impl ModuleLookup {
         }
     }
 
+    /// Returns the [`Scope`] of the request.
+    pub(crate) fn scope(&self) -> &Scope {
+        &self.scope
+    }
+
     /// Returns the original `CompleteObjectInfo` list in its original sorting order.
     pub fn into_inner(mut self) -> Vec<CompleteObjectInfo> {
         // Restore the original name of the first module's debug file, if there
diff --git a/crates/symbolicator-native/src/symbolication/source_context.rs b/crates/symbolicator-native/src/symbolication/source_context.rs
index 8e3a451..948f989 100644
--- a/crates/symbolicator-native/src/symbolication/source_context.rs
+++ b/crates/symbolicator-native/src/symbolication/source_context.rs
@@ -51,12 +51,19 @@ impl SymbolicationActor {
         // Download remote sources and update contexts.
         if !remote_sources.is_empty() {
             let cache = self.sourcefiles_cache.as_ref();
+            let request_scope = module_lookup.scope();
             let futures = remote_sources.into_iter().map(
-                |((source_scope, url), (module_idx, frames))| async move {
+                |((mut source_scope, url), (module_idx, frames))| async move {
                     let mut remote_file =
                         HttpRemoteFile::from_url(url.clone(), scraping.verify_ssl);
 
-                    if scraping.enabled && is_valid_origin(&url, &scraping.allowed_origins) {
+                    if scraping.enabled
+                        && !scraping.headers.is_empty()
+                        && is_valid_origin(&url, &scraping.allowed_origins)
+                    {
+                        // What can be fetched with these headers must not be shared with requests
+                        // of other scopes, even if the source link is public.
+                        source_scope = request_scope.clone();
                         remote_file.headers.extend(
                             scraping
                                 .headers
-- 
2.43.0


From 930d297798f1f14b0f8b1e0e7e3c8320cccea790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:12 +0000
Subject: [PATCH 42/44] fix: read stack traces of unaligned minidump streams

---
 .../src/symbolication/minidump_stacktraces.rs | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs b/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
index 400ab45..023fe25 100644
--- a/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
+++ b/crates/symbolicator-native/src/symbolication/minidump_stacktraces.rs
@@ -211,8 +211,8 @@ mod format {
 
     #[derive(Debug)]
     pub struct Format<'data> {
-        threads: &'data [RawThread],
-        frames: &'data [RawFrame],
+        threads: Vec<RawThread>,
+        frames: Vec<RawFrame>,
         symbol_bytes: &'data [u8],
     }
 
@@ -229,7 +229,7 @@ mod format {
             }
 
             // SAFETY: we will check validity of the header down below
-            let header = unsafe { &*(buf.as_ptr() as *const RawHeader) };
+            let header = unsafe { ptr::read_unaligned(buf.as_ptr() as *const RawHeader) };
             if header.version != MINIDUMP_FORMAT_VERSION {
                 return Err(Error::WrongVersion);
             }
@@ -254,19 +254,13 @@ mod format {
             let symbols_start = unsafe { frames_start.add(frames_size) };
 
             // SAFETY: the above buffer size check also made sure we are not going out of bounds
-            // here
-            let threads = unsafe {
-                &*ptr::slice_from_raw_parts(
-                    threads_start as *const RawThread,
-                    header.num_threads as usize,
-                )
-            };
-            let frames = unsafe {
-                &*ptr::slice_from_raw_parts(
-                    frames_start as *const RawFrame,
-                    header.num_frames as usize,
-                )
-            };
+            // here. A stream can be anywhere in the minidump, so the records may not be aligned.
+            let threads = (0..header.num_threads as usize)
+                .map(|i| unsafe { ptr::read_unaligned((threads_start as *const RawThread).add(i)) })
+                .collect();
+            let frames = (0..header.num_frames as usize)
+                .map(|i| unsafe { ptr::read_unaligned((frames_start as *const RawFrame).add(i)) })
+                .collect();
             let symbol_bytes =
                 unsafe { &*ptr::slice_from_raw_parts(symbols_start, header.symbol_bytes as usize) };
 
-- 
2.43.0


From a4be908d6d5728bc5c1b1eb9653e3d80d8e753f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:51 +0000
Subject: [PATCH 43/44] fix: do not panic on Proguard files that cannot be
 decompressed

---
 crates/symbolicator-proguard/src/symbolication.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-proguard/src/symbolication.rs b/crates/symbolicator-proguard/src/symbolication.rs
index 49c43de..26cec8a 100644
--- a/crates/symbolicator-proguard/src/symbolication.rs
+++ b/crates/symbolicator-proguard/src/symbolication.rs
@@ -69,7 +69,8 @@ impl ProguardService {
                             "The ProGuard file doesn't contain any line mappings" => {
                                 ProguardErrorKind::NoLineInfo
                             }
-                            _ => unreachable!(),
+                            // For example, the file could not be decompressed.
+                            _ => ProguardErrorKind::Invalid,
                         },
                         _ => ProguardErrorKind::Missing,
                     };
-- 
2.43.0


From 8f02723a539c146a9ec3c9019c12223078918f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:10 +0000
Subject: [PATCH 44/44] fix: count in-flight requests correctly if one panics
 or several start at once

---
 crates/symbolicator/src/service.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/symbolicator/src/service.rs b/crates/symbolicator/src/service.rs
index 2fc01f8..ddaf81b 100644
--- a/crates/symbolicator/src/service.rs
+++ b/crates/symbolicator/src/service.rs
@@ -393,17 +393,24 @@ impl RequestService {
         let requests = Arc::clone(&self.inner.requests);
         let current_requests = Arc::clone(&self.inner.current_requests);
 
-        let num_requests = current_requests.load(Ordering::Relaxed);
+        // Count the request as in-flight, unless there are already `max_concurrent_requests`.
+        let max_concurrent_requests = self.inner.max_concurrent_requests.unwrap_or(usize::MAX);
+        let reserved = current_requests.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |n| {
+            (n < max_concurrent_requests).then_some(n + 1)
+        });
+        let num_requests = reserved.unwrap_or_else(|n| n);
         metric!(gauge("requests.in_flight") = num_requests as u64);
 
-        // Reject the request if `requests` already contains `max_concurrent_requests` elements.
-        if let Some(max_concurrent_requests) = self.inner.max_concurrent_requests {
-            if num_requests >= max_concurrent_requests {
-                metric!(counter("requests.rejected") += 1);
-                return Err(MaxRequestsError);
-            }
+        if reserved.is_err() {
+            metric!(counter("requests.rejected") += 1);
+            return Err(MaxRequestsError);
         }
 
+        // The request stops being in-flight when it is finished, but also if it panics.
+        let in_flight_token = CallOnDrop::new(move || {
+            current_requests.fetch_sub(1, Ordering::Relaxed);
+        });
+
         // Using `task_name` as the tag should be fine, there is only a small
         // fixed number of them.
         metric!(counter("requests.accepted") += 1, "task" => task_name);
@@ -413,7 +420,6 @@ impl RequestService {
             .lock()
             .unwrap()
             .insert(request_id, receiver.shared());
-        current_requests.fetch_add(1, Ordering::Relaxed);
         let drop_hub = hub.clone();
         let token = CallOnDrop::new(move || {
             requests.lock().unwrap().remove(&request_id);
@@ -480,7 +486,7 @@ impl RequestService {
 
             // We stop counting the request as an in-flight request at this point, even though
             // it will stay in the `requests` map for another 90s.
-            current_requests.fetch_sub(1, Ordering::Relaxed);
+            drop(in_flight_token);
 
             // Using `task_name` as the tag should be fine, there is only a small
             // fixed number of them.
-- 
2.43.0

