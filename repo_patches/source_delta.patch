From ee2a46cc2c4a01ee9ad6387e5c96619be2781009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 01/18] fix: read an operation's output without depending on it
 to fit into a pipe

The child's stdout and stderr were read only after it had exited, so a child
that wrote more than a pipe holds blocked until it was killed by the timeout.
A descendant that kept the pipes open blocked the preprocessor for good.
---
 crates/mdbook-aquascope/src/preprocessor.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 7665a6e..24f24e3 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -4,7 +4,7 @@ use std::{
   collections::HashMap,
   fs,
   path::PathBuf,
-  process::{Command, Stdio},
+  process::{Command, Output, Stdio},
   sync::RwLock,
   time::Duration,
 };
@@ -83,14 +83,25 @@ impl AquascopePreprocessor {
         cmd.arg("--show-flows");
       }
 
-      let mut child =
-        cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
-      if child.wait_timeout(Duration::from_secs(10))?.is_none() {
+      // The output goes to files rather than to pipes: nothing reads it before the child has exited,
+      // so the child would block on a full pipe until it times out.
+      let stdout_path = root.join("stdout");
+      let stderr_path = root.join("stderr");
+      let mut child = cmd
+        .stdout(fs::File::create(&stdout_path)?)
+        .stderr(fs::File::create(&stderr_path)?)
+        .spawn()?;
+      let Some(status) = child.wait_timeout(Duration::from_secs(10))? else {
         child.kill()?;
+        child.wait()?;
         bail!("Aquascope timed out on program:\n{}", block.code)
       };
 
-      let output = child.wait_with_output()?;
+      let output = Output {
+        status,
+        stdout: fs::read(&stdout_path)?,
+        stderr: fs::read(&stderr_path)?,
+      };
 
       if !output.status.success() {
         let error = String::from_utf8(output.stderr)?;
-- 
2.43.0


From 60abbdb075b3a75769eaba475b13c4bf3376ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 02/18] fix: report the message of a failed operation even if
 it is not UTF-8

---
 crates/mdbook-aquascope/src/preprocessor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 24f24e3..082db6c 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -104,7 +104,7 @@ impl AquascopePreprocessor {
       };
 
       if !output.status.success() {
-        let error = String::from_utf8(output.stderr)?;
+        let error = String::from_utf8_lossy(&output.stderr);
         bail!(
           "Aquascope failed for program:\n{}\nwith error:\n{error}",
           block.code
@@ -119,7 +119,7 @@ impl AquascopePreprocessor {
         _ => false,
       };
       if is_err {
-        let stderr = String::from_utf8(output.stderr)?;
+        let stderr = String::from_utf8_lossy(&output.stderr);
         bail!(
           "Aquascope failed for program:\n{}\nwith error:\n{stderr}",
           block.code,
-- 
2.43.0


From 876d71162ab22c5520caa31192e884b4101d92ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:35 +0000
Subject: [PATCH 03/18] fix: do not panic when a toolchain command fails with a
 message that is not UTF-8

---
 crates/aquascope_workspace_utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope_workspace_utils/src/lib.rs b/crates/aquascope_workspace_utils/src/lib.rs
index 9021d55..a629ebb 100644
--- a/crates/aquascope_workspace_utils/src/lib.rs
+++ b/crates/aquascope_workspace_utils/src/lib.rs
@@ -9,7 +9,7 @@ pub fn run_and_get_output(cmd: &mut Command) -> Result<String> {
   if !output.status.success() {
     bail!(
       "Command failed with stderr:\n{}",
-      String::from_utf8(output.stderr).unwrap()
+      String::from_utf8_lossy(&output.stderr)
     );
   }
   let stdout = String::from_utf8(output.stdout)?;
-- 
2.43.0


From 9e96646a7b2cee541ee7bd2c8c35766483d6ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 04/18] fix: leave permission markers within an Aquascope block
 to the block

A marker in a block's program was replaced as well, which shifted the range
that the block itself was replaced in and corrupted the chapter.
---
 crates/mdbook-aquascope/src/preprocessor.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 082db6c..36bd3c9 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -188,13 +188,32 @@ impl AquascopePreprocessor {
     content: &str,
   ) -> Result<Vec<(std::ops::Range<usize>, String)>> {
     let to_process = AquascopeBlock::parse_all(content);
+
+    // A marker within a block belongs to its program: replacing it, too, would shift the block's range.
+    let block_ends = to_process.iter().map(|(range, _)| range.end);
+    let gap_starts = std::iter::once(0).chain(block_ends);
+    let block_starts = to_process.iter().map(|(range, _)| range.start);
+    let gap_ends = block_starts.chain(std::iter::once(content.len()));
+    let perms = gap_starts
+      .zip(gap_ends)
+      .flat_map(|(start, end)| {
+        crate::permissions::parse_perms(&content[start .. end]).map(
+          move |perm| {
+            perm.map(|(range, html)| {
+              (range.start + start .. range.end + start, html)
+            })
+          },
+        )
+      })
+      .collect::<Vec<_>>();
+
     to_process
       .into_par_iter()
       .map(|(range, block)| {
         let html = self.process_code(block)?;
         Ok((range, html))
       })
-      .chain(crate::permissions::parse_perms(content).par_bridge())
+      .chain(perms)
       .collect()
   }
 
-- 
2.43.0


From 07527c994e534d8d1e127a0ac49a0178108ec7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 05/18] fix: stop a server command that timed out or whose
 client left

---
 crates/aquascope_serve/src/container.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 56bb89f..7db261a 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -84,7 +84,9 @@ impl Container {
     cmd: &mut Command,
   ) -> Result<(String, String)> {
     let timeout = COMMAND_TIMEOUT;
-    let cmd = cmd.current_dir(self.cwd());
+    // When the time is up, or when the client hangs up, nobody waits for the
+    // command any more: don't leave it running in a deleted directory.
+    let cmd = cmd.current_dir(self.cwd()).kill_on_drop(true);
     let timed_out = match time::timeout(timeout, cmd.output()).await {
       Ok(Ok(output)) => Ok(output),
       // failure
-- 
2.43.0


From 31c7781cc98aedd5a6b5e22741ffcd39b08ce86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 06/18] fix: answer server requests whose output is not UTF-8

---
 crates/aquascope_serve/src/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 7db261a..d3fb4d1 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -99,8 +99,8 @@ impl Container {
 
     let output = timed_out.context(CommandExecTimedOutSnafu { timeout })?;
 
-    let stdout = String::from_utf8(output.stdout).unwrap();
-    let stderr = String::from_utf8(output.stderr).unwrap();
+    let stdout = String::from_utf8_lossy(&output.stdout).into_owned();
+    let stderr = String::from_utf8_lossy(&output.stderr).into_owned();
     log::info!("{}", stderr);
 
     Ok((stdout, stderr))
-- 
2.43.0


From 352f108f7dde54c4beb1658f5310bd4c833144bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 07/18] fix: answer server requests when `cargo new` fails

---
 crates/aquascope_serve/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index d3fb4d1..8861b4d 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -121,7 +121,7 @@ impl Container {
 
     if !stderr.trim().is_empty() {
       log::error!("{}", stderr);
-      panic!("`cargo new` failed {stderr}");
+      return Err(anyhow::anyhow!("`cargo new` failed {stderr}").into());
     }
 
     log::debug!("Cargo output {}", output_s);
-- 
2.43.0


From 2848edbf3ed24758adf773f53cbe028fb9ebb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 08/18] fix: do not block the server's executor on `cargo miri
 setup`

---
 crates/aquascope_serve/src/container.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 8861b4d..63bec27 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -157,7 +157,7 @@ impl Container {
   ) -> Result<ServerResponse> {
     self.write_source_code(&req.code).await?;
 
-    let mut cmd = self.permissions_command()?;
+    let mut cmd = self.permissions_command().await?;
 
     let (stdout, stderr) = self.exec_output(&mut cmd).await?;
 
@@ -178,7 +178,7 @@ impl Container {
   ) -> Result<ServerResponse> {
     self.write_source_code(&req.code).await?;
 
-    let mut cmd = self.interpreter_command(req)?;
+    let mut cmd = self.interpreter_command(req).await?;
 
     let (stdout, stderr) = self.exec_output(&mut cmd).await?;
 
@@ -193,20 +193,23 @@ impl Container {
     })
   }
 
-  fn permissions_command(&self) -> Result<Command> {
+  async fn permissions_command(&self) -> Result<Command> {
     let cwd = self.cwd();
     let mut cmd = Command::new("cargo");
     cmd
       .args(["--quiet", "aquascope", "permissions"])
       .env("RUST_LOG", "trace")
       .env("RUST_BACKTRACE", "1")
-      .env("MIRI_SYSROOT", miri_sysroot()?)
+      .env("MIRI_SYSROOT", sysroot().await?)
       .current_dir(cwd);
 
     Ok(cmd)
   }
 
-  fn interpreter_command(&self, req: &SingleFileRequest) -> Result<Command> {
+  async fn interpreter_command(
+    &self,
+    req: &SingleFileRequest,
+  ) -> Result<Command> {
     let cwd = self.cwd();
     let mut cmd = Command::new("cargo");
     cmd
@@ -214,7 +217,7 @@ impl Container {
       .current_dir(cwd)
       .env("RUST_LOG", "debug")
       .env("RUST_BACKTRACE", "1")
-      .env("MIRI_SYSROOT", miri_sysroot()?);
+      .env("MIRI_SYSROOT", sysroot().await?);
 
     if let Some(config) = req.config.as_ref().and_then(|cfg| cfg.as_object()) {
       if config.contains_key("shouldFail") {
@@ -232,6 +235,15 @@ impl Container {
   }
 }
 
+/// `miri_sysroot` can run `cargo miri setup` and wait for it, which would keep
+/// the executor from serving other requests.
+async fn sysroot() -> Result<PathBuf> {
+  let sysroot = tokio::task::spawn_blocking(miri_sysroot)
+    .await
+    .map_err(anyhow::Error::from)?;
+  Ok(sysroot?)
+}
+
 #[allow(dead_code)]
 fn full_permissions() -> std::fs::Permissions {
   PermissionsExt::from_mode(0o777)
-- 
2.43.0


From 66053de79266a5d6e115934204097e96af2de53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 09/18] fix: count the positions of state markers as the editor
 does

A marker after a character of more than one byte was shown too far to the right, at a wrong state or not at all.
---
 crates/mdbook-aquascope/src/annotations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 200ef3b..19e4e7f 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -87,10 +87,11 @@ pub fn parse_annotations(code: &str) -> Result<(String, AquascopeAnnotations)> {
   for (line_idx, mut line) in code.lines().enumerate() {
     let line_pos = MdLinePos(line_idx + 1);
     let mut fragments = Vec::new();
+    // The editor counts positions in UTF-16 code units.
     macro_rules! add_fragment {
       ($s:expr) => {
         fragments.push($s);
-        idx += $s.len();
+        idx += $s.encode_utf16().count();
       };
     }
     if let Some(suffix) = line.strip_prefix('#') {
-- 
2.43.0


From d2a3e54cdcb0929501922335689de39948f271f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 10/18] fix: emit the same book for the same input

The options of a block and its focused paths were written in the order of a HashMap, which is random.
---
 crates/mdbook-aquascope/src/annotations.rs  | 20 +++++++++++++++++---
 crates/mdbook-aquascope/src/preprocessor.rs |  4 ++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 19e4e7f..1b5c727 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -1,18 +1,23 @@
 //! Parser for annotations within an Aquascope code block body.
 
-use std::{collections::HashMap, hash::Hash};
+use std::{
+  collections::{BTreeMap, HashMap},
+  hash::Hash,
+};
 
 use anyhow::Result;
 use itertools::Itertools;
 use regex::Regex;
-use serde::Serialize;
+use serde::{Serialize, Serializer};
 use ts_rs::TS;
 
 #[derive(PartialEq, Eq, Debug, TS, Serialize, Clone, Copy)]
 #[ts(export)]
 pub struct MdCharPos(usize);
 
-#[derive(PartialEq, Eq, Debug, TS, Serialize, Hash, Clone, Copy)]
+#[derive(
+  PartialEq, Eq, PartialOrd, Ord, Debug, TS, Serialize, Hash, Clone, Copy,
+)]
 #[ts(export)]
 pub struct MdLinePos(usize);
 
@@ -28,9 +33,18 @@ pub enum PathMatcher {
 #[ts(export)]
 pub struct StepperAnnotations {
   focused_lines: Vec<MdLinePos>,
+  #[serde(serialize_with = "serialize_sorted")]
   focused_paths: HashMap<MdLinePos, Vec<PathMatcher>>,
 }
 
+/// The order of a `HashMap` differs from one build of a book to the next.
+fn serialize_sorted<S: Serializer, K: Serialize + Ord, V: Serialize>(
+  map: &HashMap<K, V>,
+  serializer: S,
+) -> Result<S::Ok, S::Error> {
+  serializer.collect_map(map.iter().collect::<BTreeMap<_, _>>())
+}
+
 #[derive(PartialEq, Eq, Debug, TS, Serialize, Default, Clone)]
 #[ts(export)]
 pub struct BoundariesAnnotations {
diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 36bd3c9..f0360f1 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -1,7 +1,7 @@
 //! Parser for Aquascope code blocks within Markdown.
 
 use std::{
-  collections::HashMap,
+  collections::{BTreeMap, HashMap},
   fs,
   path::PathBuf,
   process::{Command, Output, Stdio},
@@ -171,7 +171,7 @@ impl AquascopePreprocessor {
       .config
       .iter()
       .map(|(k, v)| (k, v))
-      .collect::<HashMap<_, _>>();
+      .collect::<BTreeMap<_, _>>();
     html.data("config", &config)?;
 
     // TODO: make this configurable
-- 
2.43.0


From abde198239056f642b1125433585a06edb84d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 11/18] fix: list the rows of a permission step in a fixed
 order

Rows of places with as many projections came in the order of a hash table
keyed by addresses, which differed from one run to the next.
---
 .../aquascope/src/analysis/stepper/table_builder.rs   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index b88b4c7..94b73e4 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -353,8 +353,15 @@ pub(super) fn prettify_permission_steps<'tcx>(
         .into_iter()
         .collect::<Vec<_>>();
 
-      master_table_vec
-            .sort_by_key(|(place, _)| (place.local.as_usize(), place.projection.len()));
+      // The projection itself breaks ties, otherwise they come in the order of
+      // the hash table: by the addresses of interned values.
+      master_table_vec.sort_by_cached_key(|(place, _)| {
+        (
+          place.local.as_usize(),
+          place.projection.len(),
+          format!("{:?}", place.projection),
+        )
+      });
 
       let master_table = PermissionsStepTable {
         from,
-- 
2.43.0


From 7df3138d59c958c8b431791c09a334035c989421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 12/18] fix: report a compilation that stopped before the
 permission analysis

A program that does not parse, say, was answered with an empty list of
results and status 0, as if it had no bodies.
---
 crates/aquascope_front/src/plugin.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/aquascope_front/src/plugin.rs b/crates/aquascope_front/src/plugin.rs
index e62bb52..705822b 100644
--- a/crates/aquascope_front/src/plugin.rs
+++ b/crates/aquascope_front/src/plugin.rs
@@ -125,9 +125,17 @@ impl RustcPlugin for AquascopePlugin {
           steps_include_mode,
           show_flows,
           rustc_start: Instant::now(),
+          completed: false,
         };
         log::info!("Starting rustc analysis...");
         let _ = run_with_callbacks(&compiler_args, &mut callbacks);
+        if !callbacks.completed {
+          // The compiler gave up before every body was analyzed, e.g., on a
+          // program that does not parse.
+          callbacks
+            .output
+            .push(Err(AquascopeError::BuildError { range: None }));
+        }
         postprocess(callbacks.output)
       }
       Interpreter { .. } => {
@@ -216,6 +224,7 @@ struct AquascopeCallbacks<A: AquascopeAnalysis> {
   steps_include_mode: PermIncludeMode,
   show_flows: bool,
   rustc_start: Instant,
+  completed: bool,
 }
 
 impl<A: AquascopeAnalysis> rustc_driver::Callbacks for AquascopeCallbacks<A> {
@@ -245,6 +254,7 @@ impl<A: AquascopeAnalysis> rustc_driver::Callbacks for AquascopeCallbacks<A> {
       track_body_diagnostics(def_id);
       self.output.push(analysis.analyze(tcx, body_id));
     });
+    self.completed = true;
 
     log::debug!("Callback analysis took {:?}", self.rustc_start.elapsed());
 
-- 
2.43.0


From cc40787752ac1c59f2ba9b27f98819a8196b16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 13/18] fix: attribute errors of the borrow checker to the body
 they are about

A body that the borrow checker gets to while another one is analyzed, e.g.,
one that returns an opaque type and is called by it, lost its errors to
that one, and was shown with boundaries and steps beyond its first error.
---
 .../aquascope/src/analysis/boundaries/mod.rs  |  7 ++-
 .../src/analysis/stepper/table_builder.rs     |  9 +--
 crates/aquascope/src/errors/mod.rs            | 57 ++++++++++++++-----
 crates/aquascope_front/src/plugin.rs          |  7 ++-
 4 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/mod.rs b/crates/aquascope/src/analysis/boundaries/mod.rs
index bf4d5f7..842b735 100644
--- a/crates/aquascope/src/analysis/boundaries/mod.rs
+++ b/crates/aquascope/src/analysis/boundaries/mod.rs
@@ -805,9 +805,10 @@ pub fn compute_permission_boundaries(
   // FIXME: we need a more robust way of filtering by "first error".
   // here (and in the stepper) we do this by diagnostic span from rustc
   // but that can sometimes be a little earlier than we might want.
-  let first_error_span_opt =
-    errors::get_span_of_first_error(ctxt.def_id.expect_local())
-      .and_then(|s| s.as_local(ctxt.body_with_facts.body.span));
+  let first_error_span_opt = errors::get_span_of_first_error(
+    ctxt.def_id.expect_local(),
+    ctxt.body_with_facts.body.span,
+  );
 
   let boundaries = path_use_points
     .filter(|pb| {
diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index 94b73e4..d41e4bd 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -6,7 +6,7 @@ use rustc_data_structures::{
 };
 use rustc_middle::mir::{Local, Location, Place};
 use rustc_span::Span;
-use rustc_utils::{test_utils::DUMMY_CHAR_RANGE, PlaceExt, SpanExt};
+use rustc_utils::{test_utils::DUMMY_CHAR_RANGE, PlaceExt};
 
 use super::{segmented_mir::*, *};
 use crate::{analysis::permissions::PermissionsCtxt, errors};
@@ -222,9 +222,10 @@ pub(super) fn prettify_permission_steps<'tcx>(
     };
   }
 
-  let first_error_span_opt =
-    errors::get_span_of_first_error(ctxt.def_id.expect_local())
-      .and_then(|s| s.as_local(ctxt.body_with_facts.body.span));
+  let first_error_span_opt = errors::get_span_of_first_error(
+    ctxt.def_id.expect_local(),
+    ctxt.body_with_facts.body.span,
+  );
   let source_map = tcx.sess.source_map();
 
   let mut semi_filtered = HashMap::<
diff --git a/crates/aquascope/src/errors/mod.rs b/crates/aquascope/src/errors/mod.rs
index 77fd0f9..abfca56 100644
--- a/crates/aquascope/src/errors/mod.rs
+++ b/crates/aquascope/src/errors/mod.rs
@@ -1,13 +1,22 @@
 pub mod silent;
 
-use std::cell::RefCell;
+use std::{cell::RefCell, sync::OnceLock};
 
+use rustc_data_structures::fx::FxHashMap as HashMap;
 use rustc_errors::{DiagInner, TRACK_DIAGNOSTIC};
 use rustc_hir::def_id::LocalDefId;
+use rustc_middle::{mir::BorrowCheckResult, ty::TyCtxt, util::Providers};
+use rustc_session::Session;
 use rustc_span::Span;
+use rustc_utils::{mir::borrowck_facts, SpanExt};
+
+type MirBorrowck =
+  for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx BorrowCheckResult<'tcx>;
+
+static MIR_BORROWCK: OnceLock<MirBorrowck> = OnceLock::new();
 
 thread_local! {
-    static BODY_DIAGNOSTICS: RefCell<Vec<DiagnosticInfo>> = RefCell::new(Vec::default());
+    static BODY_DIAGNOSTICS: RefCell<HashMap<Option<LocalDefId>, Vec<DiagnosticInfo>>> = RefCell::new(HashMap::default());
     static CURRENT_BODY: RefCell<Option<LocalDefId>> = const { RefCell::new(None) };
 }
 
@@ -18,13 +27,14 @@ struct DiagnosticInfo {
 }
 
 fn track_diagnostic<R>(d: DiagInner, f: &mut dyn FnMut(DiagInner) -> R) -> R {
+  let body = CURRENT_BODY.with(|id| *id.borrow());
   BODY_DIAGNOSTICS.with(|diagnostics| {
     let mut diagnostics = diagnostics.borrow_mut();
     let d = DiagnosticInfo {
       primary_span: d.sort_span,
       is_error: d.is_error(),
     };
-    diagnostics.push(d);
+    diagnostics.entry(body).or_default().push(d);
   });
 
   // We need to actually report the diagnostic with the
@@ -33,12 +43,31 @@ fn track_diagnostic<R>(d: DiagInner, f: &mut dyn FnMut(DiagInner) -> R) -> R {
   (*f)(d)
 }
 
+/// The borrow checker may get to a body while another one is being analyzed
+/// (e.g., one that calls it, if it returns an opaque type). Its diagnostics
+/// are its own nonetheless.
+fn mir_borrowck(tcx: TyCtxt<'_>, def_id: LocalDefId) -> &BorrowCheckResult<'_> {
+  let outer = CURRENT_BODY.with(|id| id.replace(Some(def_id)));
+  let result = MIR_BORROWCK.get().unwrap()(tcx, def_id);
+  CURRENT_BODY.with(|id| id.replace(outer));
+  result
+}
+
+/// Like [`borrowck_facts::override_queries`], and diagnostics of the borrow
+/// checker are tracked for the body they are about.
+pub fn override_queries(session: &Session, providers: &mut Providers) {
+  borrowck_facts::override_queries(session, providers);
+  MIR_BORROWCK.get_or_init(|| providers.mir_borrowck);
+  providers.mir_borrowck = mir_borrowck;
+}
+
 // ------------------------------------------------
 // Interface methods for fetching registered errors
 
 /// This should be called before analysing a new crate.
 pub fn initialize_error_tracking() {
   log::debug!("Track diagnostics updated");
+  BODY_DIAGNOSTICS.with(|diagnostics| diagnostics.borrow_mut().clear());
   TRACK_DIAGNOSTIC.swap(&(track_diagnostic as _));
 }
 
@@ -52,21 +81,19 @@ pub fn track_body_diagnostics(def_id: LocalDefId) {
     let old_value = id.replace(def_id);
     log::debug!("Replacing tracked body id {old_value:?} with {def_id:?}");
   });
-  BODY_DIAGNOSTICS.with(|diagnostics| {
-    let mut diagnostics = diagnostics.borrow_mut();
-    // FIXME(gavinleroy): we should really be caching the diagnostics by
-    // LocalDefId, meaning that we don't have to clean them after
-    // each analysis. This also has the added benefic of caching
-    // in case we ever reuse processes for server queries.
-    diagnostics.clear();
-  });
 }
 
 pub fn errors_exist() -> bool {
-  BODY_DIAGNOSTICS.with(|diagnostics| !diagnostics.borrow().is_empty())
+  let body = CURRENT_BODY.with(|id| *id.borrow());
+  BODY_DIAGNOSTICS
+    .with(|diagnostics| diagnostics.borrow().contains_key(&body))
 }
 
-pub fn get_span_of_first_error(def_id: LocalDefId) -> Option<Span> {
+/// The first error within the body of `def_id`, which has the given span.
+pub fn get_span_of_first_error(
+  def_id: LocalDefId,
+  body_span: Span,
+) -> Option<Span> {
   // A security check that the body expected by the caller is
   // in sync with that of the error diagnostics.
   CURRENT_BODY.with(|id| {
@@ -79,8 +106,10 @@ pub fn get_span_of_first_error(def_id: LocalDefId) -> Option<Span> {
     log::debug!("Diagnostics {:?}", diagnostics);
 
     diagnostics
+      .get(&Some(def_id))?
       .iter()
-      .filter_map(|d| d.is_error.then_some(d.primary_span))
+      .filter(|d| d.is_error)
+      .filter_map(|d| d.primary_span.as_local(body_span))
       .min_by_key(|s| s.lo())
   })
 }
diff --git a/crates/aquascope_front/src/plugin.rs b/crates/aquascope_front/src/plugin.rs
index 705822b..9268677 100644
--- a/crates/aquascope_front/src/plugin.rs
+++ b/crates/aquascope_front/src/plugin.rs
@@ -13,7 +13,8 @@ use aquascope::{
     AquascopeError, AquascopeResult,
   },
   errors::{
-    initialize_error_tracking, silent::silent_session, track_body_diagnostics,
+    self, initialize_error_tracking, silent::silent_session,
+    track_body_diagnostics,
   },
 };
 use clap::{Parser, Subcommand};
@@ -22,7 +23,7 @@ use rustc_hir::BodyId;
 use rustc_interface::interface::Result as RustcResult;
 use rustc_middle::ty::TyCtxt;
 use rustc_plugin::{CrateFilter, RustcPlugin, RustcPluginArgs, Utf8Path};
-use rustc_utils::{mir::borrowck_facts, source_map::find_bodies::find_bodies};
+use rustc_utils::source_map::find_bodies::find_bodies;
 use serde::{self, Deserialize, Serialize};
 
 const VERSION: &str = env!("CARGO_PKG_VERSION");
@@ -230,7 +231,7 @@ struct AquascopeCallbacks<A: AquascopeAnalysis> {
 impl<A: AquascopeAnalysis> rustc_driver::Callbacks for AquascopeCallbacks<A> {
   fn config(&mut self, config: &mut rustc_interface::Config) {
     config.psess_created = Some(silent_session());
-    config.override_queries = Some(borrowck_facts::override_queries);
+    config.override_queries = Some(errors::override_queries);
   }
 
   fn after_expansion(
-- 
2.43.0


From b8c8b96afbf6878b246d55578ef4b3af16a28db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 14/18] fix: do not take shouldFail: false as a request for
 --should-fail

The standalone page always sends the flag with the state of its checkbox.
---
 crates/aquascope_serve/src/container.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 63bec27..84a159a 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -3,6 +3,7 @@ use std::{
 };
 
 use aquascope_workspace_utils::miri_sysroot;
+use serde_json::Value;
 use snafu::prelude::*;
 use tempfile::{tempdir, TempDir};
 use tokio::{self, process::Command, time};
@@ -220,7 +221,9 @@ impl Container {
       .env("MIRI_SYSROOT", sysroot().await?);
 
     if let Some(config) = req.config.as_ref().and_then(|cfg| cfg.as_object()) {
-      if config.contains_key("shouldFail") {
+      // The standalone page always sends the flag, set or not.
+      let should_fail = config.get("shouldFail");
+      if should_fail.is_some_and(|flag| flag != &Value::Bool(false)) {
         cmd.arg("--should-fail");
       }
     }
-- 
2.43.0


From f03101f7dfdcecdca3749542e387b1bd9399eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 15/18] fix: do not show results for code that was edited
 meanwhile

A response that arrived after an edit, or after a failed request the result
of an earlier one, was drawn at its old positions onto the new code.
---
 .../packages/aquascope-editor/src/lib.tsx     | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/frontend/packages/aquascope-editor/src/lib.tsx b/frontend/packages/aquascope-editor/src/lib.tsx
index 94f05f1..df79939 100644
--- a/frontend/packages/aquascope-editor/src/lib.tsx
+++ b/frontend/packages/aquascope-editor/src/lib.tsx
@@ -19,7 +19,6 @@ import {
 } from "./editor-utils/misc.js";
 import {
   type PermissionsCfg,
-  type PermissionsDecorations,
   makePermissionsDecorations,
   renderPermissions
 } from "./editor-utils/permissions.js";
@@ -116,7 +115,6 @@ export class Editor {
   private view: EditorView;
   private interpreterContainer: HTMLDivElement;
   private editorContainer: HTMLDivElement;
-  private permissionsDecos?: PermissionsDecorations;
   private metaContainer: ReactDOM.Root;
   private buttons: Set<ButtonName>;
   private shouldFail = false;
@@ -222,15 +220,12 @@ export class Editor {
   }
 
   public async renderPermissions(cfg?: PermissionsCfg) {
-    // TODO: the permissions Decos are no longer removed on update
-    // so we have to recompute every time.
-    // if (this.permissionsDecos === undefined) {
+    // The decorations are removed when the code is edited, so we have to
+    // recompute them every time. Those of an earlier request must not be
+    // rendered again if this one fails.
     await this.renderOperation("permissions", {
       config: cfg
     });
-    // }
-
-    renderPermissions(this.view, this.permissionsDecos, cfg);
   }
 
   public destroy() {
@@ -292,7 +287,11 @@ export class Editor {
     console.debug(`Rendering operation: ${operation}`);
 
     if (!response) {
+      let code = this.getCurrentCode();
       let serverResponse = await this.callBackendWithCode(operation, config);
+      // The result is about the code that was sent, its positions mean
+      // nothing in any other.
+      if (this.getCurrentCode() !== code) return;
       if (serverResponse.success) {
         response = JSON.parse(serverResponse.stdout);
         this.reportStdErr({
@@ -351,12 +350,12 @@ export class Editor {
         }
       }
 
-      this.permissionsDecos = makePermissionsDecorations(
+      let decorations = makePermissionsDecorations(
         this.view,
         results,
         annotations
       );
-      renderPermissions(this.view, this.permissionsDecos, config);
+      renderPermissions(this.view, decorations, config);
     }
   }
 }
-- 
2.43.0


From 5a0338c8c071c8fd6168cf1e691c1dffcd900ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 16/18] fix: report why a request of the editor failed

A server's error, a failing connection or a response that is no result left
the page as it was, without any message.
---
 .../packages/aquascope-editor/src/lib.tsx     | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/frontend/packages/aquascope-editor/src/lib.tsx b/frontend/packages/aquascope-editor/src/lib.tsx
index df79939..5396e4c 100644
--- a/frontend/packages/aquascope-editor/src/lib.tsx
+++ b/frontend/packages/aquascope-editor/src/lib.tsx
@@ -249,7 +249,13 @@ export class Editor {
         config
       })
     });
-    let serverResponse: ServerResponse = await serverResponseRaw.json();
+    // The server explains most errors in plain text, and those of the request
+    // itself as an object.
+    let text = await serverResponseRaw.text();
+    if (!serverResponseRaw.ok) throw new Error(text);
+    let serverResponse: ServerResponse & { error?: string } = JSON.parse(text);
+    if (serverResponse.error !== undefined)
+      throw new Error(serverResponse.error);
     return serverResponse;
   }
 
@@ -288,12 +294,21 @@ export class Editor {
 
     if (!response) {
       let code = this.getCurrentCode();
-      let serverResponse = await this.callBackendWithCode(operation, config);
+      let serverResponse: ServerResponse;
+      try {
+        serverResponse = await this.callBackendWithCode(operation, config);
+        if (serverResponse.success)
+          response = JSON.parse(serverResponse.stdout);
+      } catch (e) {
+        return this.reportStdErr({
+          type: "ServerStderr",
+          error: `The request failed. ${e}`
+        });
+      }
       // The result is about the code that was sent, its positions mean
       // nothing in any other.
       if (this.getCurrentCode() !== code) return;
       if (serverResponse.success) {
-        response = JSON.parse(serverResponse.stdout);
         this.reportStdErr({
           type: "ServerStderr",
           error: serverResponse.stderr
@@ -301,7 +316,7 @@ export class Editor {
       } else {
         return this.reportStdErr({
           type: "ServerStderr",
-          error: serverResponse.stderr
+          error: serverResponse.stderr || "The analysis ended without a result."
         });
       }
     }
-- 
2.43.0


From 57eabab0374e937b090c7efad4227ffadd349ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 17/18] fix: recompute an embedded block with its own
 configuration

Without it the refresh button showed neither boundaries nor steps, and a
program that should fail was not interpreted.
---
 frontend/packages/aquascope-embed/src/main.tsx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/aquascope-embed/src/main.tsx b/frontend/packages/aquascope-embed/src/main.tsx
index db3abba..9095f09 100644
--- a/frontend/packages/aquascope-embed/src/main.tsx
+++ b/frontend/packages/aquascope-embed/src/main.tsx
@@ -263,7 +263,9 @@ window.initAquascopeBlocks = (root: HTMLElement) => {
     }
 
     computePermBtn?.addEventListener("click", _ => {
-      operations!.forEach(operation => ed.renderOperation(operation!, {}));
+      operations!.forEach(operation =>
+        ed.renderOperation(operation!, { config })
+      );
     });
   });
 };
-- 
2.43.0


From e2015d9fda8034f77f33d7987d94c86cedbc3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 18/18] fix: redraw the permission steps of a new result

---
 .../packages/aquascope-editor/src/editor-utils/stepper.tsx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx b/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx
index 18043f9..04e3f4a 100644
--- a/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx
+++ b/frontend/packages/aquascope-editor/src/editor-utils/stepper.tsx
@@ -398,8 +398,11 @@ class PermissionStepLineWidget extends WidgetType {
   }
 
   eq(other: PermissionStepLineWidget): boolean {
-    // Only one table widget can (should) be on a line.
-    return this.line.number === other.line.number;
+    // Only one table widget can (should) be on a line. But a widget drawn for
+    // an earlier result refers to the regions of that result, which are gone.
+    return (
+      this.line.number === other.line.number && this.facts === other.facts
+    );
   }
 
   toDOM() {
-- 
2.43.0

