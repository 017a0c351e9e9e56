From 547f01b0f359a3e0e079ac2db1fb8a98bc19a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 01/35] fix: only reuse intact object files which match their
 source

An object file used to hold the result of evaluating a module, which also
depends on the imported modules and the options given, and was judged to be
up to date by comparing timestamps.  So builds silently used stale results,
and a torn or concurrently written object file could crash the next build.

Object files now hold the parsed module only, are checked against a checksum
and the source code they were made from, and are replaced atomically.
---
 src/atomic_file.rs       |  81 +++++++++++++++
 src/compiler/mod.rs      |  18 +---
 src/lib.rs               |   1 +
 src/module/mod.rs        | 211 ++++++++++++++++-----------------------
 src/module_loader/mod.rs |  98 +-----------------
 5 files changed, 175 insertions(+), 234 deletions(-)
 create mode 100644 src/atomic_file.rs

diff --git a/src/atomic_file.rs b/src/atomic_file.rs
new file mode 100644
index 0000000..204189e
--- /dev/null
+++ b/src/atomic_file.rs
@@ -0,0 +1,81 @@
+//! # Atomic file
+//!
+//! Replacing the contents of a file in one step, so that neither a crash, a full disk nor another
+//! process ever gets to see a half-written file.
+//!
+use std::io::Write;
+use std::sync::atomic;
+use std::{ffi, fs, io, path, process};
+
+/// Write `contents` to `filename`: it holds either what it held before or all of `contents`, at
+/// every point in time.  If `sync` is set that includes losing power.
+pub(crate) fn write<P: AsRef<path::Path>>(
+    filename: P,
+    contents: &[u8],
+    sync: bool,
+) -> io::Result<()> {
+    // if it's a symlink we want to replace the file it points to, not the link
+    let filename = match fs::canonicalize(&filename) {
+        Ok(f) => f,
+        Err(e) if e.kind() == io::ErrorKind::NotFound => filename.as_ref().to_path_buf(),
+        Err(e) => return Err(e),
+    };
+
+    let permissions = match fs::symlink_metadata(&filename) {
+        Ok(m) if m.is_file() => {
+            // a file that we're not allowed to write to should not be replaced either
+            fs::OpenOptions::new().write(true).open(&filename)?;
+            Some(m.permissions())
+        }
+        // there is no replacing things like `/dev/stdout` so just write to it
+        Ok(_) => return fs::write(&filename, contents),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+        Err(e) => return Err(e),
+    };
+
+    let (temp_filename, mut temp_file) = create_temp_file(&filename)?;
+
+    let written = temp_file.write_all(contents).and_then(|()| {
+        if let Some(p) = permissions {
+            temp_file.set_permissions(p)?;
+        }
+        if sync {
+            temp_file.sync_all()?;
+        }
+        fs::rename(&temp_filename, &filename)
+    });
+
+    if written.is_err() {
+        let _ = fs::remove_file(&temp_filename);
+    }
+    written
+}
+
+/// Create a file next to `filename` which nobody else (neither another process or thread) is using.
+fn create_temp_file(filename: &path::Path) -> io::Result<(path::PathBuf, fs::File)> {
+    static COUNTER: atomic::AtomicUsize = atomic::AtomicUsize::new(0);
+
+    loop {
+        let mut name = filename
+            .file_name()
+            .unwrap_or(ffi::OsStr::new(""))
+            .to_os_string();
+        name.push(format!(
+            ".{}-{}.tmp",
+            process::id(),
+            COUNTER.fetch_add(1, atomic::Ordering::Relaxed)
+        ));
+        let temp_filename = filename.with_file_name(name);
+
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_filename)
+        {
+            Ok(f) => return Ok((temp_filename, f)),
+            // left over by another run
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => (),
+            Err(e) => return Err(e),
+        }
+    }
+}
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index d4b6ac4..9626bae 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -51,21 +51,9 @@ impl Compiler {
         let mut main_module =
             ModuleLoader::load_main(main_module, loader_root, self.config.use_cache)?;
 
-        if main_module.needs_eval {
-            info!("Compiling main module");
-            main_module = self.eval(main_module)?;
-            main_module.needs_eval = false;
-
-            if self.config.use_cache {
-                debug!(
-                    "Writing object file {:?}",
-                    main_module.source_code.object_code_filename()
-                );
-                main_module.write_object_file()?;
-            }
-        } else {
-            info!("Cached main is up to date, skipping compilation");
-        }
+        info!("Compiling main module");
+        main_module = self.eval(main_module)?;
+        main_module.needs_eval = false;
 
         info!("Compiled main: {main_module}");
 
diff --git a/src/lib.rs b/src/lib.rs
index 6875837..265174a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 #![deny(warnings)]
 
 mod ast;
+mod atomic_file;
 mod cell;
 mod cell_options;
 mod cli_args;
diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d9d807..de19c19 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -10,15 +10,16 @@
 //      be finite and subtract from it
 use crate::ast::Variables;
 use crate::parser::code_section_parser::CodeSectionParser;
-use crate::{
-    compiler_error, ArcSourceCode, Error, ModulePath, Result, Scope, SourceCode, Spreadsheet,
-};
-use log::{debug, error, info, warn};
+use crate::{atomic_file, ArcSourceCode, ModulePath, Result, Scope, SourceCode, Spreadsheet};
+use log::{debug, info, warn};
 use rayon::prelude::*;
-use std::{cmp, fs, path};
+use std::{fs, io, mem, path};
 
 mod display;
 
+/// An object file starts with this, followed by a checksum and the serialized module
+const OBJECT_CODE_HEADER: &str = concat!("csvpo 2 ", env!("CARGO_PKG_VERSION"), "\n");
+
 #[derive(Debug, serde::Deserialize, serde::Serialize)]
 pub struct Module {
     pub compiler_version: String,
@@ -66,30 +67,22 @@ impl Module {
         })
     }
 
-    fn load_from_object_code<P: AsRef<path::Path>>(
-        module_path: ModulePath,
-        relative_to: &ModulePath,
-        loader_root: P,
-    ) -> Option<Self> {
-        let filename = loader_root
-            .as_ref()
-            .join(module_path.filename_relative_to(relative_to));
-        Self::load_from_object_code_from_filename(filename)
-    }
-
-    fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
-        filename.set_extension("csvpo");
-
-        if !filename.exists() {
-            return None;
-        }
-
-        let obj_file_reader = match fs::File::open(&filename) {
-            Ok(r) => r,
-            Err(e) => compiler_error(format!("Error opening object code: {e}")),
+    /// Load the object file (`.csvpo`) belonging to `source_code`.  It's only of use if it is intact,
+    /// written by this version of the compiler and made from exactly this source code - otherwise
+    /// it's treated as though it was not there.
+    fn load_from_object_code(module_path: &ModulePath, source_code: &SourceCode) -> Option<Self> {
+        let filename = source_code.object_code_filename();
+
+        let object_code = match fs::read(&filename) {
+            Ok(o) => o,
+            Err(e) if e.kind() == io::ErrorKind::NotFound => return None,
+            Err(e) => {
+                warn!("Error reading object code from {}: {e}", filename.display());
+                return None;
+            }
         };
 
-        let Ok(loaded_module) = bincode::deserialize_from(obj_file_reader) else {
+        let Some(loaded_module) = Self::decode_object_code(&object_code) else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
@@ -99,7 +92,21 @@ impl Module {
             return None;
         };
 
-        Some(loaded_module)
+        let is_current = loaded_module.source_code.original == source_code.original
+            && loaded_module.source_code.filename == source_code.filename
+            && &loaded_module.module_path == module_path;
+
+        is_current.then_some(loaded_module)
+    }
+
+    fn decode_object_code(object_code: &[u8]) -> Option<Self> {
+        let rest = object_code.strip_prefix(OBJECT_CODE_HEADER.as_bytes())?;
+        let (expected_checksum, encoded) = rest.split_at_checked(mem::size_of::<u64>())?;
+        if expected_checksum != checksum(encoded).to_le_bytes() {
+            return None;
+        }
+
+        bincode::deserialize(encoded).ok()
     }
 
     // TODO: I would love to cut down on all these load_from_* functions
@@ -120,9 +127,16 @@ impl Module {
         module_path: ModulePath,
         filename: path::PathBuf,
     ) -> Result<Self> {
-        info!("Loading {module_path} from source: {}", filename.display());
+        Self::load_from_source_code(module_path, SourceCode::try_from(filename)?)
+    }
 
-        let source_code = ArcSourceCode::new(SourceCode::try_from(filename)?);
+    fn load_from_source_code(module_path: ModulePath, source_code: SourceCode) -> Result<Self> {
+        info!(
+            "Loading {module_path} from source: {}",
+            source_code.filename.display()
+        );
+
+        let source_code = ArcSourceCode::new(source_code);
 
         let (scope, required_modules) = if let Some(scope_source) = &source_code.code_section {
             CodeSectionParser::parse(scope_source, source_code.clone())?
@@ -148,18 +162,15 @@ impl Module {
         module_path: ModulePath,
         filename: path::PathBuf,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) = Self::load_from_object_code_from_filename(filename.clone())
-        {
-            loaded_module.check_if_is_dirty()?;
-
-            // if we have a clean cache read we can just return that, otherwise we'll need to
-            // reload below
-            if !loaded_module.is_dirty {
-                return Ok(loaded_module);
-            }
+        let source_code = SourceCode::try_from(filename)?;
+
+        if let Some(loaded_module) = Self::load_from_object_code(&module_path, &source_code) {
+            return Ok(loaded_module);
         }
 
-        Self::load_from_source_from_filename(module_path, filename)
+        let loaded_module = Self::load_from_source_code(module_path, source_code)?;
+        loaded_module.write_object_file();
+        Ok(loaded_module)
     }
 
     pub(crate) fn load_from_cache<P: AsRef<path::Path>>(
@@ -167,102 +178,56 @@ impl Module {
         relative_to: &ModulePath,
         loader_root: P,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) =
-            Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
-        {
-            loaded_module.check_if_is_dirty()?;
-            Ok(loaded_module)
-        } else {
-            Self::load_from_source_relative(
-                module_path,
-                relative_to,
-                loader_root.as_ref().to_path_buf().clone(),
-            )
-        }
+        Self::load_from_cache_from_filename(
+            module_path.clone(),
+            loader_root
+                .as_ref()
+                .join(module_path.filename_relative_to(relative_to)),
+        )
     }
 
-    pub(crate) fn write_object_file(&mut self) -> Result<()> {
+    /// Save the module so that the next time we don't need to parse it.  It must not have been
+    /// evaluated yet: evaluating depends on other modules and the options we were called with, so
+    /// the result of it can't be re-used by the next run.
+    ///
+    /// It's merely an optimization so failing to write the object file is not an error.
+    fn write_object_file(&self) {
         let object_code_filename = self.source_code.object_code_filename();
 
         debug!("Serializing {}", self.module_path);
-        let encoded = bincode::serialize(&self).map_err(|e| Error::SourceCodeError {
-            filename: object_code_filename.clone(),
-            message: format!("Error serializing object code: {e}"),
-        })?;
-
-        info!("Writing object file to {}", object_code_filename.display());
-
-        fs::write(&object_code_filename, encoded).map_err(|e| {
-            error!("IO error: {e:?}");
-            Error::SourceCodeError {
-                filename: object_code_filename,
-                message: format!("Error opening object code for writing: {e}"),
+        let encoded = match bincode::serialize(&self) {
+            Ok(e) => e,
+            Err(e) => {
+                warn!("Error serializing object code: {e}");
+                return;
             }
-        })?;
-
-        Ok(())
-    }
-
-    /// In the case that `self` was deserialized from an object file (`.csvpo`), we need to see if
-    /// the original source code could possibly have any updates that we don't have.  In other
-    /// words does the source code have changes since this was compiled?
-    ///
-    /// # Errors
-    ///
-    /// * `Error::SourceCodeError` - if unable to stat the source code file
-    /// * `Error::SourceCodeError` - if unable to stat the cached object code file
-    pub fn check_if_is_dirty(&mut self) -> Result<()> {
-        let object_code_filename = self.source_code.object_code_filename();
-
-        let obj_file_modified = fs::metadata(&object_code_filename)
-            .and_then(|s| s.modified())
-            .map_err(|e| Error::SourceCodeError {
-                filename: object_code_filename,
-                message: format!("Unable to stat object code: {e}"),
-            })?;
-
-        let source_file_modified = fs::metadata(&self.source_code.filename)
-            .and_then(|s| s.modified())
-            .map_err(|e| Error::SourceCodeError {
-                filename: self.source_code.filename.clone(),
-                message: format!("Unable to stat source code: {e}"),
-            })?;
-
-        // is the object code more recent than the source? (i.e., no changes since it was last
-        // written)
-        if source_file_modified > obj_file_modified {
-            self.is_dirty = true;
-            self.needs_eval = true;
-            return Ok(());
-        }
-
-        let current_version = env!("CARGO_PKG_VERSION");
-        let this_version = match semver::Version::parse(current_version) {
-            Ok(v) => v,
-            Err(e) => compiler_error(format!(
-                "Unable to parse compiler version `{current_version}`: {e}"
-            )),
         };
 
-        let loaded_version = match semver::Version::parse(&self.compiler_version) {
-            Ok(v) => v,
-            Err(e) => compiler_error(format!(
-                "Unable to parse loaded module version `{}`: {e}",
-                &self.compiler_version
-            )),
-        };
+        info!("Writing object file to {}", object_code_filename.display());
 
-        // if the version is less than ours, don't use it and recompile instead.  otherwise we can
-        // trust that it's ok to use
-        self.is_dirty = match this_version.cmp(&loaded_version) {
-            cmp::Ordering::Equal | cmp::Ordering::Greater => false,
-            cmp::Ordering::Less => true,
-        };
+        let object_code = [
+            OBJECT_CODE_HEADER.as_bytes(),
+            &checksum(&encoded).to_le_bytes(),
+            &encoded,
+        ]
+        .concat();
 
-        Ok(())
+        if let Err(e) = atomic_file::write(&object_code_filename, &object_code, false) {
+            warn!(
+                "Error writing object code to {}: {e}",
+                object_code_filename.display()
+            );
+        }
     }
 }
 
+/// FNV-1a, to tell whether an object file has been damaged
+fn checksum(bytes: &[u8]) -> u64 {
+    bytes.iter().fold(0xcbf2_9ce4_8422_2325, |hash, b| {
+        (hash ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3)
+    })
+}
+
 #[cfg(test)]
 mod tests {
     // TODO
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index dcdf549..1f032a8 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -28,7 +28,6 @@ pub(super) struct ModuleLoader {
     loaded: Loaded,
     loader_root: path::PathBuf,
     main_module: Module,
-    is_dirty: bool,
     use_cache: bool,
 }
 
@@ -64,30 +63,13 @@ impl ModuleLoader {
             loaded: sync::Arc::default(),
             main_module,
             loader_root: relative_to.into(),
-            is_dirty: false,
             use_cache,
         };
-        let mut were_any_deps_dirty = false;
-
-        // we need to do this in a loop because every time we reload dirty dependencies we're
-        // pulling in changes to the source code, which could mean the author added a new `use ...`
-        // in which case we need to load it
-        loop {
-            module_loader.load(&module_loader.main_module)?;
-            module_loader = module_loader.propagate_dirty_flag()?;
-            if module_loader.is_dirty {
-                were_any_deps_dirty = true;
-                module_loader.reload_dirty_modules()?;
-            } else {
-                break;
-            }
-        }
 
+        module_loader.load(&module_loader.main_module)?;
         module_loader.eval_dependencies()?;
 
-        let mut main = module_loader.merge_direct_dependencies()?;
-        main.is_dirty = were_any_deps_dirty;
-        Ok(main)
+        module_loader.merge_direct_dependencies()
     }
 
     /// Returns only the direct dependencies for this module graph.  For example if our Module A
@@ -157,73 +139,6 @@ impl ModuleLoader {
         dep_graph
     }
 
-    fn dirty_nodes(&self) -> collections::HashSet<ModulePath> {
-        let loaded = self.loaded.read().unwrap();
-        let dep_graph = self.load_dependency_graph();
-
-        let mut dirty_nodes: collections::HashSet<ModulePath> = collections::HashSet::default();
-        for node in dep_graph.node_indices().collect::<Vec<_>>() {
-            let Some(module) = loaded.get(&dep_graph[node]) else {
-                continue;
-            };
-
-            if module.is_dirty {
-                for graph_path in algo::simple_paths::all_simple_paths::<Vec<_>, _>(
-                    &dep_graph,
-                    // just assume that the main module is at index 0
-                    graph::NodeIndex::new(0),
-                    node,
-                    1,
-                    None,
-                ) {
-                    for n in graph_path {
-                        dirty_nodes.insert(dep_graph[n].clone());
-                    }
-                }
-            }
-        }
-
-        dirty_nodes
-    }
-
-    fn propagate_dirty_flag(self) -> Result<Self> {
-        let dirty_nodes = self.dirty_nodes();
-        let mut loaded = sync::Arc::try_unwrap(self.loaded)
-            .expect("Unable to access loaded")
-            .into_inner()?;
-
-        let is_dirty = !dirty_nodes.is_empty();
-
-        for mp in dirty_nodes {
-            if let Some(n) = loaded.get_mut(&mp) {
-                n.is_dirty = true;
-            }
-        }
-
-        Ok(Self {
-            loaded: sync::Arc::new(sync::RwLock::new(loaded)),
-            is_dirty,
-            ..self
-        })
-    }
-
-    fn reload_dirty_modules(&mut self) -> Result<()> {
-        let loaded = self.loaded.read().unwrap();
-        for (mp, module) in loaded.iter() {
-            if module.is_dirty {
-                self.loaded.write()?.insert(
-                    mp.clone(),
-                    Module::load_from_source_from_filename(
-                        mp.clone(),
-                        module.source_code.filename.clone(),
-                    )?,
-                );
-            }
-        }
-
-        Ok(())
-    }
-
     fn eval_dependencies(&mut self) -> Result<()> {
         let dep_graph = self.load_dependency_graph();
         let mut loaded = self.loaded.write()?;
@@ -248,10 +163,6 @@ impl ModuleLoader {
                 continue;
             };
 
-            if !to_resolve.needs_eval {
-                continue;
-            }
-
             // let mut local_scope = to_resolve.scope.clone();
             for req_path in to_resolve.required_modules.iter().rev() {
                 let Some(dep_scope) = scopes.get(req_path) else {
@@ -266,11 +177,6 @@ impl ModuleLoader {
             eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
             eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
 
-            // now that we've evaled it that's the last step, write the csvpo file
-            if self.use_cache {
-                to_resolve.write_object_file()?;
-            }
-
             scopes.insert(to_resolve.module_path.clone(), to_resolve.scope.clone());
         }
 
-- 
2.43.0


From dfa8f923742f96dec475862b857e31c6bb38e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 02/35] fix: do not load main from its object file with
 --no-cache

---
 src/compiler/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 9626bae..bd1ab5e 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,8 +44,11 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module =
-            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?;
+        let main_module = if self.config.use_cache {
+            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
+        } else {
+            Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
+        };
 
         debug!("Loading dependencies for {}", &main_module.module_path);
         let mut main_module =
-- 
2.43.0


From 7eaf0a86f6ae5ca9b253d934d1d04db5d7bfbc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 03/35] fix: report all load failures, instead of crashing, for
 transitive or repeated imports

---
 src/module_loader/mod.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 1f032a8..10d0407 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -67,6 +67,15 @@ impl ModuleLoader {
         };
 
         module_loader.load(&module_loader.main_module)?;
+
+        if module_loader.has_failures() {
+            return Err(Error::ModuleLoadErrors(
+                sync::Arc::try_unwrap(module_loader.failed)
+                    .expect("Unable to access failed")
+                    .into_inner()?,
+            ));
+        }
+
         module_loader.eval_dependencies()?;
 
         module_loader.merge_direct_dependencies()
@@ -76,24 +85,19 @@ impl ModuleLoader {
     /// requires Module B which in turn requires Module C, we will only get vars & functions from
     /// Module B, not from Module C (or any other indirect dependencies)
     fn merge_direct_dependencies(self) -> Result<Module> {
-        if self.has_failures() {
-            Err(Error::ModuleLoadErrors(
-                sync::Arc::try_unwrap(self.failed)
-                    .expect("Unable to access failed")
-                    .into_inner()?,
-            ))
-        } else {
-            let mut loaded = self.loaded.write()?;
-            let mut main_module = self.main_module;
-
-            for req_path in &main_module.required_modules {
-                main_module
-                    .scope
-                    .merge(&loaded.remove(req_path).unwrap().scope);
-            }
-
-            Ok(main_module)
+        let loaded = self.loaded.read()?;
+        let mut main_module = self.main_module;
+
+        for req_path in &main_module.required_modules {
+            let Some(required) = loaded.get(req_path) else {
+                compiler_error(format!(
+                    "Expected required module to have been loaded: {req_path}"
+                ))
+            };
+            main_module.scope.merge(&required.scope);
         }
+
+        Ok(main_module)
     }
 
     fn load_dependency_graph(&self) -> graph::Graph<ModulePath, ()> {
-- 
2.43.0


From 8491ee7255f5ef70799f8a69a83af634698d07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 04/35] fix: evaluate in a fixed order so that the result does
 not depend on hash seeds and threads

---
 src/ast/eval.rs          |  5 +++++
 src/module/mod.rs        |  4 ++++
 src/module_loader/mod.rs | 16 ++++++++++++++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2c6bfc7..f2e095d 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -61,6 +61,8 @@ impl Ast {
     /// resolution function requires being called with the `arguments` at the call site.
     fn eval_functions(self, fns_to_resolve: ReferencesIter, scope: &Scope) -> EvalResult<Self> {
         let mut evaled_ast = self;
+        let mut fns_to_resolve = fns_to_resolve.collect::<Vec<_>>();
+        fns_to_resolve.sort();
         for fn_name in fns_to_resolve {
             if let Some(fn_ast) = scope.functions.get(&fn_name) {
                 evaled_ast = evaled_ast.call_function(&fn_name, fn_ast)?;
@@ -78,6 +80,9 @@ impl Ast {
     /// it's given replacement.
     fn eval_variables(&self, variable_values: Variables) -> Self {
         let mut evaled_ast = self.clone();
+        // sorted so that it expands the same way every time
+        let mut variable_values = variable_values.into_iter().collect::<Vec<_>>();
+        variable_values.sort_by(|(a, _), (b, _)| a.cmp(b));
         for (var_id, replacement) in variable_values {
             evaled_ast = evaled_ast.replace_variable(&var_id, replacement);
         }
diff --git a/src/module/mod.rs b/src/module/mod.rs
index de19c19..fa8d949 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -55,6 +55,10 @@ impl Module {
             .into_par_iter()
             .enumerate()
             .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
+            // collecting all of the rows first because in case there are several errors we always
+            // want to report the first one rather than the one which a thread happened to see first
+            .collect::<Vec<_>>()
+            .into_iter()
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Self {
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 10d0407..4cec072 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -34,7 +34,15 @@ pub(super) struct ModuleLoader {
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
     ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
-        for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
+        // sorted so that they're evaluated in the same order every time
+        let mut to_eval = $scope
+            .$functions_or_variables
+            .clone()
+            .into_iter()
+            .collect::<Vec<_>>();
+        to_eval.sort_by(|(a, _), (b, _)| a.cmp(b));
+
+        for (name, ast) in to_eval {
             $scope.$functions_or_variables.insert(
                 name,
                 ast.eval(&$scope, None)
@@ -118,7 +126,11 @@ impl ModuleLoader {
             dep_graph.add_edge(main_node, direct_dep_node, ());
         }
 
-        for (p, dep_mod) in loaded.iter() {
+        // in a fixed order, because for cyclic imports it decides the order of the resolution
+        let mut loaded_modules = loaded.iter().collect::<Vec<_>>();
+        loaded_modules.sort_by_key(|(p, _)| *p);
+
+        for (p, dep_mod) in loaded_modules {
             // TODO: clean this up with a macro or something. or maybe wrap the petgraph into a
             // `UniqueGraph` of my own making
             let dep_node = loaded_nodes
-- 
2.43.0


From 97e867d2e0da80f81287d1d46306792d66af769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 05/35] fix: do not loop forever on definitions which refer to
 each other

---
 src/ast/eval.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index f2e095d..b77c7ca 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -9,18 +9,18 @@ use std::collections;
 
 impl Ast {
     /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
-    /// progress means that `.extract_references()` returns a different, non-empty result each
-    /// time.
+    /// progress means that `.extract_references()` returns a non-empty result which we have not seen
+    /// before (definitions that refer to each other would otherwise keep us going forever).
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
         let mut evaled_ast = self;
-        let mut last_round_refs = AstReferences::default();
+        let mut seen_refs: Vec<AstReferences> = vec![];
 
         loop {
             let refs = evaled_ast.extract_references(scope);
-            if refs.is_empty() || refs == last_round_refs {
+            if refs.is_empty() || seen_refs.contains(&refs) {
                 break;
             }
-            last_round_refs = refs.clone();
+            seen_refs.push(refs.clone());
 
             evaled_ast = evaled_ast
                 .eval_variables(Self::resolve_variables(
-- 
2.43.0


From 2b47aa2cdd38b5f715a5b96ac8cacced480e0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 06/35] fix: expand nested calls of a function and calls within
 imported functions

---
 src/ast/eval.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index b77c7ca..ac26ed1 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -97,6 +97,13 @@ impl Ast {
         let inner = self.into_inner();
         Ok(match inner {
             Node::FunctionCall { args, name } if name == fn_id => {
+                // the arguments might call the same function
+                let mut called_args = Vec::with_capacity(args.len());
+                for arg in args {
+                    called_args.push(arg.call_function(fn_id, fn_ast)?);
+                }
+                let args = called_args;
+
                 match (*fn_ast).clone().into_inner() {
                     // when we get a `Node::Function`, take the body and replace each of it's
                     // arguments in the body.  For example:
@@ -168,6 +175,15 @@ impl Ast {
             }
             .into(),
 
+            // and the body of a function, so that when it's exported it does not depend on what is
+            // in scope of the importing module
+            Node::Function { args, body, name } => Node::Function {
+                args,
+                body: body.call_function(fn_id, fn_ast)?,
+                name,
+            }
+            .into(),
+
             Node::Variable {
                 value: VariableValue::Ast(ast),
                 name,
-- 
2.43.0


From fb8ca7c676644bec0a8243c5951e92e2df8f555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 07/35] fix: replace the output file in one step

so that a full disk, a crash or a failed build does not leave a truncated
output file behind.
---
 src/target/csv/compilation_target.rs   | 17 +++++++----------
 src/target/excel/compilation_target.rs | 14 +++++++++-----
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index f60b960..77a583a 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -1,5 +1,5 @@
 use crate::target::{file_backer_upper, merge_rows, CompilationTarget, Csv, MergeResult};
-use crate::{Module, Result};
+use crate::{atomic_file, Module, Result};
 
 impl CompilationTarget for Csv<'_> {
     fn write_backup(&self) -> Result<()> {
@@ -12,13 +12,7 @@ impl CompilationTarget for Csv<'_> {
 
         let widest_row = module.spreadsheet.widest_row();
 
-        let mut writer = csv::WriterBuilder::new()
-            .flexible(true)
-            .from_path(&self.path)
-            .map_err(|e| {
-                self.compiler
-                    .output_error(format!("Unable to open output file for writing: {e:?}"))
-            })?;
+        let mut writer = csv::WriterBuilder::new().flexible(true).from_writer(vec![]);
 
         for (index, row) in module.spreadsheet.rows.iter().enumerate() {
             let mut output_row: Vec<String> = merge_rows(
@@ -46,12 +40,15 @@ impl CompilationTarget for Csv<'_> {
             })?;
         }
 
-        writer.flush().map_err(|e| {
+        let output = writer.into_inner().map_err(|e| {
             self.compiler
                 .output_error(format!("Unable to finish writing to output: {e}"))
         })?;
 
-        Ok(())
+        atomic_file::write(&self.path, &output, true).map_err(|e| {
+            self.compiler
+                .output_error(format!("Unable to write output: {e}"))
+        })
     }
 }
 
diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index ad49796..3185ccc 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -1,6 +1,6 @@
 use super::super::{file_backer_upper, CompilationTarget};
 use super::Excel;
-use crate::{Module, Result};
+use crate::{atomic_file, Module, Result};
 use umya_spreadsheet as u;
 
 impl CompilationTarget for Excel<'_> {
@@ -20,14 +20,18 @@ impl CompilationTarget for Excel<'_> {
 
         self.build_worksheet(module, worksheet);
 
-        u::writer::xlsx::write(&spreadsheet, self.path.clone()).map_err(|e| {
+        let mut output = vec![];
+        u::writer::xlsx::write_writer(&spreadsheet, &mut output).map_err(|e| {
+            self.compiler
+                .output_error(format!("Unable to build target file: {e}"))
+        })?;
+
+        atomic_file::write(&self.path, &output, true).map_err(|e| {
             self.compiler.output_error(format!(
                 "Unable to write target file {}: {e}",
                 self.path.display()
             ))
-        })?;
-
-        Ok(())
+        })
     }
 }
 
-- 
2.43.0


From 3b83776c6b600ae2e34757178a0d3fdbc1bbcb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 08/35] fix: keep existing CSV rows and cells outside of the
 compiled area with --safe

---
 src/target/csv/compilation_target.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index 77a583a..9689bb8 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -1,5 +1,6 @@
 use crate::target::{file_backer_upper, merge_rows, CompilationTarget, Csv, MergeResult};
 use crate::{atomic_file, Module, Result};
+use std::cmp;
 
 impl CompilationTarget for Csv<'_> {
     fn write_backup(&self) -> Result<()> {
@@ -10,17 +11,29 @@ impl CompilationTarget for Csv<'_> {
     fn write(&self, module: &Module) -> Result<()> {
         let existing_values = Self::read(&self.path, &self.compiler.output)?;
 
-        let widest_row = module.spreadsheet.widest_row();
+        let mut row_count = module.spreadsheet.rows.len();
+        let mut widest_row = module.spreadsheet.widest_row();
+        if !self.compiler.config.overwrite_values {
+            // nothing that's already there may get lost, even if it's outside of what we compiled
+            row_count = cmp::max(row_count, existing_values.cells.len());
+            for existing_row in &existing_values.cells {
+                widest_row = cmp::max(widest_row, existing_row.len());
+            }
+        }
 
         let mut writer = csv::WriterBuilder::new().flexible(true).from_writer(vec![]);
 
-        for (index, row) in module.spreadsheet.rows.iter().enumerate() {
+        for index in 0..row_count {
             let mut output_row: Vec<String> = merge_rows(
                 existing_values
                     .cells
                     .get(index)
                     .unwrap_or(&vec![].to_owned()),
-                &row.cells,
+                module
+                    .spreadsheet
+                    .rows
+                    .get(index)
+                    .map_or(&[], |row| &row.cells),
                 &self.compiler.config,
             )
             .iter()
-- 
2.43.0


From e4319dcf96b8d2f6e45b2728b70c34f765adffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 09/35] fix: do not shift existing CSV rows which come after an
 empty line

---
 src/target/csv/mod.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/target/csv/mod.rs b/src/target/csv/mod.rs
index b2bda54..9bd077b 100644
--- a/src/target/csv/mod.rs
+++ b/src/target/csv/mod.rs
@@ -19,6 +19,34 @@ fn csv_reader() -> csv::ReaderBuilder {
     csv_reader
 }
 
+/// The number of empty lines which were skipped to get to `record`
+fn empty_lines_before(record: &csv::StringRecord, contents: &[u8]) -> usize {
+    let start = record
+        .position()
+        .map_or(0, csv::Position::byte)
+        .try_into()
+        .unwrap_or(usize::MAX);
+    let Some((before, mut rest)) = contents.split_at_checked(start) else {
+        return 0;
+    };
+
+    if before.ends_with(b"\r") {
+        // the second half of the previous record's line ending
+        rest = rest.strip_prefix(b"\n").unwrap_or(rest);
+    }
+
+    let mut empty_lines = 0;
+    while let Some(r) = rest
+        .strip_prefix(b"\r\n")
+        .or(rest.strip_prefix(b"\n"))
+        .or(rest.strip_prefix(b"\r"))
+    {
+        rest = r;
+        empty_lines += 1;
+    }
+    empty_lines
+}
+
 impl<'a> Csv<'a> {
     pub fn new<P: Into<path::PathBuf>>(compiler: &'a Compiler, path: P) -> Self {
         Self {
@@ -32,8 +60,8 @@ impl<'a> Csv<'a> {
     }
 
     fn read<P: AsRef<path::Path>>(path: P, output: &Output) -> Result<ExistingValues<String>> {
-        let file = match fs::File::open(path.as_ref()) {
-            Ok(f) => f,
+        let contents = match fs::read(path.as_ref()) {
+            Ok(c) => c,
             Err(e) => {
                 return match e.kind() {
                     io::ErrorKind::NotFound => Ok(ExistingValues::default()),
@@ -44,13 +72,18 @@ impl<'a> Csv<'a> {
             }
         };
 
-        let mut reader = csv_reader().from_reader(io::BufReader::new(file));
+        let mut reader = csv_reader().from_reader(contents.as_slice());
 
         let mut cells = vec![];
         for result in reader.records() {
+            let record = result.or(Err(output.clone().into_error("Error reading CSV row")))?;
+
+            // the reader leaves out empty lines, but they're rows like any other
+            let empty_lines = empty_lines_before(&record, &contents);
+            cells.resize(cells.len() + empty_lines, vec![]);
+
             cells.push(
-                result
-                    .or(Err(output.clone().into_error("Error reading CSV row")))?
+                record
                     .iter()
                     .map(|cell| {
                         if cell.is_empty() {
-- 
2.43.0


From daffe72fae957e45651c92c20605f1e694e91d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 10/35] fix: never replace an existing Excel file which could
 not be read

---
 src/target/excel/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f354fb..6bf2342 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -5,7 +5,7 @@
 use super::{merge_cell, ExistingCell, MergeResult};
 use crate::ast::Node;
 use crate::{Cell, Compiler, Module, Result};
-use std::{ffi, path};
+use std::{ffi, fs, io, path};
 use umya_spreadsheet as u;
 
 mod cell_validation;
@@ -151,13 +151,18 @@ impl<'a> Excel<'a> {
     }
 
     fn open_spreadsheet(&self) -> Result<u::Spreadsheet> {
-        if self.path.exists() {
-            u::reader::xlsx::read(self.path.as_path()).map_err(|e| {
-                self.compiler
-                    .output_error(format!("Unable to open target file: {e}"))
-            })
-        } else {
-            Ok(u::new_file_empty_worksheet())
+        match fs::read(&self.path) {
+            Ok(contents) => {
+                u::reader::xlsx::read_reader(io::Cursor::new(contents), true).map_err(|e| {
+                    self.compiler
+                        .output_error(format!("Unable to open target file: {e}"))
+                })
+            }
+            // only start from scratch if it's really not there (as opposed to not accessible)
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(u::new_file_empty_worksheet()),
+            Err(e) => Err(self
+                .compiler
+                .output_error(format!("Unable to open target file: {e}"))),
         }
     }
 
-- 
2.43.0


From e45f52c2d30f0d3ca5cf6d82f1d6f487473c7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 11/35] fix: fill in blank Excel cells with --safe

---
 src/target/excel/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 6bf2342..79908b8 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -142,11 +142,12 @@ impl<'a> Excel<'a> {
         position: a1::Address,
         worksheet: &u::Worksheet,
     ) -> ExistingCell<ExcelValue> {
-        let cell_value = worksheet.get_cell(position.to_string());
-        if let Some(cell) = cell_value {
-            ExistingCell::Value(cell.clone())
-        } else {
-            ExistingCell::Empty
+        match worksheet.get_cell(position.to_string()) {
+            // a cell can be there (for it's style) without having any value
+            Some(cell) if cell.is_formula() || !cell.get_value().is_empty() => {
+                ExistingCell::Value(cell.clone())
+            }
+            _ => ExistingCell::Empty,
         }
     }
 
-- 
2.43.0


From 3466f03521c2b5afaedb556dbaf9cabfb80333e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 12/35] fix: write to Google Sheets at the given offset and
 after 1000 rows continue below them

---
 .../google_sheets/batch_update_builder.rs     | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f0c9d4a..35bcb27 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -7,6 +7,8 @@ use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
 
+const ROWS_PER_REQUEST: usize = 1000;
+
 pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
@@ -37,11 +39,12 @@ impl<'a> BatchUpdateBuilder<'a> {
     fn batch_update_cells_requests(&self) -> Vec<api::Request> {
         let all_rows = self.row_data();
 
-        // split the rows into requests with 1000 per
+        // split the rows into requests, each starting where the previous one ended
         all_rows
-            .chunks(1000)
-            .map(|rows| api::Request {
-                update_cells: Some(self.update_cells_request(rows)),
+            .chunks(ROWS_PER_REQUEST)
+            .enumerate()
+            .map(|(i, rows)| api::Request {
+                update_cells: Some(self.update_cells_request(i * ROWS_PER_REQUEST, rows)),
                 ..Default::default()
             })
             .collect()
@@ -73,6 +76,12 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
+    /// Where to start writing, as column and row
+    fn offset(&self) -> (usize, usize) {
+        let (x, y) = self.compiler.config.offset;
+        (x as usize, y as usize)
+    }
+
     fn row_data(&self) -> Vec<api::RowData> {
         self.module
             .spreadsheet
@@ -91,18 +100,21 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
-    fn update_cells_request(&self, rows: &[api::RowData]) -> api::UpdateCellsRequest {
+    fn update_cells_request(
+        &self,
+        first_row: usize,
+        rows: &[api::RowData],
+    ) -> api::UpdateCellsRequest {
+        let (column_offset, row_offset) = self.offset();
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
                 // TODO: get rid of the unwraps
                 column_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
-                        .expect("a 32-bit value for column offset"),
+                    i32::try_from(column_offset).expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0)
-                        .expect("a 32-bit value for row offset"),
+                    i32::try_from(row_offset + first_row).expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
             }),
-- 
2.43.0


From 98cee7c195c3070d28679e13da8c565ce156b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 13/35] fix: merge with the existing Google Sheets cells at the
 offset and fill in blank ones with --safe

---
 .../google_sheets/batch_update_builder.rs     | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 35bcb27..393241c 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -2,7 +2,7 @@
 //!
 use super::{google_sheets_cell, SheetsValue};
 use crate::ast::Node;
-use crate::target::{merge_rows, ExistingValues, MergeResult};
+use crate::target::{merge_rows, ExistingCell, ExistingValues, MergeResult};
 use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
@@ -82,6 +82,32 @@ impl<'a> BatchUpdateBuilder<'a> {
         (x as usize, y as usize)
     }
 
+    /// The existing cells which row `index` is going to be written to.  The sheet also gives us cells
+    /// which are only formatted - if there is something to put into them, that's not considered
+    /// existing.
+    fn existing_row(&self, index: usize, new_cells: usize) -> Vec<ExistingCell<SheetsValue>> {
+        let (column_offset, row_offset) = self.offset();
+
+        self.existing_values
+            .cells
+            .get(row_offset + index)
+            .into_iter()
+            .flatten()
+            .skip(column_offset)
+            .enumerate()
+            .map(|(i, cell)| match cell {
+                ExistingCell::Value(v)
+                    if i < new_cells
+                        && v.user_entered_value.is_none()
+                        && v.effective_value.is_none() =>
+                {
+                    ExistingCell::Empty
+                }
+                c => c.clone(),
+            })
+            .collect()
+    }
+
     fn row_data(&self) -> Vec<api::RowData> {
         self.module
             .spreadsheet
@@ -89,9 +115,8 @@ impl<'a> BatchUpdateBuilder<'a> {
             .iter()
             .enumerate()
             .map(|(i, row)| {
-                let empty_row = vec![];
-                let existing_row = self.existing_values.cells.get(i).unwrap_or(&empty_row);
-                let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
+                let existing_row = self.existing_row(i, row.cells.len());
+                let merged_row = merge_rows(&existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
                     values: Some(Self::cell_data(&merged_row)),
-- 
2.43.0


From f60a1a2b483c7533b62527c070dd4d7b47ccf317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 14/35] fix: never overwrite an earlier backup and do not leave
 partial ones

A stem with a dot lost its timestamp, two builds could pick the same name and
a failed copy was left in place.
---
 src/target/file_backer_upper.rs | 64 ++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 543dbed..63c954c 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -1,8 +1,7 @@
 use crate::{Compiler, Result};
 use chrono::prelude::Local;
 use log::info;
-use std::fs;
-use std::path;
+use std::{fs, io, path};
 
 const BACKUP_FORMATS: &[&str] = &[
     // filename.csv -> filename-2023-04-25.csv
@@ -17,52 +16,41 @@ const BACKUP_FORMATS: &[&str] = &[
 
 /// Makes a copy of a file like foo.xlsx to foo-2023-04-25.xlsx
 ///
-// NOTE:
-// this operation is not atomic - to do so we'd need to create a tempfile, write to it
-// then move it in place.  (but for this use case I don't think it matters)
+/// The copy is on disk once this returns, and it never replaces another file.
 pub(crate) fn backup_file<P: AsRef<path::Path>>(
     compiler: &Compiler,
     filename: P,
 ) -> Result<path::PathBuf> {
     let filename = filename.as_ref();
-
     info!("Backing up file: {}", filename.display());
 
     let filename_str = filename
         .to_str()
         .ok_or(compiler.output_error("Unable to format output filename"))?;
-
     let file_stem = filename
         .file_stem()
-        .ok_or(compiler.output_error(format!("Unable to get base file for: {filename_str}")))?;
-
-    let file_parent = filename.parent().ok_or(compiler.output_error(format!(
-        "Unable to get parent base file for: {filename_str}",
-    )))?;
-
+        .ok_or(compiler.output_error(format!("Unable to get base file for: {filename_str}")))?
+        .to_string_lossy();
     let file_extension = filename
         .extension()
-        .ok_or(compiler.output_error(format!("Unable to get extension for: {filename_str}")))?;
+        .ok_or(compiler.output_error(format!("Unable to get extension for: {filename_str}")))?
+        .to_string_lossy();
 
     let now = Local::now();
+
     for time_format in BACKUP_FORMATS {
         let timestamp = now.format(time_format);
+        let new_file = filename.with_file_name(format!("{file_stem}-{timestamp}.{file_extension}"));
 
-        let mut new_file = file_parent.to_path_buf();
-        new_file.push(format!("{}-{timestamp}", file_stem.to_str().unwrap()));
-        new_file.set_extension(file_extension);
-
-        if new_file.exists() {
-            continue;
-        }
-
-        if let Err(e) = fs::copy(filename, &new_file) {
-            return Err(
-                compiler.output_error(format!("Error making backup of {filename_str}: {e}",))
-            );
+        match copy_to_new_file(filename, &new_file) {
+            Ok(()) => return Ok(new_file),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => (),
+            Err(e) => {
+                return Err(
+                    compiler.output_error(format!("Error making backup of {filename_str}: {e}"))
+                )
+            }
         }
-
-        return Ok(new_file);
     }
 
     Err(compiler.output_error(format!(
@@ -70,6 +58,26 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
     )))
 }
 
+fn copy_to_new_file(filename: &path::Path, new_filename: &path::Path) -> io::Result<()> {
+    let mut file = fs::File::open(filename)?;
+    let permissions = file.metadata()?.permissions();
+
+    // `create_new` makes sure that nobody else is using that name
+    let mut new_file = fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(new_filename)?;
+
+    let copied = io::copy(&mut file, &mut new_file)
+        .and_then(|_| new_file.set_permissions(permissions))
+        .and_then(|()| new_file.sync_all());
+
+    if copied.is_err() {
+        let _ = fs::remove_file(new_filename);
+    }
+    copied
+}
+
 #[cfg(test)]
 mod tests {
     // use super::*;
-- 
2.43.0


From d3dcf2139ca5186a317db541d4ca8474a77ba8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 15/35] fix: report unusable system certificates rather than
 panicking

---
 src/target/google_sheets/mod.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 62e876e..41ef530 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -120,18 +120,21 @@ impl<'a> GoogleSheets<'a> {
         })
     }
 
+    fn connector() -> Result<HyperConnector> {
+        Ok(hyper_rustls::HttpsConnectorBuilder::new()
+            .with_native_roots()
+            .map_err(|e| {
+                Error::GoogleSetupError(format!("Unable to load the system's certificates: {e}"))
+            })?
+            .https_or_http()
+            .enable_http1()
+            .build())
+    }
+
     async fn drive_hub(&self) -> Result<DriveHub> {
-        // TODO remove duplication
         let client =
             hyper_util::client::legacy::Client::builder(hyper_util::rt::TokioExecutor::new())
-                .build(
-                    hyper_rustls::HttpsConnectorBuilder::new()
-                        .with_native_roots()
-                        .unwrap() // TODO get rid of unwrap
-                        .https_or_http()
-                        .enable_http1()
-                        .build(),
-                );
+                .build(Self::connector()?);
         Ok(google_drive3::DriveHub::new(
             client,
             self.credentials.auth().await?,
@@ -141,14 +144,7 @@ impl<'a> GoogleSheets<'a> {
     async fn sheets_hub(&self) -> Result<SheetsHub> {
         let client =
             hyper_util::client::legacy::Client::builder(hyper_util::rt::TokioExecutor::new())
-                .build(
-                    hyper_rustls::HttpsConnectorBuilder::new()
-                        .with_native_roots()
-                        .unwrap() // TODO get rid of unwrap
-                        .https_or_http()
-                        .enable_http1()
-                        .build(),
-                );
+                .build(Self::connector()?);
         Ok(google_sheets4::Sheets::new(
             client,
             self.credentials.auth().await?,
-- 
2.43.0


From 144e6e397726af7b7c6f5e8a8ae2f13557744d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 16/35] fix: end the row after a quoted cell at the end of a
 line

The newline after a closing quote was skipped as white space, so a row that
ended in a quoted cell either failed to parse or swallowed the next row.
---
 csvp/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 7a67674..5c209d6 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -231,8 +231,9 @@ impl<'a> Parser<'a> {
     fn parse_rest_of_quoted_field(&mut self, fb: FieldBuilder) -> Result<FieldResult> {
         loop {
             match self.consume_char() {
-                Some(c) if c.is_whitespace() => continue,
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
                     return Err(self.parse_error(format!(
-- 
2.43.0


From e2cdd8efc2bf872df42164db53ec9f2bf5b36ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 17/35] fix: replace the file a dangling symbolic link points
 to in one step as well

---
 src/atomic_file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/atomic_file.rs b/src/atomic_file.rs
index 204189e..4dba4c5 100644
--- a/src/atomic_file.rs
+++ b/src/atomic_file.rs
@@ -17,7 +17,14 @@ pub(crate) fn write<P: AsRef<path::Path>>(
     // if it's a symlink we want to replace the file it points to, not the link
     let filename = match fs::canonicalize(&filename) {
         Ok(f) => f,
-        Err(e) if e.kind() == io::ErrorKind::NotFound => filename.as_ref().to_path_buf(),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => match fs::read_link(&filename) {
+            // the file it points to doesn't exist yet
+            Ok(link) => {
+                let pointed_to = filename.as_ref().with_file_name("").join(link);
+                return write(pointed_to, contents, sync);
+            }
+            Err(_) => filename.as_ref().to_path_buf(),
+        },
         Err(e) => return Err(e),
     };
 
-- 
2.43.0


From 8c39e75e120a68a11b53cd9629a5a6ee7a6658bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 18/35] fix: leave circular definitions unexpanded

Expanding them over and over made the expressions grow exponentially, so that
such a build practically never finished.
---
 src/ast/eval.rs       |  5 +++--
 src/ast/references.rs | 52 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index ac26ed1..4560ea5 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -10,13 +10,14 @@ use std::collections;
 impl Ast {
     /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
     /// progress means that `.extract_references()` returns a non-empty result which we have not seen
-    /// before (definitions that refer to each other would otherwise keep us going forever).
+    /// before.  Definitions that refer to themselves (via others or not) can never be fully expanded
+    /// and each attempt at it would only make them larger, so they're left alone.
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
         let mut evaled_ast = self;
         let mut seen_refs: Vec<AstReferences> = vec![];
 
         loop {
-            let refs = evaled_ast.extract_references(scope);
+            let refs = evaled_ast.extract_references(scope).without_circular(scope);
             if refs.is_empty() || seen_refs.contains(&refs) {
                 break;
             }
diff --git a/src/ast/references.rs b/src/ast/references.rs
index 0abca64..e8c2684 100644
--- a/src/ast/references.rs
+++ b/src/ast/references.rs
@@ -16,6 +16,58 @@ impl AstReferences {
         self.functions.is_empty() && self.variables.is_empty()
     }
 
+    /// Drop the references to definitions which refer to themselves, either directly or via other
+    /// definitions.
+    pub(super) fn without_circular(mut self, scope: &Scope) -> Self {
+        self.functions.retain(|f| {
+            !Self::reachable(scope.functions.get(f), scope)
+                .functions
+                .contains(f)
+        });
+        self.variables.retain(|v| {
+            !Self::reachable(scope.variables.get(v), scope)
+                .variables
+                .contains(v)
+        });
+        self
+    }
+
+    /// Everything that will come up when expanding `definition`
+    fn reachable(definition: Option<&Ast>, scope: &Scope) -> Self {
+        let mut reachable = Self::default();
+        let mut to_visit = definition.into_iter().collect::<Vec<_>>();
+
+        while let Some(ast) = to_visit.pop() {
+            let mut refs = Self::default();
+            refs.extract_dfs(ast, scope);
+            if let Node::Function { args, .. } = &**ast {
+                // these will be replaced by the arguments of the call
+                refs.variables.retain(|v| !args.contains(v));
+            }
+
+            for f in refs.functions {
+                to_visit.extend(
+                    scope
+                        .functions
+                        .get(&f)
+                        .filter(|_| !reachable.functions.contains(&f)),
+                );
+                reachable.functions.insert(f);
+            }
+            for v in refs.variables {
+                to_visit.extend(
+                    scope
+                        .variables
+                        .get(&v)
+                        .filter(|_| !reachable.variables.contains(&v)),
+                );
+                reachable.variables.insert(v);
+            }
+        }
+
+        reachable
+    }
+
     pub(super) fn extract_dfs(&mut self, ast: &Ast, scope: &Scope) {
         match &**ast {
             Node::FunctionCall { name, args } => {
-- 
2.43.0


From 60591aae66ae9408c618d3c32b0d34329248bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 19/35] fix: end an infinite fill where it actually ends

It was taken to reach to row 1000 even if other rows come after it, so
references from those rows were wrong.
---
 src/spreadsheet/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index e308216..8eaa9b6 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -1,7 +1,7 @@
 //! # Spreadsheet
 //!
 use crate::ast::{Ast, Node, VariableValue, Variables};
-use crate::cell_options::ROW_MAX;
+use crate::cell_options::{Fill, ROW_MAX};
 use crate::{ArcSourceCode, Error, EvalError, EvalResult, Result, Row};
 use log::trace;
 use serde::{Deserialize, Serialize};
@@ -39,8 +39,12 @@ impl Spreadsheet {
 
         for row in self.rows {
             if let Some(f) = row.fill {
-                let new_fill = f.clone_to_row(row_num);
-                let fill_amount = new_fill.amount.unwrap_or(rows_left_over);
+                let fill_amount = f.amount.unwrap_or(rows_left_over);
+                // there can be rows after an infinite fill, so it needs to have an actual end too
+                let new_fill = Fill {
+                    amount: Some(fill_amount),
+                    ..f.clone_to_row(row_num)
+                };
 
                 for _ in 0..fill_amount {
                     rows.push(Row {
-- 
2.43.0


From 750b6208283945d326dff9b170ebecc413bd8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 20/35] fix: put Excel notes on their own cell

The coordinates of a comment start at 1, those of a1 at 0: a note ended up one
column and one row off, and one in the first column or row crashed the build.
---
 src/target/excel/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 79908b8..e990215 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -103,9 +103,12 @@ impl<'a> Excel<'a> {
         let rt = comment.get_text_mut();
         rt.set_text(note);
 
+        // the coordinates of the excel library start at 1
         let coord = comment.get_coordinate_mut();
-        coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
-        coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
+        coord.set_col_num(
+            u32::try_from(position.column.x + 1).expect("32 bit coordinate for comment"),
+        );
+        coord.set_row_num(u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"));
 
         worksheet.add_comments(comment);
     }
-- 
2.43.0


From 31feb0172efe1dadbc564631270f36c9f63e48a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 21/35] fix: a symlink that can't be read is an error, not a
 file to write over in place

---
 src/atomic_file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/atomic_file.rs b/src/atomic_file.rs
index 4dba4c5..725004b 100644
--- a/src/atomic_file.rs
+++ b/src/atomic_file.rs
@@ -23,7 +23,14 @@ pub(crate) fn write<P: AsRef<path::Path>>(
                 let pointed_to = filename.as_ref().with_file_name("").join(link);
                 return write(pointed_to, contents, sync);
             }
-            Err(_) => filename.as_ref().to_path_buf(),
+            // it's not there at all or (`InvalidInput`) it's no link
+            Err(e)
+                if e.kind() == io::ErrorKind::NotFound
+                    || e.kind() == io::ErrorKind::InvalidInput =>
+            {
+                filename.as_ref().to_path_buf()
+            }
+            Err(e) => return Err(e),
         },
         Err(e) => return Err(e),
     };
-- 
2.43.0


From 04d0a9763997993381eb808b423195971b476dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 22/35] fix: report bad key/values and verbosity levels instead
 of failing silently

---
 src/compiler/try_from.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/try_from.rs b/src/compiler/try_from.rs
index 3a66aa4..bf168ed 100644
--- a/src/compiler/try_from.rs
+++ b/src/compiler/try_from.rs
@@ -1,12 +1,15 @@
 use crate::logger;
 use crate::parser::ast_parser::AstParser;
 use crate::{CliArgs, Compiler, Config, Output};
-use log::debug;
+use log::{debug, LevelFilter};
 
 impl TryFrom<&CliArgs> for Compiler {
     type Error = crate::Error;
 
     fn try_from(cli_args: &CliArgs) -> std::result::Result<Self, Self::Error> {
+        // errors are reported using the logger, so it needs to be there before anything can fail
+        logger::init(logger::u8_into_level_filter(cli_args.verbose).unwrap_or(LevelFilter::Error));
+
         let config = Config {
             key_values: AstParser::parse_key_value_str(
                 &cli_args.key_values,
@@ -15,8 +18,6 @@ impl TryFrom<&CliArgs> for Compiler {
             ..Config::try_from(cli_args)?
         };
 
-        logger::init(config.verbosity);
-
         let compiler = Self {
             config,
             output: Output::try_from(cli_args)?,
-- 
2.43.0


From 41d0726f7953152d2bdcb0ca77149004ee8026dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 23/35] fix: an .ods output is an error, not a panic, as long
 as it isn't implemented

---
 src/target/open_document/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/target/open_document/mod.rs b/src/target/open_document/mod.rs
index 58b389d..dac9d42 100644
--- a/src/target/open_document/mod.rs
+++ b/src/target/open_document/mod.rs
@@ -19,7 +19,9 @@ impl CompilationTarget for OpenDocument<'_> {
     }
 
     fn write(&self, _module: &Module) -> Result<()> {
-        todo!()
+        Err(self
+            .compiler
+            .output_error("Writing .ods files is not supported yet"))
     }
 }
 
-- 
2.43.0


From bb50195e16de5215402a8c86da06aab6cd87cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 24/35] fix: name alignments and wrapping as the Sheets API
 does

---
 src/target/google_sheets/google_sheets_cell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a38fc45..b34ad76 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -205,7 +205,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn horizontal_alignment(&self) -> String {
         match self.0.horizontal_align {
             HorizontalAlign::Left => "LEFT",
-            HorizontalAlign::Center => "MIDDLE",
+            HorizontalAlign::Center => "CENTER",
             HorizontalAlign::Right => "RIGHT",
         }
         .to_string()
@@ -277,7 +277,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn wrap_strategy(&self) -> String {
         match self.0.text_wrap {
             TextWrap::Wrap => "WRAP",
-            TextWrap::Overflow => "OVERFLOW",
+            TextWrap::Overflow => "OVERFLOW_CELL",
             TextWrap::Clip => "CLIP",
         }
         .to_string()
-- 
2.43.0


From cebf0cca09a3cf7f1c2832b78af69a301490b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 25/35] fix: name the conditions of data validations as the
 Sheets API does

---
 .../google_sheets/google_sheets_cell.rs       | 64 +++++++++++--------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index b34ad76..0976a12 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -30,18 +30,21 @@ macro_rules! build_boolean_condition {
     };
 }
 
-macro_rules! validate_date {
-    ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, relative_date $(,$dv)*)
-    };
-}
-
 macro_rules! validate_str {
     ($gs_name:literal $(, $dv:ident)*) => {
         build_boolean_condition!($gs_name, user_entered_value $(,$dv)*)
     };
 }
 
+/// Formulas and ranges in conditions have to begin with a `=`
+fn as_formula(s: &str) -> String {
+    if s.starts_with('=') {
+        s.to_string()
+    } else {
+        format!("={s}")
+    }
+}
+
 fn color_style(rgb: &Option<Rgb>) -> Option<api::ColorStyle> {
     if let Some(rgb) = rgb {
         let (r, g, b): (f32, f32, f32) = rgb.into();
@@ -85,53 +88,55 @@ impl<'a> GoogleSheetsCell<'a> {
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM", c),
-                DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
-                DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
+                DataValidation::Custom(c) => {
+                    let formula = as_formula(c);
+                    validate_str!("CUSTOM_FORMULA", formula)
+                }
+                DataValidation::DateAfter(d) => validate_str!("DATE_AFTER", d),
+                DataValidation::DateBefore(d) => validate_str!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
-                    validate_date!("DATE_BETWEEN", da, db)
+                    validate_str!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQUAL_TO", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID_DATE"),
+                DataValidation::DateEqualTo(d) => validate_str!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_str!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
-                    validate_date!("DATE_NOT_BETWEEN", da, db)
+                    validate_str!("DATE_NOT_BETWEEN", da, db)
                 }
-                DataValidation::DateOnOrAfter(d) => validate_date!("DATE_ON_OR_AFTER", d),
+                DataValidation::DateOnOrAfter(d) => validate_str!("DATE_ON_OR_AFTER", d),
                 DataValidation::DateOnOrBefore(d) => {
-                    validate_date!("DATE_ON_OR_BEFORE", d)
+                    validate_str!("DATE_ON_OR_BEFORE", d)
                 }
-                // TODO: these might need to be prefixed with `"="`
                 DataValidation::NumberBetween(na, nb) => {
                     validate_str!("NUMBER_BETWEEN", na, nb)
                 }
-                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQUAL_TO", n),
+                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQ", n),
                 DataValidation::NumberGreaterThan(n) => {
-                    validate_str!("NUMBER_GREATER_THAN", n)
+                    validate_str!("NUMBER_GREATER", n)
                 }
                 DataValidation::NumberGreaterThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_GREATER_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_GREATER_THAN_EQ", n)
                 }
                 DataValidation::NumberLessThan(n) => {
-                    validate_str!("NUMBER_LESS_THAN", n)
+                    validate_str!("NUMBER_LESS", n)
                 }
                 DataValidation::NumberLessThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_LESS_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_LESS_THAN_EQ", n)
                 }
                 DataValidation::NumberNotBetween(na, nb) => {
                     validate_str!("NUMBER_NOT_BETWEEN", na, nb)
                 }
                 DataValidation::NumberNotEqualTo(n) => {
-                    validate_str!("NUMBER_NOT_EQUAL_TO", n)
+                    validate_str!("NUMBER_NOT_EQ", n)
                 }
                 DataValidation::TextContains(t) => validate_str!("TEXT_CONTAINS", t),
                 DataValidation::TextDoesNotContain(t) => {
-                    validate_str!("TEXT_DOES_NOT_CONTAIN", t)
+                    validate_str!("TEXT_NOT_CONTAINS", t)
                 }
-                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQUAL_TO", t),
-                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_VALID_EMAIL"),
-                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_VALID_URL"),
+                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQ", t),
+                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_EMAIL"),
+                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_URL"),
                 DataValidation::ValueInList(list) => api::BooleanCondition {
-                    type_: Some("VALUE_IN_LIST".to_string()),
+                    type_: Some("ONE_OF_LIST".to_string()),
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
@@ -141,7 +146,10 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("VALUE_IN_RANGE", a1),
+                DataValidation::ValueInRange(a1) => {
+                    let range = as_formula(&a1.to_string());
+                    validate_str!("ONE_OF_RANGE", range)
+                }
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0


From a2c01189135828066bad915ff00597adb90ca58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 26/35] fix: write to the Google sheet which was read, whatever
 its id

---
 .../google_sheets/batch_update_builder.rs     |  9 ++++-
 src/target/google_sheets/mod.rs               | 35 +++++++++++++------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 393241c..cd22778 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -13,6 +13,7 @@ pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
     module: &'a Module,
+    sheet_id: Option<i32>,
 }
 
 impl<'a> BatchUpdateBuilder<'a> {
@@ -25,9 +26,15 @@ impl<'a> BatchUpdateBuilder<'a> {
             existing_values,
             compiler,
             module,
+            sheet_id: None,
         }
     }
 
+    /// Write to the sheet with this id, the one the existing values are from.
+    pub(super) fn on_sheet(self, sheet_id: Option<i32>) -> Self {
+        Self { sheet_id, ..self }
+    }
+
     /// Loops over each row of the spreadsheet, building up `UpdateCellsRequest`s.  
     pub(super) fn build(&self) -> api::BatchUpdateSpreadsheetRequest {
         api::BatchUpdateSpreadsheetRequest {
@@ -141,7 +148,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                 row_index: Some(
                     i32::try_from(row_offset + first_row).expect("a 32-bit value for row offset"),
                 ),
-                sheet_id: None,
+                sheet_id: self.sheet_id,
             }),
             rows: Some(rows.to_vec()),
             range: None,
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 41ef530..236db6e 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -30,7 +30,13 @@ macro_rules! unwrap_or_empty {
     ($to_unwrap:expr) => {{
         match $to_unwrap {
             Some(s) => s,
-            None => return Ok(ExistingValues::default()),
+            None => return Ok((ExistingValues::default(), None)),
+        }
+    }};
+    ($to_unwrap:expr, $sheet_id:expr) => {{
+        match $to_unwrap {
+            Some(s) => s,
+            None => return Ok((ExistingValues::default(), $sheet_id)),
         }
     }};
 }
@@ -56,7 +62,11 @@ impl<'a> GoogleSheets<'a> {
         })
     }
 
-    async fn read_existing_cells(&self, hub: &SheetsHub) -> Result<ExistingValues<SheetsValue>> {
+    /// The cells of the first sheet of the spreadsheet and the id of that sheet.
+    async fn read_existing_cells(
+        &self,
+        hub: &SheetsHub,
+    ) -> Result<(ExistingValues<SheetsValue>, Option<i32>)> {
         let spreadsheet = match hub
             .spreadsheets()
             .get(&self.sheet_id)
@@ -71,7 +81,7 @@ impl<'a> GoogleSheets<'a> {
                         if obj["error"]["code"].as_u64().is_some_and(|c| c == 404) =>
                     {
                         // 404 is fine, it just means it doesn't exist yet
-                        return Ok(ExistingValues::default());
+                        return Ok((ExistingValues::default(), None));
                     }
                     _ => {
                         warn!("Google Sheets API error response: {e}");
@@ -100,11 +110,12 @@ impl<'a> GoogleSheets<'a> {
 
         let sheets = unwrap_or_empty!(spreadsheet.sheets); // Vec<Sheet>
         let sheet = unwrap_or_empty!(sheets.first()); // &Sheet
-        let data = unwrap_or_empty!(&sheet.data); // &Vec<GridData>
-        let grid_data = unwrap_or_empty!(data.first()); // &GridData
-        let row_data = unwrap_or_empty!(&grid_data.row_data); // &Vec<RowData>
+        let sheet_id = sheet.properties.as_ref().and_then(|p| p.sheet_id);
+        let data = unwrap_or_empty!(&sheet.data, sheet_id); // &Vec<GridData>
+        let grid_data = unwrap_or_empty!(data.first(), sheet_id); // &GridData
+        let row_data = unwrap_or_empty!(&grid_data.row_data, sheet_id); // &Vec<RowData>
 
-        Ok(ExistingValues {
+        let existing_values = ExistingValues {
             cells: row_data
                 .iter()
                 .map(|row| {
@@ -117,7 +128,8 @@ impl<'a> GoogleSheets<'a> {
                     }
                 })
                 .collect(),
-        })
+        };
+        Ok((existing_values, sheet_id))
     }
 
     fn connector() -> Result<HyperConnector> {
@@ -153,9 +165,10 @@ impl<'a> GoogleSheets<'a> {
 
     async fn write_sheet(&self, module: &Module) -> Result<()> {
         let hub = self.sheets_hub().await?;
-        let existing_values = self.read_existing_cells(&hub).await?;
-        let batch_update_request =
-            BatchUpdateBuilder::new(self.compiler, module, &existing_values).build();
+        let (existing_values, sheet_id) = self.read_existing_cells(&hub).await?;
+        let batch_update_request = BatchUpdateBuilder::new(self.compiler, module, &existing_values)
+            .on_sheet(sheet_id)
+            .build();
 
         hub.spreadsheets()
             .batch_update(batch_update_request, &self.sheet_id)
-- 
2.43.0


From cd799ca4ccbf1274f96ac4a92c9d77e496e4d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 27/35] fix: overwrite the values of an existing Excel file
 with empty cells too

---
 src/target/excel/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index e990215..8b6962b 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -132,7 +132,10 @@ impl<'a> Excel<'a> {
                 } if !percentage => existing_cell.set_value_number(value as f64),
                 _ => existing_cell.set_formula(ast.to_string()),
             };
-        } else if !cell.parsed_value.is_empty() {
+        } else if cell.parsed_value.is_empty() {
+            // there might have been a value before
+            existing_cell.set_blank();
+        } else {
             existing_cell.set_value_string(cell.parsed_value.clone());
         }
     }
-- 
2.43.0


From 7cfd356ad9fef2891e0e8bc6e46cfc8c52f25fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 28/35] fix: replace the notes of an existing Excel file
 instead of adding them again

---
 src/target/excel/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 8b6962b..c7ee8bd 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -66,6 +66,7 @@ impl<'a> Excel<'a> {
 
                         e.set_style(Self::build_style(&cell));
 
+                        Self::remove_comments(worksheet, position);
                         if let Some(n) = &cell.note {
                             Self::set_comment(worksheet, position, n);
                         }
@@ -96,6 +97,17 @@ impl<'a> Excel<'a> {
         worksheet.set_data_validations(validations);
     }
 
+    /// A cell can only have one comment, so the ones from before (from when we've built this file the
+    /// last time, typically) have to go.
+    fn remove_comments(worksheet: &mut u::Worksheet, position: a1::Address) {
+        worksheet.get_comments_mut().retain(|c| {
+            let coord = c.get_coordinate();
+            // the coordinates of the excel library start at 1
+            (*coord.get_col_num() as usize, *coord.get_row_num() as usize)
+                != (position.column.x + 1, position.row.y + 1)
+        });
+    }
+
     fn set_comment(worksheet: &mut u::Worksheet, position: a1::Address, note: &str) {
         let mut comment = u::Comment::default();
         comment.set_author("csvpp");
-- 
2.43.0


From 4636f86af6301de42635c9c2ad9b7f0249a5c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 29/35] fix: keep the data validations of the cells of an Excel
 file which are not written

---
 src/target/excel/mod.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index c7ee8bd..8cc0b65 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -5,7 +5,7 @@
 use super::{merge_cell, ExistingCell, MergeResult};
 use crate::ast::Node;
 use crate::{Cell, Compiler, Module, Result};
-use std::{ffi, fs, io, path};
+use std::{collections, ffi, fs, io, path};
 use umya_spreadsheet as u;
 
 mod cell_validation;
@@ -42,6 +42,7 @@ impl<'a> Excel<'a> {
     /// depending on the merge strategy).
     fn build_worksheet(&self, module: &Module, worksheet: &mut u::Worksheet) {
         let mut cell_validations = Vec::with_capacity(module.spreadsheet.rows.len());
+        let mut written_cells = collections::HashSet::new();
 
         for (row_index, row) in module.spreadsheet.rows.iter().enumerate() {
             for (cell_index, cell) in row.cells.iter().enumerate() {
@@ -60,6 +61,7 @@ impl<'a> Excel<'a> {
 
                     // build a new value
                     MergeResult::New(cell) => {
+                        written_cells.insert(position.to_string());
                         let e = worksheet.get_cell_mut(position.to_string());
 
                         Self::set_value(e, &cell);
@@ -79,21 +81,31 @@ impl<'a> Excel<'a> {
             }
         }
 
-        Self::set_data_validations(worksheet, cell_validations);
+        Self::set_data_validations(worksheet, cell_validations, &written_cells);
     }
 
-    fn set_data_validations(worksheet: &mut u::Worksheet, cell_validations: Vec<CellValidation>) {
-        let mut validations = u::DataValidations::default();
-        if cell_validations.is_empty() {
+    /// The cells which we've written get their new validations (or none), all other existing
+    /// validations are kept
+    fn set_data_validations(
+        worksheet: &mut u::Worksheet,
+        cell_validations: Vec<CellValidation>,
+        written_cells: &collections::HashSet<String>,
+    ) {
+        let mut validation_list = worksheet
+            .get_data_validations()
+            .map(|v| v.get_data_validation_list().clone())
+            .unwrap_or_default();
+        validation_list
+            .retain(|v| !written_cells.contains(&v.get_sequence_of_references().get_sqref()));
+        validation_list.extend(cell_validations.into_iter().map(std::convert::Into::into));
+
+        if validation_list.is_empty() {
+            worksheet.remove_data_validations();
             return;
         }
 
-        validations.set_data_validation_list(
-            cell_validations
-                .into_iter()
-                .map(std::convert::Into::into)
-                .collect(),
-        );
+        let mut validations = u::DataValidations::default();
+        validations.set_data_validation_list(validation_list);
         worksheet.set_data_validations(validations);
     }
 
-- 
2.43.0


From d5dcd9b824f03f347d9a4a3b39421879fb6821f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 30/35] fix: parse CSV fields without recursion, long cells
 overflowed the stack

---
 csvp/src/parser.rs | 101 +++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 58 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 5c209d6..5e740a6 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -153,75 +153,60 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        self.consume_whitespace();
+        loop {
+            self.consume_whitespace();
 
-        match self.consume_char() {
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_field(fb)
-            }
-            // Some(c) if c.is_whitespace() => self.parse_field(fb),
-            Some('"') => Ok(self.parse_quoted_field(fb, false)?),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                Ok(self.parse_unquoted_field(fb)?)
+            match self.consume_char() {
+                Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                // Some(c) if c.is_whitespace() => self.parse_field(fb),
+                Some('"') => return self.parse_quoted_field(fb),
+                Some(c) => {
+                    fb.push(c, &mut *self);
+                    return Ok(self.parse_unquoted_field(fb));
+                }
+                None => return Ok(FieldResult::Eof),
             }
-            None => Ok(FieldResult::Eof),
         }
     }
 
-    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        match self.consume_char() {
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_unquoted_field(fb)
-            }
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_unquoted_field(fb)
+    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> FieldResult {
+        loop {
+            match self.consume_char() {
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                Some(c) if self.is_field_separator(c) => return FieldResult::some(fb),
+                Some(c) if is_record_terminator(c) => return FieldResult::last(fb),
+                Some(c) => fb.push(c, &mut *self),
+                None => return FieldResult::last(fb),
             }
-            None => Ok(FieldResult::last(fb)),
         }
     }
 
-    fn parse_quoted_field(
-        &mut self,
-        mut fb: FieldBuilder,
-        escape_mode: bool,
-    ) -> Result<FieldResult> {
-        let c = self.consume_char();
-        if escape_mode {
-            if let Some(c) = c {
-                fb.push(c, &mut *self);
-                return self.parse_quoted_field(fb, false);
-            }
-
-            return Err(self.parse_error("Expected a quoted character but got EOF"));
-        }
-
-        match c {
-            Some('"') => {
-                // is it two quotes in a row? if so it's a quoted quote
-                // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
-                if let Some('"') = self.chars.peek() {
-                    self.parse_quoted_field(fb, true)
-                } else {
-                    // otherwise it's a terminating quote. we need to also make sure we consume any
-                    // trailing spaces and make sure there is a ','
-                    self.parse_rest_of_quoted_field(fb)
+    fn parse_quoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
+        loop {
+            match self.consume_char() {
+                Some('"') => {
+                    // is it two quotes in a row? if so it's a quoted quote
+                    // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
+                    if let Some('"') = self.chars.peek() {
+                        self.consume_char();
+                        fb.push('"', &mut *self);
+                    } else {
+                        // otherwise it's a terminating quote. we need to also make sure we consume any
+                        // trailing spaces and make sure there is a ','
+                        return self.parse_rest_of_quoted_field(fb);
+                    }
                 }
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::some(fb)),
             }
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_quoted_field(fb, false)
-            }
-            None => Ok(FieldResult::some(fb)),
         }
     }
 
-- 
2.43.0


From f7bd5b3436bdee6d8abe5475f2cef5759768f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:10 +0000
Subject: [PATCH 31/35] fix: do not export imported definitions which share
 their name with one of the other kind

---
 src/module_loader/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 4cec072..0c85ee8 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -179,6 +179,11 @@ impl ModuleLoader {
                 continue;
             };
 
+            // a module exports only its own definitions: a function does not bring along a variable
+            // of the same name which was imported from somewhere else (or the other way around)
+            let own_functions = to_resolve.scope.functions.clone();
+            let own_variables = to_resolve.scope.variables.clone();
+
             // let mut local_scope = to_resolve.scope.clone();
             for req_path in to_resolve.required_modules.iter().rev() {
                 let Some(dep_scope) = scopes.get(req_path) else {
@@ -193,6 +198,10 @@ impl ModuleLoader {
             eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
             eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
 
+            let scope = &mut to_resolve.scope;
+            scope.functions.retain(|f, _| own_functions.contains_key(f));
+            scope.variables.retain(|v, _| own_variables.contains_key(v));
+
             scopes.insert(to_resolve.module_path.clone(), to_resolve.scope.clone());
         }
 
-- 
2.43.0


From e647eba7ce2ca38804b0bad17098ed48bd1ebfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:06 +0000
Subject: [PATCH 32/35] fix: count characters and bytes apart, options and
 errors with non-ASCII text panicked

---
 src/parser/ast_lexer/unknown_token.rs | 3 +--
 src/parser/cell_lexer/mod.rs          | 8 +++++---
 src/parser/token_matcher.rs           | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 9adb416..f49a0bf 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -13,8 +13,7 @@ pub(crate) struct UnknownToken {
 
 impl fmt::Display for UnknownToken {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mut shortened_bad_input = self.bad_input.clone();
-        shortened_bad_input.truncate(50);
+        let shortened_bad_input = self.bad_input.chars().take(50).collect::<String>();
         write!(f, "{shortened_bad_input}")
     }
 }
diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 0cc4725..b11224f 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -280,7 +280,7 @@ impl<'a> CellLexer<'a> {
         for c in self.input.chars() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
-            consumed += 1;
+            consumed += c.len_utf8();
 
             if start_quote {
                 if escape_mode {
@@ -340,8 +340,10 @@ impl<'a> CellLexer<'a> {
     }
 
     fn move_input(&mut self, amount: CharOffset) {
-        self.input = &self.input[amount..];
-        self.cell_offset += amount;
+        let (consumed, input) = self.input.split_at(amount);
+        self.input = input;
+        // the positions of a cell are counted in characters rather than bytes
+        self.cell_offset += consumed.chars().count();
     }
 
     fn replace_input(&mut self, new_input: &'a str, amount: CharOffset) {
diff --git a/src/parser/token_matcher.rs b/src/parser/token_matcher.rs
index a43b4f4..944ac75 100644
--- a/src/parser/token_matcher.rs
+++ b/src/parser/token_matcher.rs
@@ -16,7 +16,8 @@ fn whitespace_start(input: &str) -> usize {
     input
         .chars()
         .take_while(|ch| ch.is_whitespace() && *ch != '\n' && *ch != '\r')
-        .count()
+        .map(char::len_utf8)
+        .sum()
 }
 
 impl<T> TokenMatcher<T> {
-- 
2.43.0


From 3b85df3b9898b2cb97efc271c3e7b98eb8ced41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:12 +0000
Subject: [PATCH 33/35] fix: a fill of a stated number of rows ends where they
 end, also below row 1000

---
 src/cell_options/fill/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cell_options/fill/mod.rs b/src/cell_options/fill/mod.rs
index c9468da..a9be384 100644
--- a/src/cell_options/fill/mod.rs
+++ b/src/cell_options/fill/mod.rs
@@ -2,7 +2,6 @@
 //!
 use a1::Row;
 use serde::{Deserialize, Serialize};
-use std::cmp;
 
 mod into;
 
@@ -26,7 +25,7 @@ impl Fill {
     #[must_use]
     pub(crate) fn end_row(&self) -> Row {
         if let Some(a) = self.amount {
-            cmp::min(self.start_row.y + a, ROW_MAX).into()
+            (self.start_row.y + a).into()
         } else {
             ROW_MAX.into()
         }
-- 
2.43.0


From 99e1df4e3089a12b32030786a19bee9b0bd340b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:15 +0000
Subject: [PATCH 34/35] fix: report a service account with a bad token_uri,
 yup_oauth2 panics on it

---
 src/target/google_sheets/credentials.rs | 41 +++++++++++++++----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/target/google_sheets/credentials.rs b/src/target/google_sheets/credentials.rs
index 208b95c..12a357e 100644
--- a/src/target/google_sheets/credentials.rs
+++ b/src/target/google_sheets/credentials.rs
@@ -1,6 +1,6 @@
 use super::HyperConnector;
 use crate::{Compiler, Error, Result};
-use google_sheets4::yup_oauth2;
+use google_sheets4::{hyper, yup_oauth2};
 use log::info;
 use std::{env, fs, path};
 
@@ -96,22 +96,29 @@ impl Credentials {
                 Error::GoogleSetupError(format!("Error requesting access to the spreadsheet: {e}"))
             })?)
         } else if json["type"] == "service_account" {
-            Ok(yup_oauth2::ServiceAccountAuthenticator::builder(
-                yup_oauth2::read_service_account_key(&self.file)
-                    .await
-                    .map_err(|e| {
-                        Error::GoogleSetupError(format!(
-                            "Error reading sevice account credentials: {e}"
-                        ))
-                    })?,
-            )
-            .build()
-            .await
-            .map_err(|e| {
-                Error::GoogleSetupError(format!(
-                    "Error building service account authenticator: {e}"
-                ))
-            })?)
+            let key = yup_oauth2::read_service_account_key(&self.file)
+                .await
+                .map_err(|e| {
+                    Error::GoogleSetupError(format!(
+                        "Error reading sevice account credentials: {e}"
+                    ))
+                })?;
+
+            // yup_oauth2 panics when it cannot make a request to it
+            if let Err(e) = key.token_uri.parse::<hyper::Uri>() {
+                return Err(Error::GoogleSetupError(format!(
+                    "Error reading sevice account credentials: bad token_uri: {e}"
+                )));
+            }
+
+            Ok(yup_oauth2::ServiceAccountAuthenticator::builder(key)
+                .build()
+                .await
+                .map_err(|e| {
+                    Error::GoogleSetupError(format!(
+                        "Error building service account authenticator: {e}"
+                    ))
+                })?)
         } else {
             Err(Error::GoogleSetupError(
                 "Credentials file must be a service or user account but saw type: ".to_string(),
-- 
2.43.0


From 344a4472ae03d0d39a9e2c8ec18347cab262b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:03 +0000
Subject: [PATCH 35/35] fix: replace the notes of an Excel file in one go, it
 took time quadratic in their number

---
 src/target/excel/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 8cc0b65..18415e1 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -43,6 +43,8 @@ impl<'a> Excel<'a> {
     fn build_worksheet(&self, module: &Module, worksheet: &mut u::Worksheet) {
         let mut cell_validations = Vec::with_capacity(module.spreadsheet.rows.len());
         let mut written_cells = collections::HashSet::new();
+        let mut written_coordinates = collections::HashSet::new();
+        let mut notes = vec![];
 
         for (row_index, row) in module.spreadsheet.rows.iter().enumerate() {
             for (cell_index, cell) in row.cells.iter().enumerate() {
@@ -68,9 +70,9 @@ impl<'a> Excel<'a> {
 
                         e.set_style(Self::build_style(&cell));
 
-                        Self::remove_comments(worksheet, position);
-                        if let Some(n) = &cell.note {
-                            Self::set_comment(worksheet, position, n);
+                        written_coordinates.insert((cell_index + 1, row_index + 1));
+                        if let Some(n) = cell.note {
+                            notes.push((position, n));
                         }
 
                         if let Some(data_validation) = cell.data_validation {
@@ -81,6 +83,11 @@ impl<'a> Excel<'a> {
             }
         }
 
+        Self::remove_comments(worksheet, &written_coordinates);
+        for (position, note) in notes {
+            Self::set_comment(worksheet, position, &note);
+        }
+
         Self::set_data_validations(worksheet, cell_validations, &written_cells);
     }
 
@@ -110,13 +117,15 @@ impl<'a> Excel<'a> {
     }
 
     /// A cell can only have one comment, so the ones from before (from when we've built this file the
-    /// last time, typically) have to go.
-    fn remove_comments(worksheet: &mut u::Worksheet, position: a1::Address) {
+    /// last time, typically) have to go.  The coordinates of the excel library start at 1.
+    fn remove_comments(
+        worksheet: &mut u::Worksheet,
+        written_coordinates: &collections::HashSet<(usize, usize)>,
+    ) {
         worksheet.get_comments_mut().retain(|c| {
             let coord = c.get_coordinate();
-            // the coordinates of the excel library start at 1
-            (*coord.get_col_num() as usize, *coord.get_row_num() as usize)
-                != (position.column.x + 1, position.row.y + 1)
+            !written_coordinates
+                .contains(&(*coord.get_col_num() as usize, *coord.get_row_num() as usize))
         });
     }
 
-- 
2.43.0

