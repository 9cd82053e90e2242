From 7bceaad8288236e9e2afd281af44b983cad8e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 01/63] fix: report every unloadable module instead of
 panicking on a missing transitive dependency

---
 src/module_loader/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index dcdf549..3120d11 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -83,7 +83,10 @@ impl ModuleLoader {
             }
         }
 
-        module_loader.eval_dependencies()?;
+        // if part of the module graph is missing then there is nothing to resolve, just report it
+        if !module_loader.has_failures() {
+            module_loader.eval_dependencies()?;
+        }
 
         let mut main = module_loader.merge_direct_dependencies()?;
         main.is_dirty = were_any_deps_dirty;
-- 
2.43.0


From 003a8f6eef7adbf3504598bc165f832b4b62ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 02/63] fix: allow the same module to be required more than
 once

---
 src/module_loader/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 3120d11..69ec1ef 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -104,13 +104,12 @@ impl ModuleLoader {
                     .into_inner()?,
             ))
         } else {
-            let mut loaded = self.loaded.write()?;
+            let loaded = self.loaded.read()?;
             let mut main_module = self.main_module;
 
             for req_path in &main_module.required_modules {
-                main_module
-                    .scope
-                    .merge(&loaded.remove(req_path).unwrap().scope);
+                // the same module can be required more than once
+                main_module.scope.merge(&loaded[req_path].scope);
             }
 
             Ok(main_module)
-- 
2.43.0


From 690ba75f3c3fbdc802f0dd2b8d66899d6ea1bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 03/63] fix: don't deadlock when reloading dirty dependencies
 and include direct dependencies

---
 src/module_loader/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 69ec1ef..940822e 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -175,7 +175,7 @@ impl ModuleLoader {
                     // just assume that the main module is at index 0
                     graph::NodeIndex::new(0),
                     node,
-                    1,
+                    0,
                     None,
                 ) {
                     for n in graph_path {
@@ -210,16 +210,13 @@ impl ModuleLoader {
     }
 
     fn reload_dirty_modules(&mut self) -> Result<()> {
-        let loaded = self.loaded.read().unwrap();
-        for (mp, module) in loaded.iter() {
+        let mut loaded = self.loaded.write()?;
+        for (mp, module) in loaded.iter_mut() {
             if module.is_dirty {
-                self.loaded.write()?.insert(
+                *module = Module::load_from_source_from_filename(
                     mp.clone(),
-                    Module::load_from_source_from_filename(
-                        mp.clone(),
-                        module.source_code.filename.clone(),
-                    )?,
-                );
+                    module.source_code.filename.clone(),
+                )?;
             }
         }
 
-- 
2.43.0


From 5579761db8925ccf02ba0e22a02ff5254e9abc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 04/63] fix: don't use object code written by an older compiler
 version

---
 src/module/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d9d807..6c17f15 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -252,11 +252,11 @@ impl Module {
             )),
         };
 
-        // if the version is less than ours, don't use it and recompile instead.  otherwise we can
-        // trust that it's ok to use
+        // if it was written by any other version than ours, don't use it and recompile instead.
+        // otherwise we can trust that it's ok to use
         self.is_dirty = match this_version.cmp(&loaded_version) {
-            cmp::Ordering::Equal | cmp::Ordering::Greater => false,
-            cmp::Ordering::Less => true,
+            cmp::Ordering::Equal => false,
+            cmp::Ordering::Greater | cmp::Ordering::Less => true,
         };
 
         Ok(())
-- 
2.43.0


From 190276d3e7cc073ecbcfef26d4524066ea66355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 05/63] fix: treat object code with the same timestamp as its
 source as out of date

---
 src/module/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 6c17f15..4ce1d37 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -230,7 +230,7 @@ impl Module {
 
         // is the object code more recent than the source? (i.e., no changes since it was last
         // written)
-        if source_file_modified > obj_file_modified {
+        if source_file_modified >= obj_file_modified {
             self.is_dirty = true;
             self.needs_eval = true;
             return Ok(());
-- 
2.43.0


From 8c36fa6eb1069752a606eba1f11e198d68b91dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 06/63] fix: don't load the main module from the cache when
 using --no-cache

---
 src/compiler/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index d4b6ac4..bdb34a1 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,8 +44,11 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module =
-            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?;
+        let main_module = if self.config.use_cache {
+            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
+        } else {
+            Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
+        };
 
         debug!("Loading dependencies for {}", &main_module.module_path);
         let mut main_module =
-- 
2.43.0


From a26c4e99ad0a0db9744603a8312a24a61c8c02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 07/63] fix: don't re-use a main module which was compiled with
 different key/values

---
 src/compiler/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index bdb34a1..b7aa161 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,7 +44,7 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module = if self.config.use_cache {
+        let main_module = if self.use_main_cache() {
             Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
         } else {
             Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
@@ -59,7 +59,7 @@ impl Compiler {
             main_module = self.eval(main_module)?;
             main_module.needs_eval = false;
 
-            if self.config.use_cache {
+            if self.use_main_cache() {
                 debug!(
                     "Writing object file {:?}",
                     main_module.source_code.object_code_filename()
@@ -93,6 +93,12 @@ impl Compiler {
         self.output.clone().into_error(message)
     }
 
+    /// The object code of the main module has the key/values supplied by the user evaluated into it
+    /// so it's only good for compiling without them.
+    fn use_main_cache(&self) -> bool {
+        self.config.use_cache && self.config.key_values.is_empty()
+    }
+
     fn eval(&self, main: Module) -> Result<Module> {
         debug!("Evaluating main module");
 
-- 
2.43.0


From 8f65c1a6a2ea0b72d4b606897629ee7c1405cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 08/63] fix: find the source of a cached module next to its
 object code

---
 src/module/mod.rs                  | 21 +++++++++++++++------
 src/source_code/arc_source_code.rs |  8 ++++++++
 src/source_code/mod.rs             |  2 +-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 4ce1d37..d8cdeaa 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -73,12 +73,15 @@ impl Module {
     ) -> Option<Self> {
         let filename = loader_root
             .as_ref()
-            .join(module_path.filename_relative_to(relative_to));
-        Self::load_from_object_code_from_filename(filename)
+            .join(module_path.clone().filename_relative_to(relative_to));
+        Self::load_from_object_code_from_filename(module_path, filename)
     }
 
-    fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
-        filename.set_extension("csvpo");
+    fn load_from_object_code_from_filename(
+        module_path: ModulePath,
+        source_filename: path::PathBuf,
+    ) -> Option<Self> {
+        let filename = source_filename.with_extension("csvpo");
 
         if !filename.exists() {
             return None;
@@ -89,7 +92,7 @@ impl Module {
             Err(e) => compiler_error(format!("Error opening object code: {e}")),
         };
 
-        let Ok(loaded_module) = bincode::deserialize_from(obj_file_reader) else {
+        let Ok(mut loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
@@ -99,6 +102,11 @@ impl Module {
             return None;
         };
 
+        // the source is next to the object code, not where it was when it was compiled (which could
+        // have been from another working directory, or it could have been moved since)
+        loaded_module.module_path = module_path;
+        loaded_module.source_code = loaded_module.source_code.with_filename(source_filename);
+
         Some(loaded_module)
     }
 
@@ -148,7 +156,8 @@ impl Module {
         module_path: ModulePath,
         filename: path::PathBuf,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) = Self::load_from_object_code_from_filename(filename.clone())
+        if let Some(mut loaded_module) =
+            Self::load_from_object_code_from_filename(module_path.clone(), filename.clone())
         {
             loaded_module.check_if_is_dirty()?;
 
diff --git a/src/source_code/arc_source_code.rs b/src/source_code/arc_source_code.rs
index 50856d6..8eee33e 100644
--- a/src/source_code/arc_source_code.rs
+++ b/src/source_code/arc_source_code.rs
@@ -1,5 +1,6 @@
 use super::SourceCode;
 use std::ops;
+use std::path;
 use std::sync;
 
 #[derive(Clone, Debug, serde::Deserialize, serde::Serialize)]
@@ -9,6 +10,13 @@ impl ArcSourceCode {
     pub(crate) fn new(inner: SourceCode) -> Self {
         Self(sync::Arc::new(inner))
     }
+
+    pub(crate) fn with_filename(&self, filename: path::PathBuf) -> Self {
+        Self::new(SourceCode {
+            filename,
+            ..(*self.0).clone()
+        })
+    }
 }
 
 impl ops::Deref for ArcSourceCode {
diff --git a/src/source_code/mod.rs b/src/source_code/mod.rs
index 27febd8..21d04eb 100644
--- a/src/source_code/mod.rs
+++ b/src/source_code/mod.rs
@@ -15,7 +15,7 @@ pub type LineNumber = usize;
 /// the amount of characters offset from the beginning of the line
 pub type CharOffset = usize;
 
-#[derive(Debug, serde::Deserialize, serde::Serialize)]
+#[derive(Clone, Debug, serde::Deserialize, serde::Serialize)]
 pub struct SourceCode {
     pub filename: path::PathBuf,
     pub(crate) lines: LineNumber,
-- 
2.43.0


From c6f1a230a13c2094a621326fbb91dabe1751fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 09/63] fix: rebuild modules whose dependencies have changed
 rather than using their stale object code

---
 src/module/mod.rs        |  34 +++++++++---
 src/module_loader/mod.rs | 115 ++++++++++++++-------------------------
 2 files changed, 67 insertions(+), 82 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index d8cdeaa..ede1720 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -15,7 +15,7 @@ use crate::{
 };
 use log::{debug, error, info, warn};
 use rayon::prelude::*;
-use std::{cmp, fs, path};
+use std::{cmp, fs, path, time};
 
 mod display;
 
@@ -162,8 +162,9 @@ impl Module {
             loaded_module.check_if_is_dirty()?;
 
             // if we have a clean cache read we can just return that, otherwise we'll need to
-            // reload below
-            if !loaded_module.is_dirty {
+            // reload below.  if it still needs to be evaluated then it was compiled as a dependency
+            // of another module, and it's not what we need
+            if !loaded_module.is_dirty && !loaded_module.needs_eval {
                 return Ok(loaded_module);
             }
         }
@@ -180,14 +181,31 @@ impl Module {
             Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
         {
             loaded_module.check_if_is_dirty()?;
-            Ok(loaded_module)
-        } else {
-            Self::load_from_source_relative(
+
+            // if it doesn't need to be evaluated it was compiled as a main module, which has the
+            // variables from it's spreadsheet and dependencies in scope so we can't use it here
+            if !loaded_module.is_dirty && loaded_module.needs_eval {
+                return Ok(loaded_module);
+            }
+        }
+
+        // there is no telling what the modules which depend on this one were compiled with, so they
+        // can't use their object code either
+        Ok(Self {
+            is_dirty: true,
+            ..Self::load_from_source_relative(
                 module_path,
                 relative_to,
                 loader_root.as_ref().to_path_buf().clone(),
-            )
-        }
+            )?
+        })
+    }
+
+    /// When was the object code for this module last written (if it was)
+    pub(crate) fn object_code_modified(&self) -> Option<time::SystemTime> {
+        fs::metadata(self.source_code.object_code_filename())
+            .and_then(|s| s.modified())
+            .ok()
     }
 
     pub(crate) fn write_object_file(&mut self) -> Result<()> {
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 940822e..0ab3c2b 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -28,7 +28,6 @@ pub(super) struct ModuleLoader {
     loaded: Loaded,
     loader_root: path::PathBuf,
     main_module: Module,
-    is_dirty: bool,
     use_cache: bool,
 }
 
@@ -64,23 +63,11 @@ impl ModuleLoader {
             loaded: sync::Arc::default(),
             main_module,
             loader_root: relative_to.into(),
-            is_dirty: false,
             use_cache,
         };
-        let mut were_any_deps_dirty = false;
-
-        // we need to do this in a loop because every time we reload dirty dependencies we're
-        // pulling in changes to the source code, which could mean the author added a new `use ...`
-        // in which case we need to load it
-        loop {
-            module_loader.load(&module_loader.main_module)?;
-            module_loader = module_loader.propagate_dirty_flag()?;
-            if module_loader.is_dirty {
-                were_any_deps_dirty = true;
-                module_loader.reload_dirty_modules()?;
-            } else {
-                break;
-            }
+        module_loader.load(&module_loader.main_module)?;
+        if use_cache {
+            module_loader.reload_dirty_modules()?;
         }
 
         // if part of the module graph is missing then there is nothing to resolve, just report it
@@ -88,9 +75,7 @@ impl ModuleLoader {
             module_loader.eval_dependencies()?;
         }
 
-        let mut main = module_loader.merge_direct_dependencies()?;
-        main.is_dirty = were_any_deps_dirty;
-        Ok(main)
+        module_loader.merge_direct_dependencies()
     }
 
     /// Returns only the direct dependencies for this module graph.  For example if our Module A
@@ -159,65 +144,46 @@ impl ModuleLoader {
         dep_graph
     }
 
-    fn dirty_nodes(&self) -> collections::HashSet<ModulePath> {
-        let loaded = self.loaded.read().unwrap();
-        let dep_graph = self.load_dependency_graph();
-
-        let mut dirty_nodes: collections::HashSet<ModulePath> = collections::HashSet::default();
-        for node in dep_graph.node_indices().collect::<Vec<_>>() {
-            let Some(module) = loaded.get(&dep_graph[node]) else {
-                continue;
-            };
-
-            if module.is_dirty {
-                for graph_path in algo::simple_paths::all_simple_paths::<Vec<_>, _>(
-                    &dep_graph,
-                    // just assume that the main module is at index 0
-                    graph::NodeIndex::new(0),
-                    node,
-                    0,
-                    None,
-                ) {
-                    for n in graph_path {
-                        dirty_nodes.insert(dep_graph[n].clone());
-                    }
-                }
-            }
-        }
-
-        dirty_nodes
-    }
-
-    fn propagate_dirty_flag(self) -> Result<Self> {
-        let dirty_nodes = self.dirty_nodes();
-        let mut loaded = sync::Arc::try_unwrap(self.loaded)
-            .expect("Unable to access loaded")
-            .into_inner()?;
-
-        let is_dirty = !dirty_nodes.is_empty();
-
-        for mp in dirty_nodes {
-            if let Some(n) = loaded.get_mut(&mp) {
-                n.is_dirty = true;
-            }
-        }
-
-        Ok(Self {
-            loaded: sync::Arc::new(sync::RwLock::new(loaded)),
-            is_dirty,
-            ..self
-        })
+    /// Is the object code of `module` out of date because of something it depends on?
+    fn has_dirty_dependency(loaded: &LoadedModules, module: &Module) -> bool {
+        module
+            .required_modules
+            .iter()
+            .filter_map(|req_path| loaded.get(req_path))
+            .any(|dep| {
+                // the dependency can have been re-compiled on behalf of some other main module, in
+                // which case it's not dirty but it's still not the one we were compiled with
+                dep.is_dirty || dep.object_code_modified() > module.object_code_modified()
+            })
     }
 
+    /// Everything that (directly or indirectly) depends on a dirty module was compiled against
+    /// something that is out of date and needs to be reloaded from source.  There is no need to
+    /// load any dependencies here because their source code is unchanged since they were compiled.
     fn reload_dirty_modules(&mut self) -> Result<()> {
         let mut loaded = self.loaded.write()?;
-        for (mp, module) in loaded.iter_mut() {
-            if module.is_dirty {
-                *module = Module::load_from_source_from_filename(
-                    mp.clone(),
+
+        while let Some(module_path) = loaded
+            .iter()
+            .find(|(_, m)| !m.is_dirty && Self::has_dirty_dependency(&loaded, m))
+            .map(|(mp, _)| mp.clone())
+        {
+            let module = &loaded[&module_path];
+            let reloaded_module = Module {
+                is_dirty: true,
+                ..Module::load_from_source_from_filename(
+                    module_path.clone(),
                     module.source_code.filename.clone(),
-                )?;
-            }
+                )?
+            };
+            loaded.insert(module_path, reloaded_module);
+        }
+
+        if !self.main_module.needs_eval && Self::has_dirty_dependency(&loaded, &self.main_module) {
+            self.main_module = Module::load_from_source_from_filename(
+                self.main_module.module_path.clone(),
+                self.main_module.source_code.filename.clone(),
+            )?;
         }
 
         Ok(())
@@ -247,7 +213,8 @@ impl ModuleLoader {
                 continue;
             };
 
-            if !to_resolve.needs_eval {
+            // if we got it from the cache then it's already been evaluated
+            if !to_resolve.needs_eval || (self.use_cache && !to_resolve.is_dirty) {
                 continue;
             }
 
-- 
2.43.0


From 93e389f0e22e671d840920bbc02948888024bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 10/63] fix: resolve names imported from several modules in the
 main module as in any other

---
 src/module_loader/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 0ab3c2b..e80e759 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -92,7 +92,8 @@ impl ModuleLoader {
             let loaded = self.loaded.read()?;
             let mut main_module = self.main_module;
 
-            for req_path in &main_module.required_modules {
+            // the last one wins, same as when evaluating dependencies
+            for req_path in main_module.required_modules.iter().rev() {
                 // the same module can be required more than once
                 main_module.scope.merge(&loaded[req_path].scope);
             }
-- 
2.43.0


From 0ea047a78194fe9dc2f6891f304e2b565cf558cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 11/63] fix: expand functions and variables completely,
 hygienically and without looping on cyclic definitions

---
 src/ast/eval.rs          | 335 +++++++++++++++++----------------------
 src/ast/references.rs    |   1 -
 src/module_loader/mod.rs |   6 +-
 3 files changed, 151 insertions(+), 191 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2c6bfc7..1ae0f8d 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -2,226 +2,185 @@
 //!
 //! The main functions for evaluating a function or variable.
 //!
-use super::references::{AstReferences, ReferencesIter};
-use super::{Ast, Node, VariableValue, Variables};
+use super::{Ast, Functions, Node, VariableValue, Variables};
 use crate::{EvalError, EvalResult, Scope};
-use std::collections;
+
+/// The state we need to carry around while expanding the references in an AST.
+struct Expansion<'a> {
+    scope: &'a Scope,
+    position: Option<a1::Address>,
+
+    /// The variables and functions which are currently being expanded. These are not expanded
+    /// again while doing so, otherwise a definition which refers to itself would never terminate.
+    variables: Vec<String>,
+    functions: Vec<String>,
+}
 
 impl Ast {
-    /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
-    /// progress means that `.extract_references()` returns a different, non-empty result each
-    /// time.
+    /// Do a depth-first-search on the AST, replacing each reference to a variable and each call to
+    /// a function that is defined in `scope`.  Anything that isn't defined is left alone.
     pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
-        let mut evaled_ast = self;
-        let mut last_round_refs = AstReferences::default();
-
-        loop {
-            let refs = evaled_ast.extract_references(scope);
-            if refs.is_empty() || refs == last_round_refs {
-                break;
-            }
-            last_round_refs = refs.clone();
-
-            evaled_ast = evaled_ast
-                .eval_variables(Self::resolve_variables(
-                    scope,
-                    refs.variables.into_iter(),
-                    position,
-                ))
-                .eval_functions(refs.functions.into_iter(), scope)?;
+        if self.extract_references(scope).is_empty() {
+            return Ok(self);
         }
 
-        Ok(evaled_ast)
+        let mut expansion = Expansion {
+            scope,
+            position,
+            variables: vec![],
+            functions: vec![],
+        };
+        expansion.expand(&self, &Variables::default())
     }
+}
 
-    /// Variables can all be resolved in one go - we just loop them by name and resolve the ones
-    /// that we can and leave the rest alone.
-    fn resolve_variables(
-        scope: &Scope,
-        var_names: ReferencesIter,
-        position: Option<a1::Address>,
-    ) -> collections::HashMap<String, Self> {
-        let mut resolved_vars: Variables = collections::HashMap::default();
-        for var_name in var_names {
-            if let Some(value) = scope.variables.get(&var_name) {
-                let value_from_var = match &**value {
-                    Node::Variable { value, .. } => value.clone().into_ast(position),
-                    n => n.clone().into(),
-                };
-
-                resolved_vars.insert(var_name.to_string(), value_from_var);
-            }
-        }
-
-        resolved_vars
-    }
+impl Expansion<'_> {
+    /// `bindings` has the (already expanded) arguments of the function call that `ast` is the body
+    /// of. They take precedence over the variables which are in scope.
+    fn expand(&mut self, ast: &Ast, bindings: &Variables) -> EvalResult<Ast> {
+        Ok(match &**ast {
+            Node::FunctionCall { args, name } => {
+                let args = args
+                    .iter()
+                    .map(|a| self.expand(a, bindings))
+                    .collect::<EvalResult<Vec<_>>>()?;
 
-    /// Evaluate the given `functions` calling `resolve_fn` upon each occurence to render a
-    /// replacement.  Unlike variable resolution, we can't produce the values up front because the
-    /// resolution function requires being called with the `arguments` at the call site.
-    fn eval_functions(self, fns_to_resolve: ReferencesIter, scope: &Scope) -> EvalResult<Self> {
-        let mut evaled_ast = self;
-        for fn_name in fns_to_resolve {
-            if let Some(fn_ast) = scope.functions.get(&fn_name) {
-                evaled_ast = evaled_ast.call_function(&fn_name, fn_ast)?;
-            } else {
-                // TODO: log a warning that we tried to resolve an unknown function
-                // this is one of those things that should never happen (since `fns_to_resolve`
-                // is only comprised of functions we know about)
+                self.call_function(name, args)?
             }
-        }
 
-        Ok(evaled_ast)
-    }
-
-    /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
-    /// it's given replacement.
-    fn eval_variables(&self, variable_values: Variables) -> Self {
-        let mut evaled_ast = self.clone();
-        for (var_id, replacement) in variable_values {
-            evaled_ast = evaled_ast.replace_variable(&var_id, replacement);
-        }
-
-        evaled_ast
-    }
-
-    /// Do a depth-first-search on the AST, "calling" the function wherever we see a
-    /// `Node::FunctionCall` with the matching name.  Calling a function can result in two main
-    /// paths:
-    fn call_function(self, fn_id: &str, fn_ast: &Self) -> EvalResult<Self> {
-        let inner = self.into_inner();
-        Ok(match inner {
-            Node::FunctionCall { args, name } if name == fn_id => {
-                match (*fn_ast).clone().into_inner() {
-                    // when we get a `Node::Function`, take the body and replace each of it's
-                    // arguments in the body.  For example:
-                    //
-                    // fn foo(a, b) a + b
-                    //
-                    // called as:
-                    //
-                    // foo(1, 2)
-                    //
-                    // will evaluate to:
-                    //
-                    // (1 + 2)
-                    Node::Function {
-                        args: resolved_args,
-                        body,
-                        ..
-                    } => {
-                        if args.len() != resolved_args.len() {
-                            return Err(EvalError::new(
-                                fn_ast.to_string(),
-                                format!(
-                                    "Expected {} arguments but received {}",
-                                    args.len(),
-                                    resolved_args.len()
-                                ),
-                            ));
-                        }
-
-                        let mut evaled_body = body;
-                        for (i, resolved_arg) in resolved_args.iter().enumerate() {
-                            evaled_body =
-                                evaled_body.replace_variable(resolved_arg, args[i].clone());
-                        }
-
-                        evaled_body
-                    }
-
-                    // otherwise the function resolved to a non-function.  just treat that as
-                    // terminal and return it.
-                    node => node.into(),
-                }
+            Node::Function { args, body, name } => {
+                // the arguments aren't known until it's called
+                let bindings = args
+                    .iter()
+                    .map(|a| (a.clone(), Node::Reference(a.clone()).into()))
+                    .collect();
+
+                self.functions.push(name.clone());
+                let body = self.expand(body, &bindings);
+                self.functions.pop();
+
+                Ast::new(Node::Function {
+                    args: args.clone(),
+                    body: body?,
+                    name: name.clone(),
+                })
             }
 
-            // it's a function call but not the one we're looking for - recurse through the
-            // arguments
-            Node::FunctionCall { args, name } => {
-                let mut called_args = Vec::with_capacity(args.len());
-                for arg in args {
-                    called_args.push(arg.call_function(fn_id, fn_ast)?);
-                }
-
-                Node::FunctionCall {
-                    name,
-                    args: called_args,
-                }
-                .into()
-            }
-
-            // also recurse for infix functions
             Node::InfixFunctionCall {
                 left,
                 operator,
                 right,
-            } => Node::InfixFunctionCall {
-                left: left.call_function(fn_id, fn_ast)?,
-                operator,
-                right: right.call_function(fn_id, fn_ast)?,
+            } => Ast::new(Node::InfixFunctionCall {
+                left: self.expand(left, bindings)?,
+                operator: operator.clone(),
+                right: self.expand(right, bindings)?,
+            }),
+
+            Node::Reference(r) => {
+                if let Some(arg) = bindings.get(r) {
+                    arg.clone()
+                } else {
+                    self.resolve_variable(r, ast)?
+                }
             }
-            .into(),
 
             Node::Variable {
-                value: VariableValue::Ast(ast),
+                value: VariableValue::Ast(value),
                 name,
-            } => Node::Variable {
-                name,
-                value: VariableValue::Ast(ast.call_function(fn_id, fn_ast)?),
+            } => {
+                self.variables.push(name.clone());
+                let value = self.expand(value, bindings);
+                self.variables.pop();
+
+                Ast::new(Node::Variable {
+                    name: name.clone(),
+                    value: VariableValue::Ast(value?),
+                })
             }
-            .into(),
 
             // otherwise just don't modify it
-            _ => inner.clone().into(),
+            _ => ast.clone(),
         })
     }
 
-    /// Depth-first-search replacing `Node::Reference`s of `var_id` with `replacement`.
-    fn replace_variable(&self, var_id: &str, replacement: Self) -> Self {
-        let inner = (**self).clone();
-        Ast::new(match inner {
-            Node::FunctionCall { args, name } => {
-                Node::FunctionCall {
-                    // recursively call for each arg to a function
-                    args: args
-                        .into_iter()
-                        .map(|a| a.replace_variable(var_id, replacement.clone()))
-                        .collect(),
-                    name,
-                }
-            }
+    /// Take the value of the variable if it is in scope, otherwise leave the `reference` alone.
+    fn resolve_variable(&mut self, var_id: &str, reference: &Ast) -> EvalResult<Ast> {
+        let Some(variable) = self.scope.variables.get(var_id) else {
+            return Ok(reference.clone());
+        };
 
-            Node::Function { args, body, name } => Node::Function {
-                name,
-                args,
-                body: body.replace_variable(var_id, replacement.clone()),
-            },
+        if self.variables.iter().any(|v| v == var_id) {
+            return Ok(reference.clone());
+        }
 
-            Node::InfixFunctionCall {
-                left,
-                operator,
-                right,
-            } => Node::InfixFunctionCall {
-                left: left.replace_variable(var_id, replacement.clone()),
-                operator,
-                right: right.replace_variable(var_id, replacement.clone()),
-            },
+        let value = match &**variable {
+            Node::Variable {
+                value: VariableValue::Ast(value),
+                ..
+            } => value,
+            // it refers to a position in the spreadsheet so there's nothing in it to expand
+            Node::Variable { value, .. } => return Ok(value.clone().into_ast(self.position)),
+            _ => variable,
+        };
+
+        self.variables.push(var_id.to_string());
+        let expanded = self.expand(value, &Variables::default());
+        self.variables.pop();
+
+        expanded
+    }
 
-            // a reference matching our variable - take the replacement
-            Node::Reference(r) if var_id == r => replacement.into_inner(),
+    /// Take the body of the function, replacing each of it's arguments.  For example:
+    ///
+    /// fn foo(a, b) a + b
+    ///
+    /// called as:
+    ///
+    /// foo(1, 2)
+    ///
+    /// will evaluate to:
+    ///
+    /// (1 + 2)
+    fn call_function(&mut self, fn_id: &str, args: Vec<Ast>) -> EvalResult<Ast> {
+        let functions: &Functions = &self.scope.functions;
+        let function = match functions.get(fn_id) {
+            Some(function) if !self.functions.iter().any(|f| f == fn_id) => function,
+            _ => {
+                return Ok(Ast::new(Node::FunctionCall {
+                    name: fn_id.to_string(),
+                    args,
+                }))
+            }
+        };
+
+        let Node::Function {
+            args: arg_names,
+            body,
+            ..
+        } = &**function
+        else {
+            // the function resolved to a non-function.  just treat that as terminal and return it.
+            return Ok(function.clone());
+        };
+
+        if args.len() != arg_names.len() {
+            return Err(EvalError::new(
+                function.to_string(),
+                format!(
+                    "Expected {} arguments but received {}",
+                    arg_names.len(),
+                    args.len(),
+                ),
+            ));
+        }
 
-            Node::Variable {
-                value: VariableValue::Ast(ast),
-                name,
-            } => Node::Variable {
-                name,
-                value: VariableValue::Ast(ast.replace_variable(var_id, replacement.clone())),
-            },
+        let bindings = arg_names.iter().cloned().zip(args).collect();
 
-            // otherwise keep the Node unmodified
-            _ => inner,
-        })
+        self.functions.push(fn_id.to_string());
+        let expanded = self.expand(body, &bindings);
+        self.functions.pop();
+
+        expanded
     }
 }
 
diff --git a/src/ast/references.rs b/src/ast/references.rs
index 0abca64..3114511 100644
--- a/src/ast/references.rs
+++ b/src/ast/references.rs
@@ -3,7 +3,6 @@ use crate::Scope;
 use std::collections;
 
 type References = collections::HashSet<String>;
-pub(super) type ReferencesIter = collections::hash_set::IntoIter<String>;
 
 #[derive(Clone, Debug, Default, PartialEq)]
 pub(super) struct AstReferences {
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index e80e759..31dbb84 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -34,10 +34,12 @@ pub(super) struct ModuleLoader {
 // TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
 macro_rules! eval_ast {
     ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
-        for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
+        // each of them is evaluated against what was defined, not against what was evaluated so far
+        let defined = $scope.clone();
+        for (name, ast) in defined.$functions_or_variables.clone().into_iter() {
             $scope.$functions_or_variables.insert(
                 name,
-                ast.eval(&$scope, None)
+                ast.eval(&defined, None)
                     .map_err(|e| $source_code.eval_error(e, None))?,
             );
         }
-- 
2.43.0


From 6a37efe0bf73685ff19b222a482d2805899a4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 12/63] fix: end the record at a newline following a quoted
 field

---
 csvp/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 7a67674..5c209d6 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -231,8 +231,9 @@ impl<'a> Parser<'a> {
     fn parse_rest_of_quoted_field(&mut self, fb: FieldBuilder) -> Result<FieldResult> {
         loop {
             match self.consume_char() {
-                Some(c) if c.is_whitespace() => continue,
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
                     return Err(self.parse_error(format!(
-- 
2.43.0


From 381de1e171a6dd12944d09bdd78cf1a5e94899eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 13/63] fix: allow a line continuation after a quoted field

---
 csvp/src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 5c209d6..32270e5 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -233,6 +233,10 @@ impl<'a> Parser<'a> {
             match self.consume_char() {
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
                 Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue looking for the end of this field
+                    self.consume_char();
+                }
                 Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
-- 
2.43.0


From 3b9f8336400467e6c239f1b581910efc424a07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 14/63] fix: don't overflow the stack on large fields

---
 csvp/src/parser.rs | 70 ++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 43 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 32270e5..91badb0 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -164,7 +164,7 @@ impl<'a> Parser<'a> {
                 self.parse_field(fb)
             }
             // Some(c) if c.is_whitespace() => self.parse_field(fb),
-            Some('"') => Ok(self.parse_quoted_field(fb, false)?),
+            Some('"') => Ok(self.parse_quoted_field(fb)?),
             Some(c) => {
                 fb.push(c, &mut *self);
                 Ok(self.parse_unquoted_field(fb)?)
@@ -174,54 +174,38 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        match self.consume_char() {
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_unquoted_field(fb)
-            }
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_unquoted_field(fb)
+        loop {
+            match self.consume_char() {
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::last(fb)),
             }
-            None => Ok(FieldResult::last(fb)),
         }
     }
 
-    fn parse_quoted_field(
-        &mut self,
-        mut fb: FieldBuilder,
-        escape_mode: bool,
-    ) -> Result<FieldResult> {
-        let c = self.consume_char();
-        if escape_mode {
-            if let Some(c) = c {
-                fb.push(c, &mut *self);
-                return self.parse_quoted_field(fb, false);
-            }
-
-            return Err(self.parse_error("Expected a quoted character but got EOF"));
-        }
-
-        match c {
-            Some('"') => {
-                // is it two quotes in a row? if so it's a quoted quote
-                // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
-                if let Some('"') = self.chars.peek() {
-                    self.parse_quoted_field(fb, true)
-                } else {
-                    // otherwise it's a terminating quote. we need to also make sure we consume any
-                    // trailing spaces and make sure there is a ','
-                    self.parse_rest_of_quoted_field(fb)
+    fn parse_quoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
+        loop {
+            match self.consume_char() {
+                Some('"') => {
+                    // is it two quotes in a row? if so it's a quoted quote
+                    // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
+                    if let Some('"') = self.chars.peek() {
+                        self.consume_char();
+                        fb.push('"', &mut *self);
+                    } else {
+                        // otherwise it's a terminating quote. we need to also make sure we consume
+                        // any trailing spaces and make sure there is a ','
+                        return self.parse_rest_of_quoted_field(fb);
+                    }
                 }
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::some(fb)),
             }
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_quoted_field(fb, false)
-            }
-            None => Ok(FieldResult::some(fb)),
         }
     }
 
-- 
2.43.0


From c5d35b0a3c9c98820254d9bb9b70f2dc25a5507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 15/63] fix: don't panic on multi-byte characters in options,
 colors and errors

---
 src/parser/ast_lexer/unknown_token.rs | 3 +--
 src/parser/cell_lexer/mod.rs          | 8 +++++---
 src/parser/token_matcher.rs           | 3 ++-
 src/rgb/try_from.rs                   | 2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 9adb416..3ac3ea2 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -13,8 +13,7 @@ pub(crate) struct UnknownToken {
 
 impl fmt::Display for UnknownToken {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mut shortened_bad_input = self.bad_input.clone();
-        shortened_bad_input.truncate(50);
+        let shortened_bad_input: String = self.bad_input.chars().take(50).collect();
         write!(f, "{shortened_bad_input}")
     }
 }
diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 0cc4725..36ef661 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -280,7 +280,7 @@ impl<'a> CellLexer<'a> {
         for c in self.input.chars() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
-            consumed += 1;
+            consumed += c.len_utf8();
 
             if start_quote {
                 if escape_mode {
@@ -340,8 +340,10 @@ impl<'a> CellLexer<'a> {
     }
 
     fn move_input(&mut self, amount: CharOffset) {
-        self.input = &self.input[amount..];
-        self.cell_offset += amount;
+        // `amount` is in bytes but we keep track of the offset in characters
+        let (consumed, rest) = self.input.split_at(amount);
+        self.input = rest;
+        self.cell_offset += consumed.chars().count();
     }
 
     fn replace_input(&mut self, new_input: &'a str, amount: CharOffset) {
diff --git a/src/parser/token_matcher.rs b/src/parser/token_matcher.rs
index a43b4f4..944ac75 100644
--- a/src/parser/token_matcher.rs
+++ b/src/parser/token_matcher.rs
@@ -16,7 +16,8 @@ fn whitespace_start(input: &str) -> usize {
     input
         .chars()
         .take_while(|ch| ch.is_whitespace() && *ch != '\n' && *ch != '\r')
-        .count()
+        .map(char::len_utf8)
+        .sum()
 }
 
 impl<T> TokenMatcher<T> {
diff --git a/src/rgb/try_from.rs b/src/rgb/try_from.rs
index 4967e8a..52b3b03 100644
--- a/src/rgb/try_from.rs
+++ b/src/rgb/try_from.rs
@@ -39,7 +39,7 @@ impl TryFrom<TokenMatch> for Rgb {
         let start_at = usize::from(str_match.starts_with('#'));
         let input_len = str_match.len() - start_at;
 
-        if input_len == 3 || input_len == 6 {
+        if str_match.is_ascii() && (input_len == 3 || input_len == 6) {
             let (r, g, b) = parse_str(&str_match[start_at..])
                 .map_err(|e| input.into_parse_error(format!("Error parsing hex string: {e}")))?;
             Ok(Rgb::new(r, g, b))
-- 
2.43.0


From ad23653b5b51fe70fc801be81f635c71adc66ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 16/63] fix: don't lex identifiers starting with a keyword as
 that keyword

---
 src/parser/ast_lexer/token_library.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 68659f4..1cb4d4e 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -37,8 +37,8 @@ impl TokenLibrary {
         static TOKEN_LIBRARY: sync::OnceLock<TokenLibrary> = sync::OnceLock::new();
 
         TOKEN_LIBRARY.get_or_init(|| Self {
-            boolean_true: TokenMatcher::new(r"true", Token::Boolean),
-            boolean_false: TokenMatcher::new(r"false", Token::Boolean),
+            boolean_true: TokenMatcher::new(r"true\b", Token::Boolean),
+            boolean_false: TokenMatcher::new(r"false\b", Token::Boolean),
             comma: TokenMatcher::new(r",", Token::Comma),
             comment: TokenMatcher::new(r"(?m)#.*", Token::Comment),
             code_section_eof: TokenMatcher::new(r"---", Token::CodeSectionEof),
@@ -54,7 +54,7 @@ impl TokenLibrary {
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
-            use_module: TokenMatcher::new(r"use", Token::UseModule),
+            use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
     }
-- 
2.43.0


From 30186e11c9ce937b5e3921df2b332477f3ba17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 17/63] fix: allow a . anywhere after the start of a reference

---
 src/parser/ast_lexer/token_library.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 1cb4d4e..b90121a 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -53,7 +53,7 @@ impl TokenLibrary {
             fn_def: TokenMatcher::new(r"fn\s+", Token::FunctionDefinition),
             newline: TokenMatcher::new(r"\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
-            reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
+            reference: TokenMatcher::new(r"[$!\w:][$!\w:.]*", Token::Reference),
             use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
-- 
2.43.0


From 3535f4312adcf557d9fe709b88af67489a31c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 18/63] fix: don't ignore the rest of an expression after a
 stray , or )

---
 src/parser/ast_parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 0959cf4..b61f7a9 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -53,7 +53,15 @@ impl<'a> AstParser<'a> {
         field: Option<Field>,
         source_code: ArcSourceCode,
     ) -> ParseResult<Ast> {
-        AstParser::new(&AstLexer::new(input, field, source_code)?, single_expr).expr_bp(0)
+        let lexer = AstLexer::new(input, field, source_code)?;
+        let ast = AstParser::new(&lexer, single_expr).expr_bp(0)?;
+
+        // a stray `,` or `)` terminates the expression but there must not be anything after it
+        let rest = lexer.next();
+        match rest.token {
+            Token::Eof => Ok(ast),
+            t => Err(rest.into_parse_error(format!("Unexpected token ({t:?})"))),
+        }
     }
 
     /// Parse `input` from the command line, specified as a simple key/value string like
-- 
2.43.0


From 8b47508f66b209070b1e835a698044036f55eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 19/63] fix: keep the sign of a number when prefixing it with
 another one

---
 src/ast/node.rs          | 11 +++++++++++
 src/parser/ast_parser.rs | 12 ++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ast/node.rs b/src/ast/node.rs
index 85e1087..9140ca2 100644
--- a/src/ast/node.rs
+++ b/src/ast/node.rs
@@ -8,6 +8,17 @@ pub enum NumberSign {
     Positive,
 }
 
+impl NumberSign {
+    /// The sign that a number ends up with when prefixing it, if it already had a sign.  I.e., `--1`
+    pub(crate) fn apply_to(self, sign: Option<Self>) -> Self {
+        match (self, sign) {
+            (Self::Negative, Some(Self::Negative)) => Self::Positive,
+            (Self::Positive, Some(Self::Negative)) => Self::Negative,
+            (sign, _) => sign,
+        }
+    }
+}
+
 /// The most basic building block of our language AST.  The AST is made recursive by the fact that
 /// function calls and infix function calls can be composed.
 #[derive(Clone, Debug, PartialEq, serde::Deserialize, serde::Serialize)]
diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index b61f7a9..c45aae1 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -137,19 +137,23 @@ impl<'a> AstParser<'a> {
                 let rhs = self.expr_bp(r_bp)?;
                 match *rhs {
                     Node::Integer {
-                        percentage, value, ..
+                        percentage,
+                        sign: rhs_sign,
+                        value,
                     } => Node::Integer {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(sign.apply_to(rhs_sign)),
                         value,
                     }
                     .into(),
 
                     Node::Float {
-                        percentage, value, ..
+                        percentage,
+                        sign: rhs_sign,
+                        value,
                     } => Node::Float {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(sign.apply_to(rhs_sign)),
                         value,
                     }
                     .into(),
-- 
2.43.0


From ebf17a0a72db367eba86cd29678cede2cc9db4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 20/63] fix: allow use after a definition in the code section

---
 src/parser/ast_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index c45aae1..1d8e1c9 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -173,9 +173,9 @@ impl<'a> AstParser<'a> {
 
             if self.single_expr {
                 // in the case where we're just looking for a single expr, we can terminate
-                // iteration when we see a reference (beginning of `foo := ...`) or `fn`.
+                // iteration when we see a reference (beginning of `foo := ...`), `fn` or `use`.
                 match op_token.token {
-                    Token::Reference | Token::FunctionDefinition => break,
+                    Token::Reference | Token::FunctionDefinition | Token::UseModule => break,
                     // otherwise do nothing and the next match statement will do it's thing
                     // (regardless of the `single_expr` context)
                     _ => (),
-- 
2.43.0


From 2fcf28abed8e838ca9c8d6f8d49f33cbe8df178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 21/63] fix: keep function arguments which are left out

---
 src/parser/ast_parser.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 1d8e1c9..6bbe0e3 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -210,17 +210,31 @@ impl<'a> AstParser<'a> {
 
                     let mut args = vec![];
 
+                    // an argument can be left out, i.e. `IF(A1, , 2)`
+                    let omitted_arg = || Ast::new(Node::Reference(String::new()));
+                    let mut needs_arg = false;
+
                     // consume arguments (expressions) until we see a close paren
                     loop {
                         match self.lexer.peek().token {
                             Token::CloseParen => {
+                                if needs_arg {
+                                    args.push(omitted_arg());
+                                }
                                 self.lexer.next();
                                 break;
                             }
                             Token::Comma => {
+                                if needs_arg || args.is_empty() {
+                                    args.push(omitted_arg());
+                                }
+                                needs_arg = true;
                                 self.lexer.next();
                             }
-                            _ => args.push(self.expr_bp(0)?),
+                            _ => {
+                                args.push(self.expr_bp(0)?);
+                                needs_arg = false;
+                            }
                         }
                     }
 
-- 
2.43.0


From f5e971cf01a49c1bf79174d2bb2f8ccc357cfebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 22/63] fix: make a fill's range end where the fill does

---
 src/cell_options/fill/mod.rs | 3 +--
 src/spreadsheet/mod.rs       | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cell_options/fill/mod.rs b/src/cell_options/fill/mod.rs
index c9468da..a9be384 100644
--- a/src/cell_options/fill/mod.rs
+++ b/src/cell_options/fill/mod.rs
@@ -2,7 +2,6 @@
 //!
 use a1::Row;
 use serde::{Deserialize, Serialize};
-use std::cmp;
 
 mod into;
 
@@ -26,7 +25,7 @@ impl Fill {
     #[must_use]
     pub(crate) fn end_row(&self) -> Row {
         if let Some(a) = self.amount {
-            cmp::min(self.start_row.y + a, ROW_MAX).into()
+            (self.start_row.y + a).into()
         } else {
             ROW_MAX.into()
         }
diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index e308216..d893f26 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -39,8 +39,10 @@ impl Spreadsheet {
 
         for row in self.rows {
             if let Some(f) = row.fill {
-                let new_fill = f.clone_to_row(row_num);
+                let mut new_fill = f.clone_to_row(row_num);
                 let fill_amount = new_fill.amount.unwrap_or(rows_left_over);
+                // an infinite fill only spans the rows which it was actually given
+                new_fill.amount = Some(fill_amount);
 
                 for _ in 0..fill_amount {
                     rows.push(Row {
-- 
2.43.0


From d7e28dddfb24d6d2b6cf50d05a5e86fac82ea7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 23/63] fix: don't drop existing values outside of the module
 when writing CSV with --safe

---
 src/target/csv/compilation_target.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index f60b960..affe57d 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -1,5 +1,6 @@
 use crate::target::{file_backer_upper, merge_rows, CompilationTarget, Csv, MergeResult};
 use crate::{Module, Result};
+use std::cmp;
 
 impl CompilationTarget for Csv<'_> {
     fn write_backup(&self) -> Result<()> {
@@ -10,8 +11,6 @@ impl CompilationTarget for Csv<'_> {
     fn write(&self, module: &Module) -> Result<()> {
         let existing_values = Self::read(&self.path, &self.compiler.output)?;
 
-        let widest_row = module.spreadsheet.widest_row();
-
         let mut writer = csv::WriterBuilder::new()
             .flexible(true)
             .from_path(&self.path)
@@ -20,13 +19,25 @@ impl CompilationTarget for Csv<'_> {
                     .output_error(format!("Unable to open output file for writing: {e:?}"))
             })?;
 
-        for (index, row) in module.spreadsheet.rows.iter().enumerate() {
+        let module_rows = &module.spreadsheet.rows;
+
+        let mut num_rows = module_rows.len();
+        let mut widest_row = module.spreadsheet.widest_row();
+        if !self.compiler.config.overwrite_values {
+            // none of the existing values can be dropped, including those which are outside of the
+            // module being written
+            let existing_widths = existing_values.cells.iter().map(Vec::len);
+            widest_row = cmp::max(widest_row, existing_widths.max().unwrap_or(0));
+            num_rows = cmp::max(num_rows, existing_values.cells.len());
+        }
+
+        for index in 0..num_rows {
             let mut output_row: Vec<String> = merge_rows(
                 existing_values
                     .cells
                     .get(index)
                     .unwrap_or(&vec![].to_owned()),
-                &row.cells,
+                module_rows.get(index).map_or(&[], |row| &row.cells),
                 &self.compiler.config,
             )
             .iter()
-- 
2.43.0


From 9d7cb07afd226d90d245a034283ef153bd6f244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 24/63] fix: include the timestamp in the backup of a filename
 with a dot in it

---
 src/target/file_backer_upper.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 543dbed..6dd6edf 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -49,8 +49,11 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
         let timestamp = now.format(time_format);
 
         let mut new_file = file_parent.to_path_buf();
-        new_file.push(format!("{}-{timestamp}", file_stem.to_str().unwrap()));
-        new_file.set_extension(file_extension);
+        new_file.push(format!(
+            "{}-{timestamp}.{}",
+            file_stem.to_string_lossy(),
+            file_extension.to_string_lossy()
+        ));
 
         if new_file.exists() {
             continue;
-- 
2.43.0


From 43baf9182c2e5c3add65fa3696c78bdd634a68db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 25/63] fix: don't fail to compile with --backup when there is
 no output file yet

---
 src/target/file_backer_upper.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 6dd6edf..cfd07f8 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -23,9 +23,14 @@ const BACKUP_FORMATS: &[&str] = &[
 pub(crate) fn backup_file<P: AsRef<path::Path>>(
     compiler: &Compiler,
     filename: P,
-) -> Result<path::PathBuf> {
+) -> Result<Option<path::PathBuf>> {
     let filename = filename.as_ref();
 
+    if !filename.exists() {
+        info!("Nothing to backup at: {}", filename.display());
+        return Ok(None);
+    }
+
     info!("Backing up file: {}", filename.display());
 
     let filename_str = filename
@@ -65,7 +70,7 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
             );
         }
 
-        return Ok(new_file);
+        return Ok(Some(new_file));
     }
 
     Err(compiler.output_error(format!(
-- 
2.43.0


From 91b149e7713fa22f6c316c96773d04267a4fdb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 26/63] fix: write Excel notes on the cell they belong to, and
 only once

---
 src/target/excel/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f354fb..3701768 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -104,9 +104,17 @@ impl<'a> Excel<'a> {
         rt.set_text(note);
 
         let coord = comment.get_coordinate_mut();
-        coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
-        coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
-
+        // the coordinates of comments start at 1
+        let col_num = u32::try_from(position.column.x + 1).expect("32 bit coordinate for comment");
+        let row_num = u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment");
+        coord.set_col_num(col_num);
+        coord.set_row_num(row_num);
+
+        // a cell can only have one comment
+        worksheet.get_comments_mut().retain(|c| {
+            let coord = c.get_coordinate();
+            (*coord.get_col_num(), *coord.get_row_num()) != (col_num, row_num)
+        });
         worksheet.add_comments(comment);
     }
 
-- 
2.43.0


From 609e1f71c5b8437ffc9a7f191da3f9edca513525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 27/63] fix: keep the existing Excel data validations of cells
 which aren't written to

---
 src/target/excel/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 3701768..30d79b3 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -82,17 +82,19 @@ impl<'a> Excel<'a> {
     }
 
     fn set_data_validations(worksheet: &mut u::Worksheet, cell_validations: Vec<CellValidation>) {
-        let mut validations = u::DataValidations::default();
         if cell_validations.is_empty() {
             return;
         }
 
-        validations.set_data_validation_list(
-            cell_validations
-                .into_iter()
-                .map(std::convert::Into::into)
-                .collect(),
-        );
+        // keep the validations of all the cells which we're not setting one for
+        let mut validations = worksheet.get_data_validations().cloned().unwrap_or_default();
+        let validation_list = validations.get_data_validation_list_mut();
+        validation_list.retain(|v| {
+            let sqref = v.get_sequence_of_references().get_sqref();
+            !cell_validations.iter().any(|c| c.0.to_string() == sqref)
+        });
+        validation_list.extend(cell_validations.into_iter().map(u::DataValidation::from));
+
         worksheet.set_data_validations(validations);
     }
 
-- 
2.43.0


From d339523f9dfccecf9df6c4c0ee21038fd3154137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 28/63] fix: return an error rather than panicking when writing
 OpenDocument files

---
 src/target/open_document/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/target/open_document/mod.rs b/src/target/open_document/mod.rs
index 58b389d..63bb49c 100644
--- a/src/target/open_document/mod.rs
+++ b/src/target/open_document/mod.rs
@@ -19,7 +19,9 @@ impl CompilationTarget for OpenDocument<'_> {
     }
 
     fn write(&self, _module: &Module) -> Result<()> {
-        todo!()
+        Err(self
+            .compiler
+            .output_error("Writing OpenDocument (.ods) files is not supported yet"))
     }
 }
 
-- 
2.43.0


From 321fc2c2f89096eee2bc0b295516fa4da23736b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 29/63] fix: don't drop all but the first % following a number

---
 src/parser/ast_parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 6bbe0e3..11c7054 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -241,14 +241,22 @@ impl<'a> AstParser<'a> {
                     Node::FunctionCall { name: id, args }.into()
                 } else if op == "%" {
                     match *lhs {
-                        Node::Float { sign, value, .. } => Node::Float {
+                        Node::Float {
+                            sign,
+                            value,
+                            percentage: false,
+                        } => Node::Float {
                             percentage: true,
                             sign,
                             value,
                         }
                         .into(),
 
-                        Node::Integer { sign, value, .. } => Node::Integer {
+                        Node::Integer {
+                            sign,
+                            value,
+                            percentage: false,
+                        } => Node::Integer {
                             percentage: true,
                             sign,
                             value,
-- 
2.43.0


From 678d9c27fbce1bc904c86d8d9e2ab1836f227e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 30/63] fix: apply the x offset to columns and the y offset to
 rows in Google Sheets

---
 src/target/google_sheets/batch_update_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f0c9d4a..0b6a7aa 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -97,11 +97,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             start: Some(api::GridCoordinate {
                 // TODO: get rid of the unwraps
                 column_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
+                    i32::try_from(self.compiler.config.offset.0)
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0)
+                    i32::try_from(self.compiler.config.offset.1)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From f30a873168d20059646fdd95f6884492bf660e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 31/63] fix: write all sides of a border=all to Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a38fc45..3a2b4f7 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -153,7 +153,7 @@ impl<'a> GoogleSheetsCell<'a> {
     }
 
     fn border_side(&self, side: BorderSide) -> Option<api::Border> {
-        if self.0.borders.contains(&side) {
+        if self.0.side_has_border(side) {
             Some(self.border())
         } else {
             None
-- 
2.43.0


From 9cbf001c00a00ec6cd41c774a4d9fbaa1c602bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 32/63] fix: use the alignment and wrapping values that the
 Google Sheets API accepts

---
 src/target/google_sheets/google_sheets_cell.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 3a2b4f7..5fd6c62 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -205,7 +205,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn horizontal_alignment(&self) -> String {
         match self.0.horizontal_align {
             HorizontalAlign::Left => "LEFT",
-            HorizontalAlign::Center => "MIDDLE",
+            HorizontalAlign::Center => "CENTER",
             HorizontalAlign::Right => "RIGHT",
         }
         .to_string()
@@ -277,7 +277,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn wrap_strategy(&self) -> String {
         match self.0.text_wrap {
             TextWrap::Wrap => "WRAP",
-            TextWrap::Overflow => "OVERFLOW",
+            TextWrap::Overflow => "OVERFLOW_CELL",
             TextWrap::Clip => "CLIP",
         }
         .to_string()
-- 
2.43.0


From 4ea84c67f13cf9ad60b47e2a7728d8754ed34eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 33/63] fix: use the condition types that the Google Sheets API
 accepts for data validations

---
 .../google_sheets/google_sheets_cell.rs       | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 5fd6c62..a1fa7c7 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -85,14 +85,14 @@ impl<'a> GoogleSheetsCell<'a> {
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM", c),
+                DataValidation::Custom(c) => validate_str!("CUSTOM_FORMULA", c),
                 DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
                 DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
                     validate_date!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQUAL_TO", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID_DATE"),
+                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
                     validate_date!("DATE_NOT_BETWEEN", da, db)
                 }
@@ -104,34 +104,34 @@ impl<'a> GoogleSheetsCell<'a> {
                 DataValidation::NumberBetween(na, nb) => {
                     validate_str!("NUMBER_BETWEEN", na, nb)
                 }
-                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQUAL_TO", n),
+                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQ", n),
                 DataValidation::NumberGreaterThan(n) => {
-                    validate_str!("NUMBER_GREATER_THAN", n)
+                    validate_str!("NUMBER_GREATER", n)
                 }
                 DataValidation::NumberGreaterThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_GREATER_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_GREATER_THAN_EQ", n)
                 }
                 DataValidation::NumberLessThan(n) => {
-                    validate_str!("NUMBER_LESS_THAN", n)
+                    validate_str!("NUMBER_LESS", n)
                 }
                 DataValidation::NumberLessThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_LESS_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_LESS_THAN_EQ", n)
                 }
                 DataValidation::NumberNotBetween(na, nb) => {
                     validate_str!("NUMBER_NOT_BETWEEN", na, nb)
                 }
                 DataValidation::NumberNotEqualTo(n) => {
-                    validate_str!("NUMBER_NOT_EQUAL_TO", n)
+                    validate_str!("NUMBER_NOT_EQ", n)
                 }
                 DataValidation::TextContains(t) => validate_str!("TEXT_CONTAINS", t),
                 DataValidation::TextDoesNotContain(t) => {
-                    validate_str!("TEXT_DOES_NOT_CONTAIN", t)
+                    validate_str!("TEXT_NOT_CONTAINS", t)
                 }
-                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQUAL_TO", t),
-                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_VALID_EMAIL"),
-                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_VALID_URL"),
+                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQ", t),
+                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_EMAIL"),
+                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_URL"),
                 DataValidation::ValueInList(list) => api::BooleanCondition {
-                    type_: Some("VALUE_IN_LIST".to_string()),
+                    type_: Some("ONE_OF_LIST".to_string()),
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
@@ -141,7 +141,7 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("VALUE_IN_RANGE", a1),
+                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0


From 3f6e30a9f539007c7aaf2b34a3cdf66171e87adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 34/63] verif: hook to get at the Google Sheets request, with
 --cfg csvpp_verif

---
 src/lib.rs                      |  8 ++++++++
 src/target/google_sheets/mod.rs | 36 +++++++++++++++++++++++++++++++++
 src/target/mod.rs               |  5 +++++
 3 files changed, 49 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6875837..fcfeaf4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 #![warn(clippy::pedantic)]
 #![deny(warnings)]
+// the verification hooks are only built with `--cfg csvpp_verif`
+#![allow(unexpected_cfgs)]
 
 mod ast;
 mod cell;
@@ -45,6 +47,12 @@ use log::{error, info, warn};
 
 // test_utils should only be included in tests, never referenced by release code (or built into the
 // release)
+#[cfg(csvpp_verif)]
+#[allow(missing_docs, clippy::missing_panics_doc)]
+pub mod verif {
+    pub use crate::target::verif::google_sheets_request;
+}
+
 #[cfg(test)]
 mod test_utils;
 
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 62e876e..d896177 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -190,6 +190,42 @@ impl<'a> GoogleSheets<'a> {
     }
 }
 
+#[cfg(csvpp_verif)]
+pub(crate) mod verif {
+    use super::{BatchUpdateBuilder, ExistingCell, ExistingValues};
+    use crate::{Compiler, Module};
+
+    /// The request that would be sent to Google Sheets to write `module` over the `existing` cells,
+    /// which are `null` or the JSON of a `CellData`.
+    #[must_use]
+    pub fn google_sheets_request(
+        compiler: &Compiler,
+        module: &Module,
+        existing: &serde_json::Value,
+    ) -> serde_json::Value {
+        let rows: Vec<Vec<serde_json::Value>> = serde_json::from_value(existing.clone()).unwrap();
+        let existing_values = ExistingValues {
+            cells: rows
+                .into_iter()
+                .map(|row| {
+                    row.into_iter()
+                        .map(|cell| {
+                            if cell.is_null() {
+                                ExistingCell::Empty
+                            } else {
+                                ExistingCell::Value(serde_json::from_value(cell).unwrap())
+                            }
+                        })
+                        .collect()
+                })
+                .collect(),
+        };
+
+        serde_json::to_value(BatchUpdateBuilder::new(compiler, module, &existing_values).build())
+            .unwrap()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     /* TODO: need to
diff --git a/src/target/mod.rs b/src/target/mod.rs
index da82ea2..c08a6d8 100644
--- a/src/target/mod.rs
+++ b/src/target/mod.rs
@@ -12,6 +12,11 @@ pub(crate) use excel::Excel;
 pub(crate) use google_sheets::GoogleSheets;
 pub(crate) use open_document::OpenDocument;
 
+#[cfg(csvpp_verif)]
+pub(crate) mod verif {
+    pub use super::google_sheets::verif::google_sheets_request;
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub(crate) enum ExistingCell<V: Clone> {
     Value(V),
-- 
2.43.0


From 5fa134d64766982a2a08c8df98b3c959212b3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 35/63] fix: don't abort on object code with garbage lengths in
 it

---
 src/module/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index ede1720..5ed77f8 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -87,12 +87,13 @@ impl Module {
             return None;
         }
 
-        let obj_file_reader = match fs::File::open(&filename) {
-            Ok(r) => r,
+        // read all of it before deserializing, rather than trusting any lengths that are in there
+        let object_code = match fs::read(&filename) {
+            Ok(o) => o,
             Err(e) => compiler_error(format!("Error opening object code: {e}")),
         };
 
-        let Ok(mut loaded_module) = bincode::deserialize_from::<_, Self>(obj_file_reader) else {
+        let Ok(mut loaded_module) = bincode::deserialize::<Self>(&object_code) else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
-- 
2.43.0


From b301dbaa28ebd36321cc5a61a8fed751214899fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 36/63] fix: write rows past the 1000th to where they belong in
 Google Sheets

---
 .../google_sheets/batch_update_builder.rs     | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 0b6a7aa..7e3f91e 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -7,6 +7,9 @@ use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
 
+/// How many rows to write with each request
+const ROWS_PER_REQUEST: usize = 1000;
+
 pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
@@ -37,11 +40,12 @@ impl<'a> BatchUpdateBuilder<'a> {
     fn batch_update_cells_requests(&self) -> Vec<api::Request> {
         let all_rows = self.row_data();
 
-        // split the rows into requests with 1000 per
+        // split the rows into multiple requests
         all_rows
-            .chunks(1000)
-            .map(|rows| api::Request {
-                update_cells: Some(self.update_cells_request(rows)),
+            .chunks(ROWS_PER_REQUEST)
+            .enumerate()
+            .map(|(i, rows)| api::Request {
+                update_cells: Some(self.update_cells_request(i * ROWS_PER_REQUEST, rows)),
                 ..Default::default()
             })
             .collect()
@@ -91,7 +95,11 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
-    fn update_cells_request(&self, rows: &[api::RowData]) -> api::UpdateCellsRequest {
+    fn update_cells_request(
+        &self,
+        first_row: usize,
+        rows: &[api::RowData],
+    ) -> api::UpdateCellsRequest {
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
@@ -101,7 +109,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
+                    i32::try_from(self.compiler.config.offset.1 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From e30a9196c5bec1cb68731da79b7a3fb070b33961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 37/63] fix: send the dates of data validations to Google
 Sheets as values rather than as relative dates

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a1fa7c7..e9a095f 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -32,7 +32,7 @@ macro_rules! build_boolean_condition {
 
 macro_rules! validate_date {
     ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, relative_date $(,$dv)*)
+        build_boolean_condition!($gs_name, user_entered_value $(,$dv)*)
     };
 }
 
-- 
2.43.0


From 01c9d5550c2e2adaa290c6362efde45a03f416a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 38/63] fix: use the day numbers of Excel for date validations

---
 src/target/excel/cell_validation.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 56c7a41..c31a3f0 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,4 +1,5 @@
 use crate::cell_options::DataValidation;
+use crate::DateTime;
 use umya_spreadsheet as u;
 
 #[derive(Debug)]
@@ -28,17 +29,27 @@ macro_rules! validation {
     };
 }
 
+/// In Excel January 1, 1900 is day 1, and it counts the (non-existing) February 29, 1900 as well
+fn excel_date(date: &DateTime) -> i64 {
+    let days = date.distance_from_epoch() + 1;
+    if days > 59 {
+        days + 1
+    } else {
+        days
+    }
+}
+
 macro_rules! date_validation {
     ($v:ident, $op:ident, $formula1:ident, $prompt:expr) => {
-        validation!($v, Date, $op, $formula1.distance_from_epoch(), $prompt)
+        validation!($v, Date, $op, excel_date(&$formula1), $prompt)
     };
     ($v:ident, $op:ident, $formula1:ident, $formula2:ident, $prompt:expr) => {
         validation!(
             $v,
             Date,
             $op,
-            $formula1.distance_from_epoch(),
-            $formula2.distance_from_epoch(),
+            excel_date(&$formula1),
+            excel_date(&$formula2),
             $prompt
         )
     };
-- 
2.43.0


From 98a85280fa7f5a8e4f0b8d0c4868e0e04de8cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 39/63] fix: apply bordercolor to Excel borders

---
 src/target/excel/excel_cell.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/excel_cell.rs b/src/target/excel/excel_cell.rs
index 819b5bd..62e1a61 100644
--- a/src/target/excel/excel_cell.rs
+++ b/src/target/excel/excel_cell.rs
@@ -111,7 +111,10 @@ impl<'a> ExcelCell<'a> {
             return;
         }
 
-        let border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        let mut border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        if let Some(bc) = self.0.border_color.clone() {
+            border_style.set_color(bc.into());
+        }
 
         let b = s.get_borders_mut();
         if self.0.side_has_border(BorderSide::Left) {
-- 
2.43.0


From b0739e180212c9a7792ffe021950b0ae850535f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 40/63] fix: accept the documented aliases of number
 validations

---
 src/parser/cell_parser/validate.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 56eeec1..396b08b 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -45,18 +45,20 @@ impl CellParser<'_, '_> {
             "date_nbtwn" | "date_not_between" => self.validate_date_not_between(),
             "date_gte" | "date_on_or_after" => self.validate_date_on_or_after(),
             "date_lte" | "date_on_or_before" => self.validate_date_on_or_before(),
-            "num_btwn" | "number_between" => self.validate_number_between(),
-            "num_eq" | "number_equal_to" => self.validate_number_equal_to(),
-            "num_gt" | "number_greater_than" => self.validate_number_greater_than(),
-            "num_gte" | "number_greater_than_or_equal_to" => {
+            "num_btwn" | "number_btwn" | "number_between" => self.validate_number_between(),
+            "num_eq" | "number_eq" | "number_equal_to" => self.validate_number_equal_to(),
+            "num_gt" | "number_gt" | "number_greater_than" => self.validate_number_greater_than(),
+            "num_gte" | "number_gte" | "number_greater_than_or_equal_to" => {
                 self.validate_number_greater_than_or_equal_to()
             }
-            "num_lt" | "number_less_than" => self.validate_number_less_than(),
-            "num_lte" | "number_less_than_or_equal_to" => {
+            "num_lt" | "number_lt" | "number_less_than" => self.validate_number_less_than(),
+            "num_lte" | "number_lte" | "number_less_than_or_equal_to" => {
                 self.validate_number_less_than_or_equal_to()
             }
-            "num_nbtwn" | "number_not_between" => self.validate_number_not_between(),
-            "num_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
+            "num_nbtwn" | "number_nbtwn" | "number_not_between" => {
+                self.validate_number_not_between()
+            }
+            "num_neq" | "number_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
             "text_contains" => self.validate_text_contains(),
             "text_does_not_contain" => self.validate_text_does_not_contain(),
             "text_eq" | "text_equal_to" => self.validate_text_equal_to(),
-- 
2.43.0


From 084b5dae3b9dc1e012987533ddf9ffc16a77b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 41/63] fix: don't quote the strings of an in_list validation
 in Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index e9a095f..3683cf3 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -5,6 +5,7 @@
 //! sending a bunch of default values and prefer to return None instead.  In other words the API
 //! payloads should reflect only the things the user specified on the cell.
 //!
+use crate::ast::Node;
 use crate::cell_options::{
     BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat, TextFormat, TextWrap,
     VerticalAlign,
@@ -135,7 +136,11 @@ impl<'a> GoogleSheetsCell<'a> {
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
-                                user_entered_value: Some(l.to_string()),
+                                // (strings are displayed with quotes)
+                                user_entered_value: Some(match l.clone().into_inner() {
+                                    Node::Text(t) => t,
+                                    n => n.to_string(),
+                                }),
                                 ..Default::default()
                             })
                             .collect(),
-- 
2.43.0


From 2ffe96c07fc394144f149b05efa383f710b9c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 42/63] fix: don't export an imported variable because there's
 a function of the same name

---
 src/scope/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scope/mod.rs b/src/scope/mod.rs
index 0a994e9..cf91795 100644
--- a/src/scope/mod.rs
+++ b/src/scope/mod.rs
@@ -8,6 +8,10 @@ pub struct Scope {
     pub(crate) functions: Functions,
     pub(crate) variables: Variables,
     pub(crate) exports: collections::HashSet<String>,
+    /// a function and a variable can have the same name, so a name in `exports` doesn't mean that
+    /// both of them are - these were merged from another module
+    pub(crate) imported_functions: collections::HashSet<String>,
+    pub(crate) imported_variables: collections::HashSet<String>,
 }
 
 impl Scope {
@@ -43,12 +47,14 @@ impl Scope {
     pub(crate) fn merge(&mut self, other: &Self) {
         for e in &other.exports {
             if let Some(f) = other.functions.get(e) {
-                if !self.functions.contains_key(e) {
+                if !other.imported_functions.contains(e) && !self.functions.contains_key(e) {
+                    self.imported_functions.insert(e.clone());
                     self.functions.insert(e.clone(), f.clone());
                 }
             }
             if let Some(v) = other.variables.get(e) {
-                if !self.variables.contains_key(e) {
+                if !other.imported_variables.contains(e) && !self.variables.contains_key(e) {
+                    self.imported_variables.insert(e.clone());
                     self.variables.insert(e.clone(), v.clone());
                 }
             }
-- 
2.43.0


From 2f1b3475f12a598d0476c184103d2f42c77ea7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 43/63] fix: don't leave the previous value in Excel cells
 which became empty or a formula

---
 src/target/excel/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 30d79b3..aa62479 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -122,6 +122,9 @@ impl<'a> Excel<'a> {
 
     // TODO: turn into an impl (from/into)? the problem is we're mutating existing_cell...
     fn set_value(existing_cell: &mut u::Cell, cell: &Cell) {
+        // otherwise an empty cell would keep the previous value, as would a formula (as its result)
+        existing_cell.set_blank();
+
         if let Some(ast) = &cell.ast {
             match ast.clone().into_inner() {
                 Node::Boolean(b) => existing_cell.set_value_bool(b),
-- 
2.43.0


From c5e11112490f377d16aca32e2cdbbf882bb5bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 44/63] fix: Excel cells which are only formatted don't have a
 value to preserve with --safe

---
 src/target/excel/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index aa62479..73f2171 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -155,11 +155,12 @@ impl<'a> Excel<'a> {
         position: a1::Address,
         worksheet: &u::Worksheet,
     ) -> ExistingCell<ExcelValue> {
-        let cell_value = worksheet.get_cell(position.to_string());
-        if let Some(cell) = cell_value {
-            ExistingCell::Value(cell.clone())
-        } else {
-            ExistingCell::Empty
+        match worksheet.get_cell(position.to_string()) {
+            Some(cell) if cell.is_formula() || !cell.get_value().is_empty() => {
+                ExistingCell::Value(cell.clone())
+            }
+            // a cell that is only formatted doesn't have a value
+            _ => ExistingCell::Empty,
         }
     }
 
-- 
2.43.0


From e3c6251b969c77e895325df2e5a5bc191fd1ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:12 +0000
Subject: [PATCH 45/63] fix: merge the cells of a Google Sheet with the
 existing ones at their offset

---
 src/target/google_sheets/batch_update_builder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 7e3f91e..13ba0e2 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -78,14 +78,22 @@ impl<'a> BatchUpdateBuilder<'a> {
     }
 
     fn row_data(&self) -> Vec<api::RowData> {
+        // the existing values start at A1 but we're writing from the offset on
+        let (x_offset, y_offset) = self.compiler.config.offset;
+        let (x_offset, y_offset) = (x_offset as usize, y_offset as usize);
+
         self.module
             .spreadsheet
             .rows
             .iter()
             .enumerate()
             .map(|(i, row)| {
-                let empty_row = vec![];
-                let existing_row = self.existing_values.cells.get(i).unwrap_or(&empty_row);
+                let existing_row = self
+                    .existing_values
+                    .cells
+                    .get(y_offset + i)
+                    .and_then(|row| row.get(x_offset..))
+                    .unwrap_or_default();
                 let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
-- 
2.43.0


From c32a81a6f835ae652d0626b7f853cf6077653b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 46/63] fix: notice when an Excel file can't be written
 completely, and keep the existing one

---
 src/target/excel/compilation_target.rs | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index ad49796..df737ec 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -1,6 +1,7 @@
 use super::super::{file_backer_upper, CompilationTarget};
 use super::Excel;
-use crate::{Module, Result};
+use crate::{Error, Module, Result};
+use std::fs;
 use umya_spreadsheet as u;
 
 impl CompilationTarget for Excel<'_> {
@@ -20,14 +21,27 @@ impl CompilationTarget for Excel<'_> {
 
         self.build_worksheet(module, worksheet);
 
-        u::writer::xlsx::write(&spreadsheet, self.path.clone()).map_err(|e| {
-            self.compiler.output_error(format!(
-                "Unable to write target file {}: {e}",
-                self.path.display()
-            ))
-        })?;
+        // `u::writer::xlsx::write` doesn't notice when small files can't be written completely
+        let mut contents = vec![];
+        u::writer::xlsx::write_writer(&spreadsheet, &mut contents)
+            .map_err(|e| self.write_error(e))?;
+
+        let temporary_file = self.path.with_extension("xlsxtmp");
+        fs::write(&temporary_file, contents)
+            .and_then(|()| fs::rename(&temporary_file, &self.path))
+            .map_err(|e| {
+                let _ = fs::remove_file(&temporary_file);
+                self.write_error(e)
+            })
+    }
+}
 
-        Ok(())
+impl Excel<'_> {
+    fn write_error<E: std::fmt::Display>(&self, error: E) -> Error {
+        self.compiler.output_error(format!(
+            "Unable to write target file {}: {error}",
+            self.path.display()
+        ))
     }
 }
 
-- 
2.43.0


From 9b53d6ef1283f419c92580e61cbacffe78417fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 47/63] fix: ids of Google Sheets can have - and _ in them

---
 src/output/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 11da65c..f5f352e 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -62,11 +62,12 @@ impl Output {
     }
 
     fn from_google_sheet_id(sheet_id: String) -> Result<Self> {
-        if sheet_id.chars().all(char::is_alphanumeric) {
+        let is_valid = |c: char| c.is_alphanumeric() || c == '-' || c == '_';
+        if sheet_id.chars().all(is_valid) {
             Ok(Self::GoogleSheets(sheet_id))
         } else {
             Err(Error::InitError(
-                "The GOOGLE_SHEET_ID must be all letters and digits.".to_string(),
+                "The GOOGLE_SHEET_ID must be all letters, digits, - and _.".to_string(),
             ))
         }
     }
-- 
2.43.0


From cbd23b5e38023c60a588df0c4b3329ff38033956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 48/63] fix: with --safe nothing was written to cells of a
 Google Sheet which were blank or only formatted

---
 src/target/google_sheets/batch_update_builder.rs |  6 +++++-
 src/target/google_sheets/mod.rs                  | 12 +++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 13ba0e2..f6a5c2a 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -5,6 +5,7 @@ use crate::ast::Node;
 use crate::target::{merge_rows, ExistingValues, MergeResult};
 use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
+use std::cmp;
 use std::str::FromStr;
 
 /// How many rows to write with each request
@@ -94,7 +95,10 @@ impl<'a> BatchUpdateBuilder<'a> {
                     .get(y_offset + i)
                     .and_then(|row| row.get(x_offset..))
                     .unwrap_or_default();
-                let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
+                // cells which aren't part of the request are left as they are
+                let width = cmp::min(existing_row.len(), row.cells.len());
+                let merged_row =
+                    merge_rows(&existing_row[..width], &row.cells, &self.compiler.config);
 
                 api::RowData {
                     values: Some(Self::cell_data(&merged_row)),
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index d896177..d0c321d 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -110,7 +110,17 @@ impl<'a> GoogleSheets<'a> {
                 .map(|row| {
                     if let Some(v) = &row.values {
                         v.iter()
-                            .map(|cell| ExistingCell::Value(cell.clone()))
+                            .map(|cell| {
+                                // there are also cells which are blank or only formatted, and
+                                // ones whose value is from a formula in another cell
+                                if cell.user_entered_value.is_some()
+                                    || cell.effective_value.is_some()
+                                {
+                                    ExistingCell::Value(cell.clone())
+                                } else {
+                                    ExistingCell::Empty
+                                }
+                            })
                             .collect()
                     } else {
                         vec![]
-- 
2.43.0


From a9d0d1b9a6331069fa7722ddd8b83db8c042f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 49/63] fix: write to the tab of a Google Sheet which was asked
 for, and to the same one that was read

---
 .../google_sheets/batch_update_builder.rs     |  9 +++-
 src/target/google_sheets/mod.rs               | 42 +++++++++++++------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f6a5c2a..15c2a8b 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -15,6 +15,7 @@ pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
     module: &'a Module,
+    sheet_id: Option<i32>,
 }
 
 impl<'a> BatchUpdateBuilder<'a> {
@@ -27,9 +28,15 @@ impl<'a> BatchUpdateBuilder<'a> {
             existing_values,
             compiler,
             module,
+            sheet_id: None,
         }
     }
 
+    /// Write to the sheet (the tab) with this id, rather than the one with the id 0
+    pub(super) fn with_sheet_id(self, sheet_id: Option<i32>) -> Self {
+        Self { sheet_id, ..self }
+    }
+
     /// Loops over each row of the spreadsheet, building up `UpdateCellsRequest`s.  
     pub(super) fn build(&self) -> api::BatchUpdateSpreadsheetRequest {
         api::BatchUpdateSpreadsheetRequest {
@@ -124,7 +131,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                     i32::try_from(self.compiler.config.offset.1 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
-                sheet_id: None,
+                sheet_id: self.sheet_id,
             }),
             rows: Some(rows.to_vec()),
             range: None,
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index d0c321d..d9f95b3 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -27,10 +27,10 @@ pub(crate) struct GoogleSheets<'a> {
 }
 
 macro_rules! unwrap_or_empty {
-    ($to_unwrap:expr) => {{
+    ($to_unwrap:expr, $sheet_id:expr) => {{
         match $to_unwrap {
             Some(s) => s,
-            None => return Ok(ExistingValues::default()),
+            None => return Ok(($sheet_id, ExistingValues::default())),
         }
     }};
 }
@@ -56,7 +56,12 @@ impl<'a> GoogleSheets<'a> {
         })
     }
 
-    async fn read_existing_cells(&self, hub: &SheetsHub) -> Result<ExistingValues<SheetsValue>> {
+    /// The id of the sheet (the tab) to write to and the values in it.  This is the one which is
+    /// called `sheet_name`, or the first one if there is none.
+    async fn read_existing_cells(
+        &self,
+        hub: &SheetsHub,
+    ) -> Result<(Option<i32>, ExistingValues<SheetsValue>)> {
         let spreadsheet = match hub
             .spreadsheets()
             .get(&self.sheet_id)
@@ -71,7 +76,7 @@ impl<'a> GoogleSheets<'a> {
                         if obj["error"]["code"].as_u64().is_some_and(|c| c == 404) =>
                     {
                         // 404 is fine, it just means it doesn't exist yet
-                        return Ok(ExistingValues::default());
+                        return Ok((None, ExistingValues::default()));
                     }
                     _ => {
                         warn!("Google Sheets API error response: {e}");
@@ -98,13 +103,20 @@ impl<'a> GoogleSheets<'a> {
         };
         */
 
-        let sheets = unwrap_or_empty!(spreadsheet.sheets); // Vec<Sheet>
-        let sheet = unwrap_or_empty!(sheets.first()); // &Sheet
-        let data = unwrap_or_empty!(&sheet.data); // &Vec<GridData>
-        let grid_data = unwrap_or_empty!(data.first()); // &GridData
-        let row_data = unwrap_or_empty!(&grid_data.row_data); // &Vec<RowData>
+        let sheets = unwrap_or_empty!(spreadsheet.sheets, None); // Vec<Sheet>
+        let named_sheet = sheets.iter().find(|sheet| {
+            sheet
+                .properties
+                .as_ref()
+                .is_some_and(|p| p.title.as_ref() == Some(&self.compiler.config.sheet_name))
+        });
+        let sheet = unwrap_or_empty!(named_sheet.or(sheets.first()), None); // &Sheet
+        let sheet_id = sheet.properties.as_ref().and_then(|p| p.sheet_id);
+        let data = unwrap_or_empty!(&sheet.data, sheet_id); // &Vec<GridData>
+        let grid_data = unwrap_or_empty!(data.first(), sheet_id); // &GridData
+        let row_data = unwrap_or_empty!(&grid_data.row_data, sheet_id); // &Vec<RowData>
 
-        Ok(ExistingValues {
+        let existing_values = ExistingValues {
             cells: row_data
                 .iter()
                 .map(|row| {
@@ -127,7 +139,9 @@ impl<'a> GoogleSheets<'a> {
                     }
                 })
                 .collect(),
-        })
+        };
+
+        Ok((sheet_id, existing_values))
     }
 
     async fn drive_hub(&self) -> Result<DriveHub> {
@@ -167,9 +181,11 @@ impl<'a> GoogleSheets<'a> {
 
     async fn write_sheet(&self, module: &Module) -> Result<()> {
         let hub = self.sheets_hub().await?;
-        let existing_values = self.read_existing_cells(&hub).await?;
+        let (sheet_id, existing_values) = self.read_existing_cells(&hub).await?;
         let batch_update_request =
-            BatchUpdateBuilder::new(self.compiler, module, &existing_values).build();
+            BatchUpdateBuilder::new(self.compiler, module, &existing_values)
+                .with_sheet_id(sheet_id)
+                .build();
 
         hub.spreadsheets()
             .batch_update(batch_update_request, &self.sheet_id)
-- 
2.43.0


From bc10c9c9b8b3beb1b199f83b6e5667bbf152f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 50/63] fix: show errors in the arguments, they were dropped
 because logging wasn't set up yet

---
 src/compiler/try_from.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/try_from.rs b/src/compiler/try_from.rs
index 3a66aa4..36cbe16 100644
--- a/src/compiler/try_from.rs
+++ b/src/compiler/try_from.rs
@@ -7,6 +7,11 @@ impl TryFrom<&CliArgs> for Compiler {
     type Error = crate::Error;
 
     fn try_from(cli_args: &CliArgs) -> std::result::Result<Self, Self::Error> {
+        // errors are reported by logging them, so this has to come before anything that can fail
+        logger::init(
+            logger::u8_into_level_filter(cli_args.verbose).unwrap_or(log::LevelFilter::Error),
+        );
+
         let config = Config {
             key_values: AstParser::parse_key_value_str(
                 &cli_args.key_values,
@@ -15,8 +20,6 @@ impl TryFrom<&CliArgs> for Compiler {
             ..Config::try_from(cli_args)?
         };
 
-        logger::init(config.verbosity);
-
         let compiler = Self {
             config,
             output: Output::try_from(cli_args)?,
-- 
2.43.0


From 37294db0e804dc0885f17565a0f3149b5435e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 51/63] fix: an output filename which isn't UTF-8 is
 unsupported instead of a panic

---
 src/output/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index f5f352e..154cdc0 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -56,7 +56,7 @@ impl Output {
         } else {
             Err(Error::InitError(format!(
                 "{} is an unsupported extension: only .csv, .xlsx or .ods are supported.",
-                ext.to_str().unwrap()
+                ext.to_string_lossy()
             )))
         }
     }
-- 
2.43.0


From 7a1ae32171cce369ad1c30cdf6a1d58bf8ac4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 52/63] fix: the positions of fields were off by one after the
 first line and by what was trimmed

---
 csvp/src/field_builder.rs | 13 +++++++++++--
 csvp/src/parser.rs        |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/csvp/src/field_builder.rs b/csvp/src/field_builder.rs
index b43603b..c49478f 100644
--- a/csvp/src/field_builder.rs
+++ b/csvp/src/field_builder.rs
@@ -9,10 +9,19 @@ pub(crate) struct FieldBuilder {
 
 impl From<FieldBuilder> for Field {
     fn from(pf: FieldBuilder) -> Self {
+        let value = pf.value.trim().to_string();
+        let trimmed = pf.value.chars().take_while(|c| c.is_whitespace()).count();
+
         Field {
             address: pf.address,
-            value: pf.value.trim().to_string(),
-            positions: pf.positions,
+            // each of the characters that's left has a position
+            positions: pf
+                .positions
+                .into_iter()
+                .skip(trimmed)
+                .take(value.chars().count())
+                .collect(),
+            value,
         }
     }
 }
diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 91badb0..c5b1a90 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -26,6 +26,8 @@ pub struct Parser<'a> {
     chars: iter::Peekable<str::Chars<'a>>,
     source_line: usize,
     source_offset: isize,
+    /// was the last character that we consumed the end of a line?
+    at_end_of_line: bool,
 }
 
 #[derive(Debug)]
@@ -74,6 +76,7 @@ impl<'a> Parser<'a> {
             source_line: 0,
             // -1 because we're going to increment as we consume characters
             source_offset: -1,
+            at_end_of_line: false,
         }
     }
 
@@ -235,12 +238,13 @@ impl<'a> Parser<'a> {
 
     fn consume_char(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
-            if is_record_terminator(c) {
+            if self.at_end_of_line {
                 self.source_line += 1;
                 self.source_offset = 0;
             } else {
                 self.source_offset += 1;
             }
+            self.at_end_of_line = is_record_terminator(c);
             Some(c)
         } else {
             None
-- 
2.43.0


From a6eda1395b1d7a1357ef896b34226d7c7ab49073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 53/63] fix: point to the right place in formulas and texts
 which span lines, have non-ASCII characters or options before them

---
 src/parser/ast_lexer/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 50b6aac..8b5417e 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -60,7 +60,11 @@ impl<'a> AstLexer<'a> {
     ) -> ParseResult<AstLexer<'a>> {
         let token_library = TokenLibrary::library();
         let mut line_number = 0;
-        let mut line_offset = 0;
+        // with a `field` it's the offset in all of the field, which knows about it's lines.  the
+        // formula is the end of it, it can be preceded by options
+        let mut line_offset = field.as_ref().map_or(0, |f| {
+            f.value.chars().count().saturating_sub(input.chars().count())
+        });
 
         let mut tokens: Vec<TokenMatch> = vec![];
         let mut p = if let Some(input) = input.strip_prefix('=') {
@@ -77,30 +81,34 @@ impl<'a> AstLexer<'a> {
                 let token = token_matcher.0;
 
                 if let Some(m) = token_matcher.try_match(p) {
-                    if token == Token::Newline {
-                        // just count the newline but don't store it on `tokens`
-                        line_number += 1;
-                    } else if token != Token::Comment {
+                    let (consumed, rest) = p.split_at(m.len_full_match);
+
+                    if token != Token::Newline && token != Token::Comment {
                         // we'll want to consume everything except for comments and newlines (no point
                         // in the parsing logic needing to consider them)
+                        let leading_whitespace = &consumed[..m.len_leading_whitespace];
                         tokens.push(TokenMatch {
                             token,
                             str_match: m.str_match,
-                            position: (line_offset + m.len_leading_whitespace, line_number).into(),
+                            position: (line_offset + leading_whitespace.chars().count(), line_number)
+                                .into(),
                             field: field.clone(),
                             source_code: source_code.clone(),
                         });
                     }
 
-                    if token == Token::Newline {
-                        // move line_offset back to the beginning
-                        line_offset = 0;
-                    } else {
-                        line_offset += m.len_full_match;
+                    for c in consumed.chars() {
+                        if c == '\n' && field.is_none() {
+                            // move line_offset back to the beginning
+                            line_number += 1;
+                            line_offset = 0;
+                        } else {
+                            line_offset += 1;
+                        }
                     }
 
                     // move the input past the match
-                    p = &p[m.len_full_match..];
+                    p = rest;
                     matched = true;
 
                     break;
-- 
2.43.0


From 361ae650f620886f37daecb032eaf9fea06b2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 54/63] fix: the line of something unexpected which is the
 first in it's line of a cell

---
 src/parser/cell_lexer/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 36ef661..c4709ce 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -330,13 +330,23 @@ impl<'a> CellLexer<'a> {
             Err(self.unknown_string(format!("Expected a {token}")))
         } else {
             self.move_input(matched.len());
-            Ok(self.match_token(token, &matched))
+            Ok(TokenMatch {
+                cell_offset: self.cell_offset.saturating_sub(1),
+                ..self.match_token(token, &matched)
+            })
         }
     }
 
     // our parser has the `cell_offset` set to one position ahead of where we last read
     fn current_cell_offset(&self) -> CharOffset {
-        self.cell_offset.saturating_sub(1)
+        let last_read = self.cell_offset.saturating_sub(1);
+        let line_of = |offset| self.field.position_for_offset(offset).map(|p| p.line_number);
+
+        // ... unless that was the end of a line, what we're looking at is on the next one
+        match (line_of(last_read), line_of(self.cell_offset)) {
+            (Some(last), Some(current)) if last != current => self.cell_offset,
+            _ => last_read,
+        }
     }
 
     fn move_input(&mut self, amount: CharOffset) {
-- 
2.43.0


From fbf5af30c7bd43601981b7bb25db3997adb5929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 55/63] fix: line ends of modules without a code section
 weren't normalized, unlike those with one

---
 src/source_code/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/source_code/mod.rs b/src/source_code/mod.rs
index 21d04eb..7e9d921 100644
--- a/src/source_code/mod.rs
+++ b/src/source_code/mod.rs
@@ -64,7 +64,8 @@ impl SourceCode {
                 lines: csv_lines,
                 length_of_code_section: 0,
                 length_of_csv_section: csv_lines,
-                csv_section: str_input.clone(),
+                // just like the lines above, which don't include their line endings
+                csv_section: str_input.replace("\r\n", "\n"),
                 code_section: None,
                 original: str_input.clone(),
             }
-- 
2.43.0


From 31929305d2da9926eb65fa1521917b5f390c2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 56/63] fix: Excel files with control characters in them
 couldn't be read

XML can't have them, they have to be written as _xHHHH_.  And texts which look like one of these
have to be escaped too.
---
 src/target/excel/mod.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 73f2171..4deecb8 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -22,6 +22,29 @@ pub(crate) struct Excel<'a> {
     compiler: &'a Compiler,
 }
 
+/// Does it start with something that would be read as an escaped character, like `_x000D_`?
+fn starts_with_escape(text: &str) -> bool {
+    let b = text.as_bytes();
+    b.len() > 6 && b.starts_with(b"_x") && b[2..6].iter().all(u8::is_ascii_hexdigit) && b[6] == b'_'
+}
+
+/// Excel files are XML, which most control characters can not be a part of.  They're escaped as
+/// `_xHHHH_`, and so is the `_` of what would otherwise be mistaken for one of these.
+fn escape(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for (index, c) in text.char_indices() {
+        match c {
+            '\t' | '\n' => escaped.push(c),
+            '\0'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => {
+                escaped.push_str(&format!("_x{:04X}_", u32::from(c)));
+            }
+            '_' if starts_with_escape(&text[index..]) => escaped.push_str("_x005F_"),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 impl<'a> Excel<'a> {
     pub(crate) fn new<P: Into<path::PathBuf>>(compiler: &'a Compiler, path: P) -> Self {
         Self {
@@ -103,7 +126,7 @@ impl<'a> Excel<'a> {
         comment.set_author("csvpp");
 
         let rt = comment.get_text_mut();
-        rt.set_text(note);
+        rt.set_text(escape(note));
 
         let coord = comment.get_coordinate_mut();
         // the coordinates of comments start at 1
@@ -128,7 +151,7 @@ impl<'a> Excel<'a> {
         if let Some(ast) = &cell.ast {
             match ast.clone().into_inner() {
                 Node::Boolean(b) => existing_cell.set_value_bool(b),
-                Node::Text(t) => existing_cell.set_value_string(t),
+                Node::Text(t) => existing_cell.set_value_string(escape(&t)),
                 Node::Float {
                     value,
                     percentage,
@@ -140,10 +163,10 @@ impl<'a> Excel<'a> {
                     percentage,
                     sign: None,
                 } if !percentage => existing_cell.set_value_number(value as f64),
-                _ => existing_cell.set_formula(ast.to_string()),
+                _ => existing_cell.set_formula(escape(&ast.to_string())),
             };
         } else if !cell.parsed_value.is_empty() {
-            existing_cell.set_value_string(cell.parsed_value.clone());
+            existing_cell.set_value_string(escape(&cell.parsed_value));
         }
     }
 
-- 
2.43.0


From ce1aa53cb799b91febab3895a180800b324339db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:31 +0000
Subject: [PATCH 57/63] fix: which of the errors in several cells is reported
 was up to the timing of threads

---
 src/module/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5ed77f8..7220429 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -54,6 +54,10 @@ impl Module {
             .into_par_iter()
             .enumerate()
             .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
+            // if there are several errors it's always the first one that is reported, not whichever
+            // was found first
+            .collect::<Vec<_>>()
+            .into_iter()
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Self {
-- 
2.43.0


From 2cebe6e7ae672a6a7a3bb8bbeed685ca0db8d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 58/63] fix: errors of modules were in a different order each
 time

---
 src/error/display.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error/display.rs b/src/error/display.rs
index 2941bdd..c6a7455 100644
--- a/src/error/display.rs
+++ b/src/error/display.rs
@@ -74,6 +74,9 @@ csv++ with `GOOGLE_APPLICATION_CREDENTIALS` or the `--google-account-credentials
             }
 
             Self::ModuleLoadErrors(errors) => {
+                let mut errors = errors.iter().collect::<Vec<_>>();
+                errors.sort_by_key(|(m, _)| *m);
+
                 for (m, e) in errors {
                     writeln!(f, "Error loading module {m}")?;
                     writeln!(f, "{e}")?;
-- 
2.43.0


From 87f549c44b66a31af84813a7a50604d9c92378af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 59/63] fix: which error in several definitions of a module is
 reported was up to the order of a hash map

---
 src/module_loader/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 31dbb84..db57688 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -36,10 +36,13 @@ macro_rules! eval_ast {
     ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
         // each of them is evaluated against what was defined, not against what was evaluated so far
         let defined = $scope.clone();
-        for (name, ast) in defined.$functions_or_variables.clone().into_iter() {
+        // by name, so that if there are several errors it's always the same one that is reported
+        let by_name = collections::BTreeMap::from_iter(&defined.$functions_or_variables);
+        for (name, ast) in by_name {
             $scope.$functions_or_variables.insert(
-                name,
-                ast.eval(&defined, None)
+                name.clone(),
+                ast.clone()
+                    .eval(&defined, None)
                     .map_err(|e| $source_code.eval_error(e, None))?,
             );
         }
-- 
2.43.0


From 2c58b0a918064953a306a5987bb67da612ca0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:28 +0000
Subject: [PATCH 60/63] fix: ranges with non-ASCII, empty or very long columns
 panicked in in_range

---
 src/parser/cell_parser/validate.rs | 44 ++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 396b08b..bbdf65b 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -27,6 +27,45 @@ macro_rules! validate {
     };
 }
 
+/// `a1` takes for granted that its input is ASCII, and that columns are neither empty nor so large
+/// that they overflow.
+fn parse_a1(input: &str) -> Result<a1::A1, String> {
+    let (sheet_name, reference) = match input.rsplit_once('!') {
+        Some((sheet_name, reference)) => (Some(sheet_name), reference),
+        None => (None, input),
+    };
+
+    let is_row_range = reference.contains(':')
+        && reference
+            .chars()
+            .all(|ch| ch.is_ascii_digit() || ch == '$' || ch == ':');
+    let has_valid_columns = reference.split(':').all(|part| {
+        let column = part.strip_prefix('$').unwrap_or(part);
+        let letters = column.chars().take_while(char::is_ascii_alphabetic);
+        (1..=3).contains(&letters.count())
+    });
+
+    if !reference.is_ascii() {
+        return Err(format!("Invalid character in A1 notation: {reference}"));
+    } else if !is_row_range && !has_valid_columns {
+        return Err(format!("Invalid column in A1 notation: {reference}"));
+    }
+
+    match sheet_name {
+        // take its name literally rather than having it parsed
+        Some(sheet_name) if !sheet_name.is_ascii() => {
+            let sheet_name = sheet_name
+                .strip_prefix('\'')
+                .and_then(|s| s.strip_suffix('\''))
+                .map_or_else(|| sheet_name.to_owned(), |s| s.replace("''", "'"));
+
+            a1::new(reference).map(|a1| a1.with_sheet_name(&sheet_name))
+        }
+        _ => a1::new(input),
+    }
+    .map_err(|e| e.to_string())
+}
+
 impl CellParser<'_, '_> {
     pub(super) fn validate(&mut self) -> ParseResult<()> {
         let name = self.lexer.take_option_right_side()?;
@@ -261,9 +300,8 @@ impl CellParser<'_, '_> {
         take_parens!(self, {
             let a1_match = self.lexer.take_token(Token::A1)?;
             DataValidation::ValueInRange(
-                a1::new(&a1_match.str_match).map_err(|e| {
-                    a1_match.into_parse_error(format!("Expected an A1 reference: {e}"))
-                })?,
+                parse_a1(&a1_match.str_match)
+                    .map_err(|e| a1_match.into_parse_error(format!("Expected an A1 reference: {e}")))?,
             )
         })
     });
-- 
2.43.0


From c5c2822aae4666683632d21d7378b345dbb92c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 61/63] fix: object code was used although its source was
 replaced by an older file or edited while it was compiled

---
 src/module/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 7220429..ade8443 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -268,6 +268,15 @@ impl Module {
             return Ok(());
         }
 
+        // an older file can have taken the place of the source, or it was edited while it was being
+        // compiled, so being more recent doesn't mean that it was compiled from what's there now
+        let source_code = fs::read(&self.source_code.filename).ok();
+        if source_code.as_deref() != Some(self.source_code.original.as_bytes()) {
+            self.is_dirty = true;
+            self.needs_eval = true;
+            return Ok(());
+        }
+
         let current_version = env!("CARGO_PKG_VERSION");
         let this_version = match semver::Version::parse(current_version) {
             Ok(v) => v,
-- 
2.43.0


From 19f9782a87926ee44629b40e07eac203d4d604bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:28 +0000
Subject: [PATCH 62/63] fix: quotes in the texts of validations were not
 escaped in Excel formulas

---
 src/target/excel/cell_validation.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index c31a3f0..eb37b17 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,3 +1,4 @@
+use crate::ast::Node;
 use crate::cell_options::DataValidation;
 use crate::DateTime;
 use umya_spreadsheet as u;
@@ -39,6 +40,11 @@ fn excel_date(date: &DateTime) -> i64 {
     }
 }
 
+/// Quotes in a string literal of an Excel formula are doubled
+fn escape_quotes(text: &str) -> String {
+    text.replace('"', "\"\"")
+}
+
 macro_rules! date_validation {
     ($v:ident, $op:ident, $formula1:ident, $prompt:expr) => {
         validation!($v, Date, $op, excel_date(&$formula1), $prompt)
@@ -180,17 +186,20 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::TextContains(t) => {
-                let f = format!("=ISNUMBER(SEARCH(\"{t}\", {position}))");
+                let f = format!("=ISNUMBER(SEARCH(\"{}\", {position}))", escape_quotes(&t));
                 custom_validation!(v, Custom, f, format!("Text contains \"{t}\""))
             }
 
             DataValidation::TextDoesNotContain(t) => {
-                let f = format!("=NOT(ISNUMBER(SEARCH(\"{t}\", {position})))");
+                let f = format!(
+                    "=NOT(ISNUMBER(SEARCH(\"{}\", {position})))",
+                    escape_quotes(&t)
+                );
                 custom_validation!(v, Custom, f, format!("Text does not contain \"{t}\""))
             }
 
             DataValidation::TextEqualTo(t) => {
-                let f = format!("{position} = \"{t}\"");
+                let f = format!("{position} = \"{}\"", escape_quotes(&t));
                 custom_validation!(v, Custom, f, format!("Text equal to \"{t}\""))
             }
 
@@ -211,7 +220,10 @@ impl From<CellValidation> for u::DataValidation {
                     "\"{}\"",
                     &values
                         .into_iter()
-                        .map(|v| v.to_string().replace('"', ""))
+                        .map(|v| match v.into_inner() {
+                            Node::Text(t) => escape_quotes(&t),
+                            n => n.to_string(),
+                        })
                         .collect::<Vec<String>>()
                         .join(", ")
                 );
-- 
2.43.0


From d1ddf93f0af633790338138371273d6377360c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:28 +0000
Subject: [PATCH 63/63] fix: single-quoted values of in_list were unquoted a
 second time

---
 src/parser/cell_lexer/token_match.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/cell_lexer/token_match.rs b/src/parser/cell_lexer/token_match.rs
index b926d7c..a18fa94 100644
--- a/src/parser/cell_lexer/token_match.rs
+++ b/src/parser/cell_lexer/token_match.rs
@@ -71,7 +71,8 @@ impl TryFrom<TokenMatch> for Ast {
         Ok(Ast::new(match tm.token {
             Token::Date => Node::DateTime(DateTime::try_from(tm)?),
             Token::A1 | Token::Identifier => Node::Reference(tm.str_match),
-            Token::String => Node::parse_text(tm)?,
+            // (the single quotes were already taken off by the lexer)
+            Token::String => Node::Text(tm.str_match),
             Token::Number | Token::PositiveNumber => {
                 if tm.str_match.contains('.') {
                     tm.into_float()?.into()
-- 
2.43.0

