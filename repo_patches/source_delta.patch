From 02d1050f2da4c5a35400f1a04854d541bf939a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 01/18] fix: do not lose hits of entries sharing a location
 when merging coverage

---
 packages/istanbul-oxide/src/file_coverage.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..09f757d 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -31,7 +31,18 @@ fn merge_properties_hits_vec(
             .expect("Corresponding map value should exist");
         let item_key = get_item_key_fn(item);
 
-        items.insert(item_key, (item_hits.clone(), item.clone()));
+        items
+            .entry(item_key)
+            .and_modify(|pair| {
+                if pair.0.len() < item_hits.len() {
+                    pair.0.resize(item_hits.len(), 0);
+                }
+
+                for (h, hits) in item_hits.iter().enumerate() {
+                    pair.0[h] += hits;
+                }
+            })
+            .or_insert((item_hits.clone(), item.clone()));
     }
 
     for (key, item_hits) in second_hits {
@@ -83,7 +94,12 @@ where
             .expect("Corresponding map value should exist");
         let item_key = get_item_key_fn(item);
 
-        items.insert(item_key, (*item_hits, item.clone()));
+        items
+            .entry(item_key)
+            .and_modify(|pair| {
+                pair.0 += *item_hits;
+            })
+            .or_insert((*item_hits, item.clone()));
     }
 
     for (key, item_hits) in second_hits {
-- 
2.43.0


From a267e8e2625e88b737e83044510cbb3e193f1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 02/18] fix: keep branch truthiness hits aligned with branch
 ids when merging coverage

---
 packages/istanbul-oxide/src/file_coverage.rs | 72 ++++++++++++++++----
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 09f757d..9a56065 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -76,6 +76,34 @@ fn merge_properties_hits_vec(
     (hits, map)
 }
 
+/// Re-keys `hits` by the ids of the branches in `target_map`, matching branches by its item key.
+fn align_hits_vec(
+    hits: &BranchHitMap,
+    map: &BranchMap,
+    target_map: &BranchMap,
+    get_item_key_fn: for<'r> fn(&'r Branch) -> String,
+) -> BranchHitMap {
+    let mut items: IndexMap<String, Vec<u32>> = Default::default();
+
+    for (key, item_hits) in hits {
+        let item = map
+            .get(key)
+            .expect("Corresponding map value should exist");
+
+        items.insert(get_item_key_fn(item), item_hits.clone());
+    }
+
+    let mut ret: BranchHitMap = Default::default();
+
+    for (key, item) in target_map {
+        if let Some(item_hits) = items.get(&get_item_key_fn(item)) {
+            ret.insert(*key, item_hits.clone());
+        }
+    }
+
+    ret
+}
+
 fn merge_properties<T>(
     first_hits: &LineHitMap,
     first_map: &IndexMap<u32, T>,
@@ -304,6 +332,28 @@ impl FileCoverage {
         self.f = fn_hits_merged;
         self.fn_map = fn_map_merged;
 
+        // Tracking additional information about branch truthiness
+        // can be optionally enabled. Its hits refer to the ids of the branches before merge,
+        // so it should be merged before the branch map is replaced.
+        let branches_true_merged = if let Some(branches_true) = &self.b_t {
+            let empty: BranchHitMap = Default::default();
+            let coverage_branches_true = if let Some(value) = &coverage.b_t {
+                value
+            } else {
+                &empty
+            };
+
+            Some(merge_properties_hits_vec(
+                branches_true,
+                &self.branch_map,
+                coverage_branches_true,
+                &coverage.branch_map,
+                |branch: &Branch| key_from_loc(&branch.locations[0]),
+            ))
+        } else {
+            None
+        };
+
         let (branches_hits_merged, branches_map_merged) = merge_properties_hits_vec(
             &self.b,
             &self.branch_map,
@@ -314,20 +364,14 @@ impl FileCoverage {
         self.b = branches_hits_merged;
         self.branch_map = branches_map_merged;
 
-        // Tracking additional information about branch truthiness
-        // can be optionally enabled:
-        if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
-                );
-
-                self.b_t = Some(branches_true_hits_merged);
-            }
+        if let Some((branches_true_hits, branches_true_map)) = branches_true_merged {
+            // Not all of the branches track truthiness, align ids to the merged branch map.
+            self.b_t = Some(align_hits_vec(
+                &branches_true_hits,
+                &branches_true_map,
+                &self.branch_map,
+                |branch: &Branch| key_from_loc(&branch.locations[0]),
+            ));
         }
     }
 
-- 
2.43.0


From 1a145a38f0944581eec8b9cbc37e481b8c3c42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 03/18] verif: cfg(vx_verif) read access to private items

---
 packages/istanbul-oxide/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/packages/istanbul-oxide/src/lib.rs b/packages/istanbul-oxide/src/lib.rs
index 4d4e998..1ae82a5 100644
--- a/packages/istanbul-oxide/src/lib.rs
+++ b/packages/istanbul-oxide/src/lib.rs
@@ -14,3 +14,24 @@ use percent::*;
 pub use range::*;
 pub use source_map::SourceMap;
 pub use types::*;
+
+#[cfg(vx_verif)]
+pub mod vx_hooks {
+    //! Read access to private items for the verification harness.
+    pub use crate::coverage::Coverage;
+    pub use crate::coverage_summary::{CoveragePercentage, CoverageSummary, Totals};
+    pub use crate::percent::percent;
+
+    /// lines, statements, functions, branches, branches_true
+    pub fn summary_totals(
+        summary: &CoverageSummary,
+    ) -> (Totals, Totals, Totals, Totals, Option<Totals>) {
+        (
+            summary.lines,
+            summary.statements,
+            summary.functions,
+            summary.branches,
+            summary.branches_true,
+        )
+    }
+}
-- 
2.43.0


From c117a757fb08ea9a13fda2311e0a8130fdd03cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 04/18] fix: keep counts when the same instrumented file is
 loaded again

The template compared coverage[path].$hash, which no coverage object has
(quote! does not substitute property names), so every load replaced the
coverage collected so far with zeroes.
---
 .../src/coverage_template/create_coverage_fn_decl.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..ad6f432 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -101,7 +101,7 @@ pub fn create_coverage_fn_decl<C: Clone + Comments>(
 
     stmts.push(quote!(
         r#"
-if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
+if (!$coverage[$path] || $coverage[$path].hash !== $hash) {
   $coverage[$path] = $coverage_data;
 }
 "# as Stmt,
-- 
2.43.0


From 0327562ad9a1fe9c6d35da394ab7d2ecf2737472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 05/18] fix: default arguments do not use truthy counters with
 reportLogic

With reportLogic a default argument without a logical expression was wrapped
with a bT counter, but its branch has no bT entry: the instrumented program
threw a TypeError as soon as the default was evaluated.
---
 .../src/macros/instrumentation_visitor.rs             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..18ce7c5 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -898,7 +898,16 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+                    // Default arguments do not have truthy counters: this is a single branch path,
+                    // any logical expr inside of it creates its own branch.
+                    let right_hint = crate::hint_comments::should_ignore(
+                        &self.comments,
+                        Some(&assign_pat.right.span()),
+                    );
+                    if right_hint != Some(crate::hint_comments::IgnoreScope::Next) {
+                        assign_pat.right.visit_mut_with(self);
+                        self.replace_expr_with_branch_counter(&mut *assign_pat.right, branch);
+                    }
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 4e4499d9448064eaa637af91652171dc354449c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 06/18] fix: restore visitor state after logical expressions

The logical arms never called on_exit, so stale nodes stayed on the node stack
and the hint scope leaked: counters of later statements were dropped, e.g.
`a || b; const f = () => 1;` lost the counter of f.
---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 .../swc-coverage-instrument/src/visitors/logical_expr_visitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 18ce7c5..0f1274b 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -869,6 +869,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
index 53fea27..a058147 100644
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
@@ -51,6 +51,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S>
                         // This does not create new branch counter - should use parent's index instead.
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
+                        self.on_exit(old);
                     }
                     _ => {
                         // iterate as normal for non loigical expr
-- 
2.43.0


From d12408f6d73ac19bcba2beaad64bf7bb61846d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 07/18] fix: honor ignore hints on export const declarations

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..26966c3 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -156,7 +156,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
                 }
             }
 
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -168,7 +168,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From cd9e83ae6270d0bdbe2e317c510c0ca643cc813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 08/18] fix: keep counters raised inside of a switch statement
 head

Counters prepended by the switch visitor (e.g. for a tagged template in the
discriminant) were dropped: the entry existed but nothing ever counted it.
---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 0f1274b..a3043e6 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -719,6 +719,7 @@ macro_rules! instrumentation_visitor {
                     );
 
                     switch_stmt.visit_mut_children_with(&mut visitor);
+                    self.before.extend(visitor.before.drain(..));
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From fe6d0adeb12d42135d67d84610ad333eae018280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 09/18] fix: do not panic on functions without a body

Overload signatures, abstract methods and declare function have no body, the
visitor hit unimplemented!() for them.
---
 .../src/macros/instrumentation_counter_helper.rs            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..616e90c 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -166,6 +166,12 @@ macro_rules! instrumentation_counter_helper {
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
+            // Overload signatures, abstract methods or `declare function` never run, there is
+            // nothing to count.
+            if function.body.is_none() {
+                return;
+            }
+
             let (span, name) = if let Some(ident) = &ident {
                 (&ident.span, Some(ident.sym.to_string()))
             } else {
-- 
2.43.0


From 46f7da777effee5963dcaa2ccf5abf214df12870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 10/18] fix: do not insert coverage template into namespace
 bodies

The template of a namespace body was created before the rest of the file was
visited: its data replaced the coverage data of the file at runtime, and counts
of the file were lost.
---
 .../src/visitors/coverage_visitor.rs            | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 26966c3..2b1ac29 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -136,10 +136,14 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             _ => false,
         };
 
+        // Namespace body is list of the module items as well, but only root of the file can have
+        // coverage template: otherwise namespace replaces coverage data of the file.
+        let is_namespace = self.nodes.last() == Some(&crate::Node::ModuleItems);
+
         // Articulate root by injecting Program node if visut_mut_program is not called.
         // TODO: Need to figure out why custom_js_pass doesn't hit visit_mut_program
         // instead of manually injecting node here
-        if !root_exists {
+        if !root_exists && !is_namespace {
             let mut new_nodes = vec![crate::Node::Program];
             new_nodes.extend(self.nodes.drain(..));
             self.nodes = new_nodes;
@@ -184,6 +188,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         *items = new_items;
 
+        if is_namespace {
+            return;
+        }
+
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
@@ -221,6 +229,13 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         items.body.insert(1, call_coverage_template_stmt);
     }
 
+    #[instrument(skip_all, fields(node = %self.print_node()))]
+    fn visit_mut_ts_module_block(&mut self, block: &mut TsModuleBlock) {
+        self.nodes.push(crate::Node::ModuleItems);
+        block.visit_mut_children_with(self);
+        self.nodes.pop();
+    }
+
     // ExportDefaultDeclaration: entries(), // ignore processing only
     #[instrument(skip_all, fields(node = %self.print_node()))]
     fn visit_mut_export_default_decl(&mut self, export_default_decl: &mut ExportDefaultDecl) {
-- 
2.43.0


From f7ccb67ca7ef3004755818eab952611bc904d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 11/18] fix: name coverage functions after the file being
 instrumented

The identifier was kept in a process wide OnceCell: every file instrumented by
a process after the first one reused the name made for the first file, so the
output depended on what was instrumented before and coverage functions of two
scripts sharing a global scope replaced each other.
---
 .../create_coverage_fn_decl.rs                | 31 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  7 +++--
 .../src/visitors/coverage_visitor.rs          |  3 --
 3 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index ad6f432..75a1902 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,23 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create a unique ident for the injected coverage counter fn, and a temporal ident
+/// being used for b_t true counter.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
-/// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+/// create_instrumentation_visitor macro should inject this into a struct accordingly.
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
-        Ident::new(
-            format!("{}_temp", var_name_hash).into(),
-            DUMMY_SP,
-            Default::default(),
-        )
-    });
+    let temp_ident = Ident::new(
+        format!("{}_temp", var_name_hash).into(),
+        DUMMY_SP,
+        Default::default(),
+    );
+    let fn_ident = Ident::new(var_name_hash.into(), DUMMY_SP, Default::default());
+
+    (fn_ident, temp_ident)
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..a87b1a8 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,15 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                // Idents belong to the file being instrumented.
+                let (cov_fn_ident, cov_fn_temp_ident) = crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident: cov_fn_ident,
+                    cov_fn_temp_ident: cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 2b1ac29..bb96d1e 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -23,9 +23,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From e51949122584781d6d64fd210de520a88d354a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 12/18] fix: keep directives at the top of scripts and
 functions

Counters and the coverage template were inserted before directives: the
directive was not in effect anymore, i.e. 'use strict' functions and scripts
were executed in sloppy mode.
---
 packages/swc-coverage-instrument/src/lib.rs   |  1 +
 .../macros/instrumentation_counter_helper.rs  | 13 +--
 .../src/macros/instrumentation_visitor.rs     | 80 +++++++++----------
 .../src/utils/directives.rs                   | 17 ++++
 .../swc-coverage-instrument/src/utils/mod.rs  |  1 +
 .../src/visitors/coverage_visitor.rs          | 12 +--
 6 files changed, 73 insertions(+), 51 deletions(-)
 create mode 100644 packages/swc-coverage-instrument/src/utils/directives.rs

diff --git a/packages/swc-coverage-instrument/src/lib.rs b/packages/swc-coverage-instrument/src/lib.rs
index 96edb57..7a60b65 100644
--- a/packages/swc-coverage-instrument/src/lib.rs
+++ b/packages/swc-coverage-instrument/src/lib.rs
@@ -23,6 +23,7 @@ mod options;
 pub use options::instrument_options::*;
 
 mod utils;
+use utils::directives;
 use utils::hint_comments;
 use utils::lookup_range;
 pub use utils::node::Node;
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 616e90c..89ff9c3 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -200,12 +200,13 @@ macro_rules! instrumentation_counter_helper {
                         &self.cov_fn_ident,
                         None,
                     );
-                    let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                        span: swc_core::common::DUMMY_SP,
-                        expr: Box::new(b),
-                    })];
-                    prepended_vec.extend(blockstmt.stmts.take());
-                    blockstmt.stmts = prepended_vec;
+                    crate::directives::insert_after_directives(
+                        &mut blockstmt.stmts,
+                        Stmt::Expr(ExprStmt {
+                            span: swc_core::common::DUMMY_SP,
+                            expr: Box::new(b),
+                        }),
+                    );
                 }
                 _ => {
                     unimplemented!("Unable to process function body node type")
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index a3043e6..3106114 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1,5 +1,3 @@
-pub(crate) const DIRECTIVES: &[&str] = &["use strict", "use asm", "use strong"];
-
 /// Generate common visitors to visit stmt.
 #[macro_export]
 macro_rules! instrumentation_visitor {
@@ -61,15 +59,16 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
-                        // insert fn counter expression
-                        let mut new_stmts = vec![Stmt::Expr(ExprStmt {
-                            span: swc_core::common::DUMMY_SP,
-                            expr: Box::new(b),
-                        })];
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
-                        new_stmts.extend(block_stmt.stmts.drain(..));
-                        block_stmt.stmts = new_stmts;
+                        // insert fn counter expression
+                        crate::directives::insert_after_directives(
+                            &mut block_stmt.stmts,
+                            Stmt::Expr(ExprStmt {
+                                span: swc_core::common::DUMMY_SP,
+                                expr: Box::new(b),
+                            }),
+                        );
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -182,13 +181,10 @@ macro_rules! instrumentation_visitor {
         fn visit_mut_expr_stmt(&mut self, expr_stmt: &mut ExprStmt) {
             let (old, ignore_current) = self.on_enter(expr_stmt);
 
-            if let Expr::Lit(Lit::Str(Str { value, .. })) = expr_stmt.expr.as_ref() {
-                let value: &str = &*value;
-
-                if crate::macros::instrumentation_visitor::DIRECTIVES.contains(&value) {
-                    self.on_exit(old);
-                    return;
-                }
+            // Do not create counter for directives, same as the root of the module.
+            if let Expr::Lit(Lit::Str(..)) = expr_stmt.expr.as_ref() {
+                self.on_exit(old);
+                return;
             }
 
             match ignore_current {
@@ -470,12 +466,13 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                crate::directives::insert_after_directives(
+                                    &mut body.stmts,
+                                    Stmt::Expr(ExprStmt {
+                                        span: swc_core::common::DUMMY_SP,
+                                        expr: Box::new(b),
+                                    }),
+                                );
                             }
                             getter_prop.visit_mut_children_with(self);
                         }
@@ -502,12 +499,13 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            crate::directives::insert_after_directives(
+                                &mut body.stmts,
+                                Stmt::Expr(ExprStmt {
+                                    span: swc_core::common::DUMMY_SP,
+                                    expr: Box::new(b),
+                                }),
+                            );
                         }
                         getter_prop.visit_mut_children_with(self);
                     }
@@ -556,12 +554,13 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                crate::directives::insert_after_directives(
+                                    &mut body.stmts,
+                                    Stmt::Expr(ExprStmt {
+                                        span: swc_core::common::DUMMY_SP,
+                                        expr: Box::new(b),
+                                    }),
+                                );
                             }
                             setter_prop.visit_mut_children_with(self);
                         }
@@ -588,12 +587,13 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            crate::directives::insert_after_directives(
+                                &mut body.stmts,
+                                Stmt::Expr(ExprStmt {
+                                    span: swc_core::common::DUMMY_SP,
+                                    expr: Box::new(b),
+                                }),
+                            );
                         }
                         setter_prop.visit_mut_children_with(self);
                     }
diff --git a/packages/swc-coverage-instrument/src/utils/directives.rs b/packages/swc-coverage-instrument/src/utils/directives.rs
new file mode 100644
index 0000000..439d930
--- /dev/null
+++ b/packages/swc-coverage-instrument/src/utils/directives.rs
@@ -0,0 +1,17 @@
+use swc_core::ecma::utils::IsDirective;
+
+/// Count directives at the top of the given stmts.
+pub fn count_directives<T: IsDirective>(stmts: &[T]) -> usize {
+    let mut index = 0;
+    while index < stmts.len() && stmts[index].directive_continue() {
+        index += 1;
+    }
+    index
+}
+
+/// Insert a stmt to the top of given stmts, but below of the directives:
+/// directives are in effect only if nothing else precedes.
+pub fn insert_after_directives<T: IsDirective>(stmts: &mut Vec<T>, stmt: T) {
+    let index = count_directives(stmts);
+    stmts.insert(index, stmt);
+}
diff --git a/packages/swc-coverage-instrument/src/utils/mod.rs b/packages/swc-coverage-instrument/src/utils/mod.rs
index c0b51ba..fa218ef 100644
--- a/packages/swc-coverage-instrument/src/utils/mod.rs
+++ b/packages/swc-coverage-instrument/src/utils/mod.rs
@@ -1,3 +1,4 @@
+pub mod directives;
 pub mod hint_comments;
 pub mod lookup_range;
 pub mod node;
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index bb96d1e..93da70f 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -193,8 +193,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
+            let index = std::cmp::max(crate::directives::count_directives(items), 1);
+            items.insert(index, ModuleItem::Stmt(coverage_template));
+            items.insert(index + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
             items.push(ModuleItem::Stmt(coverage_template));
             items.push(ModuleItem::Stmt(call_coverage_template_stmt));
@@ -221,9 +222,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
-        // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        // prepend template to the top of the code, below of the directives
+        let index = crate::directives::count_directives(&items.body);
+        items.body.insert(index, coverage_template);
+        items.body.insert(index + 1, call_coverage_template_stmt);
     }
 
     #[instrument(skip_all, fields(node = %self.print_node()))]
-- 
2.43.0


From 36421f669a7ff39af0815c6720486fed9ebc86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 13/18] fix: count declarations initialised with an arrow or a
 class in every block

---
 .../macros/instrumentation_counter_helper.rs  | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 89ff9c3..6f784f8 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -280,7 +280,8 @@ macro_rules! instrumentation_counter_helper {
             expr.visit_with(&mut hoist);
             let parent = self.nodes.last().unwrap().clone();
             if hoist.0 && parent == crate::Node::VarDeclarator {
-                // TODO: need to polish logic to determine prepending instead of traversing parent node types
+                // Parent of the declaration: there's no place to prepend counter in head of the loop,
+                // any other declaration is in the list of the statements.
                 let nodes_len = self.nodes.len();
                 let parent_index = if nodes_len >= (3 as usize) {
                     nodes_len - 3
@@ -289,24 +290,15 @@ macro_rules! instrumentation_counter_helper {
                 };
                 let parent = self.nodes.get(parent_index);
 
-                if parent.is_some() {
-                    let parent_index = if nodes_len >= (4 as usize) {
-                        nodes_len - 4
-                    } else {
-                        0
-                    };
-                    let parent = self.nodes.get(parent_index);
-
-                    if let Some(parent) = parent {
-                        match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
-                                self.mark_prepend_stmt_counter(&span);
-                            }
-                            _ => {}
-                        }
+                match parent {
+                    Some(
+                        crate::Node::ForStmt | crate::Node::ForInStmt | crate::Node::ForOfStmt,
+                    ) => {
+                        self.replace_expr_with_stmt_counter(expr);
+                    }
+                    _ => {
+                        self.mark_prepend_stmt_counter(&span);
                     }
-                } else {
-                    self.replace_expr_with_stmt_counter(expr);
                 }
 
                 return;
-- 
2.43.0


From 6feb461dbbceb1e76b8132f53f5c1b935ce0ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:07 +0000
Subject: [PATCH 14/18] fix: instrument class methods with a string, number or
 computed key

---
 .../src/macros/instrumentation_visitor.rs                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 3106114..73fb599 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -385,6 +385,10 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        // string, number or computed key: there's no identifier for the name
+                        self.create_fn_instrumentation(&None, &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
                     }
                 }
             }
-- 
2.43.0


From 1fb57289e0d73f5c242c905c2a573a2d52e1c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 15/18] fix: instrument default values of the params of arrow
 functions

---
 .../src/macros/instrumentation_visitor.rs                   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 73fb599..7301138 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -59,6 +59,9 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
+                        // default values of the params
+                        arrow_expr.params.visit_mut_with(self);
+
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
                         // insert fn counter expression
@@ -90,6 +93,9 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
+                        // default values of the params
+                        arrow_expr.params.visit_mut_with(self);
+
                         // insert fn counter expression
                         let mut stmts = vec![Stmt::Expr(ExprStmt {
                             span: swc_core::common::DUMMY_SP,
-- 
2.43.0


From 9f629b76eda58eb18646f7c9714ec8354f81c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 16/18] fix: report default values of nested and shorthand
 patterns

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 35 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 37 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index a87b1a8..5fcd6e7 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -191,6 +191,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
+         on_enter!(AssignPatProp);
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 7301138..a3714cf 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -910,6 +910,9 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
+                    // pattern can have default values of its own
+                    assign_pat.left.visit_mut_with(self);
+
                     // Default arguments do not have truthy counters: this is a single branch path,
                     // any logical expr inside of it creates its own branch.
                     let right_hint = crate::hint_comments::should_ignore(
@@ -925,6 +928,38 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // AssignmentPattern: entries(coverAssignmentPattern), shorthand in the object pattern
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_assign_pat_prop(&mut self, assign_pat_prop: &mut AssignPatProp) {
+            let (old, ignore_current) = self.on_enter(assign_pat_prop);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    if let Some(value) = &mut assign_pat_prop.value {
+                        let range = crate::lookup_range::get_range_from_span(
+                            &self.source_map,
+                            &assign_pat_prop.span,
+                        );
+                        let branch = self.cov.borrow_mut().new_branch(
+                            crate::BranchType::DefaultArg,
+                            &range,
+                            false,
+                        );
+
+                        let value_hint = crate::hint_comments::should_ignore(
+                            &self.comments,
+                            Some(&value.span()),
+                        );
+                        if value_hint != Some(crate::hint_comments::IgnoreScope::Next) {
+                            value.visit_mut_with(self);
+                            self.replace_expr_with_branch_counter(&mut **value, branch);
+                        }
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
         // TryStatement: entries(coverStatement),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_try_stmt(&mut self, try_stmt: &mut TryStmt) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 1790206..0699632 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -44,6 +44,7 @@ pub enum Node {
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
+    AssignPatProp,
     TaggedTpl,
 }
 
-- 
2.43.0


From cddc34be42c9ced67b5101159709ffafb70daded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:00 +0000
Subject: [PATCH 17/18] fix: count constructors of classes

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 51 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 53 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 5fcd6e7..244e11e 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -173,6 +173,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ClassProp);
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
+         on_enter!(Constructor);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
          on_enter!(ForOfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index a3714cf..4ee0101 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -401,6 +401,57 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // ClassMethod: entries(coverFunction), constructor has node of its own
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_constructor(&mut self, constructor: &mut Constructor) {
+            let (old, ignore_current) = self.on_enter(constructor);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let should_ignore_via_options = self
+                        .instrument_options
+                        .ignore_class_methods
+                        .iter()
+                        .any(|v| v.as_str() == "constructor");
+
+                    if !should_ignore_via_options {
+                        if let Some(body) = &mut constructor.body {
+                            let name: Option<String> = Some("constructor".to_owned());
+                            let range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &constructor.key.span(),
+                            );
+                            let body_span = body.span;
+                            let body_range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &body_span,
+                            );
+                            let index =
+                                self.cov
+                                    .borrow_mut()
+                                    .new_function(&name, &range, &body_range);
+
+                            let b = crate::create_increase_counter_expr(
+                                &crate::constants::idents::IDENT_F,
+                                index,
+                                &self.cov_fn_ident,
+                                None,
+                            );
+                            crate::directives::insert_after_directives(
+                                &mut body.stmts,
+                                Stmt::Expr(ExprStmt {
+                                    span: swc_core::common::DUMMY_SP,
+                                    expr: Box::new(b),
+                                }),
+                            );
+                        }
+                        constructor.visit_mut_children_with(self);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
         // ObjectMethod: entries(coverFunction),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_method_prop(&mut self, method_prop: &mut MethodProp) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 0699632..5105ed6 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -40,6 +40,7 @@ pub enum Node {
     ClassProp,
     ClassDecl,
     ClassMethod,
+    Constructor,
     ExportDecl,
     ExportDefaultDecl,
     BlockStmt,
-- 
2.43.0


From 2d7fb3dcace8e6f58d9daf03f952b1da118aea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 18/18] fix: count private methods of classes

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 19 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 21 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 244e11e..349aa29 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -174,6 +174,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
          on_enter!(Constructor);
+         on_enter!(PrivateMethod);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
          on_enter!(ForOfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 4ee0101..876b28d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -452,6 +452,25 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // ClassPrivateMethod: entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
+            let (old, ignore_current) = self.on_enter(private_method);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let ident = Ident {
+                        span: private_method.key.span,
+                        sym: format!("#{}", private_method.key.name).into(),
+                        ..Ident::dummy()
+                    };
+                    self.create_fn_instrumentation(&Some(&ident), &mut private_method.function);
+                    private_method.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
         // ObjectMethod: entries(coverFunction),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_method_prop(&mut self, method_prop: &mut MethodProp) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 5105ed6..d7e8f92 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -41,6 +41,7 @@ pub enum Node {
     ClassDecl,
     ClassMethod,
     Constructor,
+    PrivateMethod,
     ExportDecl,
     ExportDefaultDecl,
     BlockStmt,
-- 
2.43.0

