From 03b7d437ca2d8ffec1f69e684360f8c3dbf2812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 01/29] fix: derive coverage fn ident per file instead of per
 process

---
 .../create_coverage_fn_decl.rs                | 29 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  7 +++--
 .../src/visitors/coverage_visitor.rs          |  3 --
 3 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..7c8074a 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,21 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create a unique ident for the injected coverage counter fn of given file, and
+/// temporal ident being used for its b_t true counter.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
-/// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+/// Idents are derived from the file path each time instead of being stored in a static:
+/// a single process can instrument any number of files.
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
+    let temp_name = format!("{}_temp", var_name_hash);
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
-        Ident::new(
-            format!("{}_temp", var_name_hash).into(),
-            DUMMY_SP,
-            Default::default(),
-        )
-    });
+    (
+        Ident::new(var_name_hash.into(), DUMMY_SP, Default::default()),
+        Ident::new(temp_name.into(), DUMMY_SP, Default::default()),
+    )
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..af358de 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,15 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                let (cov_fn_ident, cov_fn_temp_ident) =
+                    crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident,
+                    cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..5e892be 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -23,9 +23,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From 8241f1c6327211ac230e28f4148529d6480f1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 02/29] fix: count a tagged template once, only where it is a
 statement

---
 .../src/macros/instrumentation_counter_helper.rs     |  3 +--
 .../src/macros/instrumentation_visitor.rs            | 12 +++++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..12c7497 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -242,9 +242,8 @@ macro_rules! instrumentation_counter_helper {
                 // For tagged templates, prepend statement counter instead of wrapping
                 // This preserves the template relationship
                 let span = expr.span();
+                // Inner expressions are instrumented when caller visits its children.
                 self.mark_prepend_stmt_counter(&span);
-                // Still visit children to instrument any inner expressions
-                expr.visit_mut_children_with(self);
                 return;
             }
 
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..2e116e4 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -276,13 +276,11 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     // For tagged template expressions like styled(...)`template`,
-                    // we need to instrument the entire expression rather than wrapping
-                    // the tag part in a sequence expression, which would break the
-                    // template relationship and cause emotion to lose label information.
-
-                    // Instead of calling cover_statement on the tag (which would wrap it),
-                    // we mark to prepend a statement counter before the entire tagged template
-                    self.mark_prepend_stmt_counter(&tagged_tpl.span);
+                    // neither the expression nor its tag part is wrapped in a sequence
+                    // expression, which would break the template relationship and cause
+                    // emotion to lose label information. A tagged template is not a
+                    // statement on its own: if it is an initializer, `cover_statement`
+                    // already have marked to prepend a counter for it.
 
                     // Visit children normally to instrument any inner expressions
                     tagged_tpl.visit_mut_children_with(self);
-- 
2.43.0


From bc42a3a551a3d738303036d84603b6fdccddb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 03/29] fix: count class property initializers where they are
 evaluated

---
 .../src/macros/instrumentation_visitor.rs                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 2e116e4..e8b16bf 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -337,7 +337,9 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     if let Some(value) = &mut class_prop.value {
-                        self.cover_statement(&mut *value);
+                        // Initializer runs for each instance, cannot be hoisted to the
+                        // stmt declares class.
+                        self.replace_expr_with_stmt_counter(&mut *value);
                     }
                     // Visit children to ensure arrow functions and other expressions are properly instrumented
                     class_prop.visit_mut_children_with(self);
@@ -355,7 +357,9 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     if let Some(value) = &mut private_prop.value {
-                        self.cover_statement(&mut *value);
+                        // Initializer runs for each instance, cannot be hoisted to the
+                        // stmt declares class.
+                        self.replace_expr_with_stmt_counter(&mut *value);
                     }
                     // Visit children to ensure arrow functions and other expressions are properly instrumented
                     private_prop.visit_mut_children_with(self);
-- 
2.43.0


From ea88d39791980b1c13421772cb3971e7ee268eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 04/29] fix: count initializers having a function or a class in
 any statement list

---
 .../macros/instrumentation_counter_helper.rs  | 30 +++----------------
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 .../src/visitors/coverage_visitor.rs          |  7 ++++-
 3 files changed, 11 insertions(+), 27 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 12c7497..ef61118 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -272,33 +272,11 @@ macro_rules! instrumentation_counter_helper {
             expr.visit_with(&mut hoist);
             let parent = self.nodes.last().unwrap().clone();
             if hoist.0 && parent == crate::Node::VarDeclarator {
-                // TODO: need to polish logic to determine prepending instead of traversing parent node types
+                // Hoist the counter, so that inferred function names are maintained. Those of
+                // `export const` are counted by the export declaration already.
                 let nodes_len = self.nodes.len();
-                let parent_index = if nodes_len >= (3 as usize) {
-                    nodes_len - 3
-                } else {
-                    0
-                };
-                let parent = self.nodes.get(parent_index);
-
-                if parent.is_some() {
-                    let parent_index = if nodes_len >= (4 as usize) {
-                        nodes_len - 4
-                    } else {
-                        0
-                    };
-                    let parent = self.nodes.get(parent_index);
-
-                    if let Some(parent) = parent {
-                        match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
-                                self.mark_prepend_stmt_counter(&span);
-                            }
-                            _ => {}
-                        }
-                    }
-                } else {
-                    self.replace_expr_with_stmt_counter(expr);
+                if nodes_len < 3 || self.nodes[nodes_len - 3] != crate::Node::ExportConstDecl {
+                    self.mark_prepend_stmt_counter(&span);
                 }
 
                 return;
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 1790206..8fdc353 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -41,6 +41,7 @@ pub enum Node {
     ClassDecl,
     ClassMethod,
     ExportDecl,
+    ExportConstDecl,
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5e892be..c09f34c 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -237,7 +237,12 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         match ignore_current {
             Some(crate::hint_comments::IgnoreScope::Next) => {}
             _ => {
-                // noop
+                if let Decl::Var(var_decl) = &export_named_decl.decl {
+                    if var_decl.kind == VarDeclKind::Const {
+                        self.nodes.pop();
+                        self.nodes.push(crate::Node::ExportConstDecl);
+                    }
+                }
                 export_named_decl.visit_mut_children_with(self);
             }
         }
-- 
2.43.0


From 2e48bd8a7eaeb25ca5c54dd5c65989dad8aaead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 05/29] fix: take only parens and logical operands into account
 for leaves of logical expression

---
 .../macros/instrumentation_counter_helper.rs  | 105 ++++++++++--------
 .../src/macros/instrumentation_visitor.rs     |   1 +
 .../src/visitors/finders.rs                   |  22 +---
 .../src/visitors/logical_expr_visitor.rs      |  65 -----------
 .../src/visitors/mod.rs                       |   1 -
 5 files changed, 59 insertions(+), 135 deletions(-)
 delete mode 100644 packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index ef61118..667a5eb 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -70,58 +70,67 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 return;
             }
 
-            // Logical expression can have inner logical expression as non-direct child
-            // (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`, logical || expr is child of ParenExpr.
-            // Try to look up if current expr is the `leaf` of whole logical expr tree.
-            let mut has_inner_logical_expr = crate::visitors::finders::LogicalExprLeafFinder(false);
-            expr.visit_with(&mut has_inner_logical_expr);
-
-            // If current expr have inner logical expr, traverse until reaches to the leaf
-            if has_inner_logical_expr.0 {
-                let mut visitor = crate::visitors::logical_expr_visitor::LogicalExprVisitor::new(
-                    self.source_map.clone(),
-                    self.comments.clone(),
-                    self.cov.clone(),
-                    self.instrument_options.clone(),
-                    self.nodes.clone(),
-                    should_ignore,
+            // Logical expression can have inner logical expression as an operand, either directly or
+            // wrapped by paren (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`. Traverse until
+            // reaches to the leaf of whole logical expr tree. Any other kind of expression is a leaf
+            // even if its children have logical expressions: those are branches on their own.
+            let mut operand = &*expr;
+            while let Expr::Paren(paren_expr) = operand {
+                operand = &*paren_expr.expr;
+            }
+            let is_logical_expr = matches!(
+                operand,
+                Expr::Bin(BinExpr {
+                    op: BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing,
+                    ..
+                })
+            );
+
+            match expr {
+                Expr::Paren(paren_expr) if is_logical_expr => {
+                    self.wrap_bin_expr_with_branch_counter(branch, &mut *paren_expr.expr);
+                    return;
+                }
+                Expr::Bin(bin_expr) if is_logical_expr => {
+                    self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
+                    self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                    return;
+                }
+                _ => {}
+            }
+
+            // Now we believe this expr is the leaf of the logical expr tree.
+            // Visit its children, then wrap it with branch counter.
+            expr.visit_mut_children_with(self);
+
+            if self.instrument_options.report_logic {
+                let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
+                let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
+
+                let increase_expr = crate::create_increase_counter_expr(
+                    &crate::constants::idents::IDENT_B,
+                    branch,
+                    &self.cov_fn_ident,
+                    Some(branch_path_index),
+                );
+                let increase_true_expr = crate::create_increase_true_expr(
                     branch,
+                    branch_path_index,
+                    &self.cov_fn_ident,
+                    &self.cov_fn_temp_ident,
+                    expr.take(),
                 );
 
-                expr.visit_mut_children_with(&mut visitor);
-            } else {
-                // Now we believe this expr is the leaf of the logical expr tree.
-                // Wrap it with branch counter.
-                if self.instrument_options.report_logic {
-                    let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
-                    let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
-
-                    let increase_expr = crate::create_increase_counter_expr(
-                        &crate::constants::idents::IDENT_B,
-                        branch,
-                        &self.cov_fn_ident,
-                        Some(branch_path_index),
-                    );
-                    let increase_true_expr = crate::create_increase_true_expr(
-                        branch,
-                        branch_path_index,
-                        &self.cov_fn_ident,
-                        &self.cov_fn_temp_ident,
-                        expr.take(),
-                    );
+                // TODO: duplicated code with replace_expr_with_counter
+                let paren_expr = Expr::Seq(SeqExpr {
+                    span: swc_core::common::DUMMY_SP,
+                    exprs: vec![Box::new(increase_expr), Box::new(increase_true_expr)],
+                });
 
-                    // TODO: duplicated code with replace_expr_with_counter
-                    let paren_expr = Expr::Seq(SeqExpr {
-                        span: swc_core::common::DUMMY_SP,
-                        exprs: vec![Box::new(increase_expr), Box::new(increase_true_expr)],
-                    });
-
-                    // replace init with increase expr + init seq
-                    *expr = paren_expr;
-                } else {
-                    expr.visit_mut_children_with(self);
-                    self.replace_expr_with_branch_counter(expr, branch);
-                }
+                // replace init with increase expr + init seq
+                *expr = paren_expr;
+            } else {
+                self.replace_expr_with_branch_counter(expr, branch);
             }
         }
     };
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index e8b16bf..8217676 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -871,6 +871,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 1924a02..8ebe7d8 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -1,6 +1,6 @@
 use swc_core::ecma::{
     ast::*,
-    visit::{Visit, VisitWith},
+    visit::Visit,
 };
 
 /// A visitor to check if counter need to be `hoisted` for certain types of nodes.
@@ -73,23 +73,3 @@ impl Visit for ExprFinder {
         self.0 = true;
     }
 }
-
-/// Traverse down given nodes to check if it's leaf of the logical expr,
-/// or have inner logical expr to recurse.
-#[derive(Debug)]
-pub struct LogicalExprLeafFinder(pub bool);
-
-impl Visit for LogicalExprLeafFinder {
-    fn visit_bin_expr(&mut self, bin_expr: &BinExpr) {
-        match &bin_expr.op {
-            BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                self.0 = true;
-                // short curcuit, we know it's not leaf
-                return;
-            }
-            _ => {}
-        }
-
-        bin_expr.visit_children_with(self);
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
deleted file mode 100644
index 53fea27..0000000
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ /dev/null
@@ -1,65 +0,0 @@
-use swc_core::{
-    common::{comments::Comments, util::take::Take, SourceMapper},
-    ecma::visit::{VisitMut, VisitMutWith, VisitWith},
-};
-use tracing::instrument;
-
-use crate::{create_instrumentation_visitor, instrumentation_branch_wrap_counter_helper};
-
-create_instrumentation_visitor!(LogicalExprVisitor { branch: u32 });
-
-/// A visitor to traverse down given logical expr's value (left / right) with existing branch idx.
-/// This is required to preserve branch id to recursively traverse logical expr's inner child.
-impl<C: Clone + Comments, S: SourceMapper> LogicalExprVisitor<C, S> {
-    instrumentation_branch_wrap_counter_helper!();
-}
-
-impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S> {
-    fn visit_mut_expr(&mut self, expr: &mut Expr) {
-        let (old, _ignore_current) = self.on_enter(expr);
-        expr.visit_mut_children_with(self);
-        self.on_exit(old);
-    }
-
-    // TODO: common logic between coveragevisitor::visit_mut_bin_expr
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_bin_expr(&mut self, bin_expr: &mut BinExpr) {
-        // We don't use self.on_enter() here since Node::LogicalExpr is a dialect of BinExpr
-        // which we can't pass directly via on_enter() macro
-        let old = self.should_ignore;
-        let ignore_current = match old {
-            Some(crate::hint_comments::IgnoreScope::Next) => old,
-            _ => {
-                self.should_ignore =
-                    crate::hint_comments::should_ignore(&self.comments, Some(&bin_expr.span));
-                self.should_ignore
-            }
-        };
-
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {
-                self.nodes.push(crate::Node::BinExpr);
-                bin_expr.visit_mut_children_with(self);
-                self.on_exit(old);
-            }
-            _ => {
-                match &bin_expr.op {
-                    BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                        self.nodes.push(crate::Node::LogicalExpr);
-
-                        // Iterate over each expr, wrap it with branch counter.
-                        // This does not create new branch counter - should use parent's index instead.
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
-                    }
-                    _ => {
-                        // iterate as normal for non loigical expr
-                        self.nodes.push(crate::Node::BinExpr);
-                        bin_expr.visit_mut_children_with(self);
-                        self.on_exit(old);
-                    }
-                }
-            }
-        }
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/mod.rs b/packages/swc-coverage-instrument/src/visitors/mod.rs
index 60c3257..601504a 100644
--- a/packages/swc-coverage-instrument/src/visitors/mod.rs
+++ b/packages/swc-coverage-instrument/src/visitors/mod.rs
@@ -1,5 +1,4 @@
 pub mod coverage_visitor;
 pub mod finders;
-pub mod logical_expr_visitor;
 pub mod stmt_like_visitor;
 pub mod switch_case_visitor;
-- 
2.43.0


From dac90e9677fc0588045943c800a0fc69f0282107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 06/29] fix: count default values of patterns as a single
 branch path, including shorthand properties

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../macros/instrumentation_counter_helper.rs  | 13 +++++++++
 .../src/macros/instrumentation_visitor.rs     | 28 ++++++++++++++++++-
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index af358de..74c1485 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -191,6 +191,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
+         on_enter!(AssignPatProp);
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 667a5eb..0dc3ced 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -216,6 +216,19 @@ macro_rules! instrumentation_counter_helper {
             }
         }
 
+        /// Wrap default value of the assignment pattern with its branch counter. Unlike logical
+        /// expression there is only a single path, which does not have truthy counter.
+        #[tracing::instrument(skip_all)]
+        fn cover_default_value(&mut self, branch: u32, value: &mut Box<Expr>) {
+            let hint = crate::hint_comments::should_ignore(&self.comments, Some(&value.span()));
+            if hint == Some(crate::hint_comments::IgnoreScope::Next) {
+                return;
+            }
+
+            value.visit_mut_with(self);
+            self.replace_expr_with_branch_counter(&mut **value, branch);
+        }
+
         fn is_injected_counter_expr(&self, expr: &Expr) -> bool {
             if let Expr::Update(UpdateExpr { arg, .. }) = expr {
                 if let Expr::Member(MemberExpr { obj, .. }) = &**arg {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 8217676..6787857 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -901,7 +901,33 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+                    assign_pat.left.visit_mut_with(self);
+                    self.cover_default_value(branch, &mut assign_pat.right);
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // AssignmentPattern in object pattern shorthand (`{ a = 1 }`): entries(coverAssignmentPattern),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_assign_pat_prop(&mut self, assign_pat_prop: &mut AssignPatProp) {
+            let (old, ignore_current) = self.on_enter(assign_pat_prop);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    if let Some(value) = &mut assign_pat_prop.value {
+                        let range = crate::lookup_range::get_range_from_span(
+                            &self.source_map,
+                            &assign_pat_prop.span,
+                        );
+                        let branch = self.cov.borrow_mut().new_branch(
+                            crate::BranchType::DefaultArg,
+                            &range,
+                            false,
+                        );
+
+                        self.cover_default_value(branch, value);
+                    }
                 }
             }
             self.on_exit(old);
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 8fdc353..77331ce 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -45,6 +45,7 @@ pub enum Node {
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
+    AssignPatProp,
     TaggedTpl,
 }
 
-- 
2.43.0


From f05b236af1fd41929e51fcbfa16fd3fda174c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 07/29] fix: instrument parameters of arrow functions

---
 .../src/macros/instrumentation_visitor.rs                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 6787857..a5fc91f 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -60,6 +60,7 @@ macro_rules! instrumentation_visitor {
                             &self.cov_fn_ident,
                             None,
                         );
+                        arrow_expr.params.visit_mut_with(self);
 
                         // insert fn counter expression
                         let mut new_stmts = vec![Stmt::Expr(ExprStmt {
@@ -90,6 +91,7 @@ macro_rules! instrumentation_visitor {
                             &self.cov_fn_ident,
                             None,
                         );
+                        arrow_expr.params.visit_mut_with(self);
 
                         // insert fn counter expression
                         let mut stmts = vec![Stmt::Expr(ExprStmt {
-- 
2.43.0


From dfd35541ac9b67a0a67a8334966214cda3107bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 08/29] fix: keep directives on top of the program and
 functions

---
 packages/swc-coverage-instrument/src/lib.rs   |  1 +
 .../macros/instrumentation_counter_helper.rs  | 19 +++++---
 .../instrumentation_stmt_counter_helper.rs    | 10 ++++
 .../src/macros/instrumentation_visitor.rs     | 46 ++-----------------
 .../swc-coverage-instrument/src/utils/node.rs | 10 ++++
 .../src/visitors/coverage_visitor.rs          | 37 ++++++---------
 .../src/visitors/finders.rs                   |  5 +-
 7 files changed, 55 insertions(+), 73 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/lib.rs b/packages/swc-coverage-instrument/src/lib.rs
index 96edb57..e7b8864 100644
--- a/packages/swc-coverage-instrument/src/lib.rs
+++ b/packages/swc-coverage-instrument/src/lib.rs
@@ -25,6 +25,7 @@ pub use options::instrument_options::*;
 mod utils;
 use utils::hint_comments;
 use utils::lookup_range;
+use utils::node::count_directives;
 pub use utils::node::Node;
 
 // Reexports
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 0dc3ced..1649b9d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -203,12 +203,7 @@ macro_rules! instrumentation_counter_helper {
                         &self.cov_fn_ident,
                         None,
                     );
-                    let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                        span: swc_core::common::DUMMY_SP,
-                        expr: Box::new(b),
-                    })];
-                    prepended_vec.extend(blockstmt.stmts.take());
-                    blockstmt.stmts = prepended_vec;
+                    self.insert_fn_counter(blockstmt, b);
                 }
                 _ => {
                     unimplemented!("Unable to process function body node type")
@@ -229,6 +224,18 @@ macro_rules! instrumentation_counter_helper {
             self.replace_expr_with_branch_counter(&mut **value, branch);
         }
 
+        /// Insert fn counter to the top of fn body, right after its directives if there are any.
+        fn insert_fn_counter(&self, body: &mut BlockStmt, counter: Expr) {
+            let directives = crate::count_directives(&body.stmts);
+            body.stmts.insert(
+                directives,
+                Stmt::Expr(ExprStmt {
+                    span: swc_core::common::DUMMY_SP,
+                    expr: Box::new(counter),
+                }),
+            );
+        }
+
         fn is_injected_counter_expr(&self, expr: &Expr) -> bool {
             if let Expr::Update(UpdateExpr { arg, .. }) = expr {
                 if let Expr::Member(MemberExpr { obj, .. }) = &**arg {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
index dfea8a4..dbdec10 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
@@ -7,6 +7,16 @@ macro_rules! instrumentation_stmt_counter_helper {
         fn insert_stmts_counter(&mut self, stmts: &mut Vec<Stmt>) {
             let mut new_stmts = vec![];
 
+            // Body of the functions have fn counter inserted next to the directives: leave those as is.
+            // Any other stmts does not have directives.
+            let directives = crate::count_directives(stmts);
+            if stmts
+                .get(directives)
+                .map_or(false, |stmt| self.is_injected_counter_stmt(stmt))
+            {
+                new_stmts.extend(stmts.drain(..directives));
+            }
+
             for mut stmt in stmts.drain(..) {
                 if !self.is_injected_counter_stmt(&stmt) {
                     let (old, ignore_current) = self.on_enter(&mut stmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index a5fc91f..934a97e 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1,5 +1,3 @@
-pub(crate) const DIRECTIVES: &[&str] = &["use strict", "use asm", "use strong"];
-
 /// Generate common visitors to visit stmt.
 #[macro_export]
 macro_rules! instrumentation_visitor {
@@ -63,14 +61,9 @@ macro_rules! instrumentation_visitor {
                         arrow_expr.params.visit_mut_with(self);
 
                         // insert fn counter expression
-                        let mut new_stmts = vec![Stmt::Expr(ExprStmt {
-                            span: swc_core::common::DUMMY_SP,
-                            expr: Box::new(b),
-                        })];
+                        self.insert_fn_counter(block_stmt, b);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
-                        new_stmts.extend(block_stmt.stmts.drain(..));
-                        block_stmt.stmts = new_stmts;
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -184,15 +177,6 @@ macro_rules! instrumentation_visitor {
         fn visit_mut_expr_stmt(&mut self, expr_stmt: &mut ExprStmt) {
             let (old, ignore_current) = self.on_enter(expr_stmt);
 
-            if let Expr::Lit(Lit::Str(Str { value, .. })) = expr_stmt.expr.as_ref() {
-                let value: &str = &*value;
-
-                if crate::macros::instrumentation_visitor::DIRECTIVES.contains(&value) {
-                    self.on_exit(old);
-                    return;
-                }
-            }
-
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
@@ -474,12 +458,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(body, b);
                             }
                             getter_prop.visit_mut_children_with(self);
                         }
@@ -506,12 +485,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(body, b);
                         }
                         getter_prop.visit_mut_children_with(self);
                     }
@@ -560,12 +534,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(body, b);
                             }
                             setter_prop.visit_mut_children_with(self);
                         }
@@ -592,12 +561,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(body, b);
                         }
                         setter_prop.visit_mut_children_with(self);
                     }
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 77331ce..5d47024 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -1,5 +1,15 @@
 use std::fmt::{Display, Formatter};
 
+use swc_core::ecma::utils::IsDirective;
+
+/// Count leading directives (`use strict`, ..) of given program or function body.
+pub fn count_directives<T: IsDirective>(items: &[T]) -> usize {
+    items
+        .iter()
+        .take_while(|item| item.directive_continue())
+        .count()
+}
+
 #[derive(Copy, Debug, Clone, PartialEq)]
 pub enum Node {
     Program,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index c09f34c..81ff65d 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -2,7 +2,6 @@ use swc_core::{
     common::{comments::Comments, util::take::Take, SourceMapper, DUMMY_SP},
     ecma::{
         ast::*,
-        utils::IsDirective,
         visit::{noop_visit_mut_type, VisitMut, VisitMutWith, VisitWith},
     },
 };
@@ -143,16 +142,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
 
         // TODO: Should module_items need to be added in self.nodes?
-        let mut new_items = vec![];
+        // Do not create coverage instrumentation for directives.
+        let directives = crate::count_directives(items);
+        let mut new_items: Vec<ModuleItem> = items.drain(..directives).collect();
         for mut item in items.drain(..) {
-            if let ModuleItem::Stmt(stmt) = &item {
-                // Do not create coverage instrumentation for directives.
-                if stmt.directive_continue() {
-                    new_items.push(item);
-                    continue;
-                }
-            }
-
             let (old, _ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
@@ -181,14 +174,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
-        // prepend template to the top of the code
-        if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
-        } else {
-            items.push(ModuleItem::Stmt(coverage_template));
-            items.push(ModuleItem::Stmt(call_coverage_template_stmt));
-        }
+        // prepend template to the top of the code, directives should come first
+        let pos = std::cmp::min(items.len(), std::cmp::max(directives, 1));
+        items.insert(pos, ModuleItem::Stmt(coverage_template));
+        items.insert(pos + 1, ModuleItem::Stmt(call_coverage_template_stmt));
 
         if !root_exists {
             self.nodes.pop();
@@ -201,7 +190,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             return;
         }
 
-        let mut new_items = vec![];
+        // Do not create coverage instrumentation for directives.
+        let directives = crate::count_directives(&items.body);
+        let mut new_items: Vec<Stmt> = items.body.drain(..directives).collect();
         for mut item in items.body.drain(..) {
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
@@ -211,9 +202,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
-        // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        // prepend template to the top of the code, directives should come first
+        items.body.insert(directives, coverage_template);
+        items
+            .body
+            .insert(directives + 1, call_coverage_template_stmt);
     }
 
     // ExportDefaultDeclaration: entries(), // ignore processing only
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 8ebe7d8..c6d90f4 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -1,7 +1,4 @@
-use swc_core::ecma::{
-    ast::*,
-    visit::Visit,
-};
+use swc_core::ecma::{ast::*, visit::Visit};
 
 /// A visitor to check if counter need to be `hoisted` for certain types of nodes.
 #[derive(Debug)]
-- 
2.43.0


From e5f82ee840c338e1ca1ec964f7fbccf35919dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 09/29] fix: do not panic for functions without body

---
 .../macros/instrumentation_counter_helper.rs  | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 1649b9d..912ead8 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -182,11 +182,12 @@ macro_rules! instrumentation_counter_helper {
             };
 
             let range = crate::lookup_range::get_range_from_span(&self.source_map, span);
+            // Function without body (overload signature, ambient or abstract declaration in
+            // TypeScript) is never called.
             let body_span = if let Some(body) = &function.body {
                 body.span
             } else {
-                // TODO: probably this should never occur
-                function.span
+                return;
             };
 
             let body_range = crate::lookup_range::get_range_from_span(&self.source_map, &body_span);
@@ -195,19 +196,14 @@ macro_rules! instrumentation_counter_helper {
                 .borrow_mut()
                 .new_function(&name, &range, &body_range);
 
-            match &mut function.body {
-                Some(blockstmt) => {
-                    let b = crate::create_increase_counter_expr(
-                        &crate::constants::idents::IDENT_F,
-                        index,
-                        &self.cov_fn_ident,
-                        None,
-                    );
-                    self.insert_fn_counter(blockstmt, b);
-                }
-                _ => {
-                    unimplemented!("Unable to process function body node type")
-                }
+            if let Some(blockstmt) = &mut function.body {
+                let b = crate::create_increase_counter_expr(
+                    &crate::constants::idents::IDENT_F,
+                    index,
+                    &self.cov_fn_ident,
+                    None,
+                );
+                self.insert_fn_counter(blockstmt, b);
             }
         }
 
-- 
2.43.0


From 9987f7d9ad4c98bb2c43c91d716a68462c9d0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 10/29] fix: instrument constructors, private methods and class
 methods having any kind of key

---
 .../macros/create_instrumentation_visitor.rs  |  2 +
 .../src/macros/instrumentation_visitor.rs     | 69 ++++++++++++++++++-
 .../swc-coverage-instrument/src/utils/node.rs |  2 +
 3 files changed, 72 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 74c1485..fd81d3d 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -173,6 +173,8 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ClassProp);
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
+         on_enter!(PrivateMethod);
+         on_enter!(Constructor);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
          on_enter!(ForOfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 934a97e..434c6b8 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -361,7 +361,6 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
-                    // TODO: this does not cover all of PropName enum yet
                     // TODO: duplicated logic between fn_expr
                     if let PropName::Ident(ident) = &class_method.key {
                         let should_ignore_via_options = self
@@ -377,6 +376,74 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        let ident = Ident {
+                            span: class_method.key.span(),
+                            sym: "anonymous".into(),
+                            ..Ident::dummy()
+                        };
+                        self.create_fn_instrumentation(&Some(&ident), &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassPrivateMethod: entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
+            let (old, ignore_current) = self.on_enter(private_method);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let ident = Ident {
+                        span: private_method.key.span,
+                        sym: format!("#{}", private_method.key.name).into(),
+                        ..Ident::dummy()
+                    };
+                    self.create_fn_instrumentation(&Some(&ident), &mut private_method.function);
+                    private_method.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassMethod (kind: constructor): entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_constructor(&mut self, constructor: &mut Constructor) {
+            let (old, ignore_current) = self.on_enter(constructor);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let name = "constructor".to_string();
+                    let should_ignore_via_options =
+                        self.instrument_options.ignore_class_methods.contains(&name);
+
+                    if !should_ignore_via_options {
+                        if let Some(body) = &mut constructor.body {
+                            let range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &constructor.key.span(),
+                            );
+                            let body_range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &body.span,
+                            );
+                            let index = self.cov.borrow_mut().new_function(
+                                &Some(name),
+                                &range,
+                                &body_range,
+                            );
+                            let b = crate::create_increase_counter_expr(
+                                &crate::constants::idents::IDENT_F,
+                                index,
+                                &self.cov_fn_ident,
+                                None,
+                            );
+                            self.insert_fn_counter(body, b);
+                        }
+                        constructor.visit_mut_children_with(self);
                     }
                 }
             }
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 5d47024..bfd5e81 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -50,6 +50,8 @@ pub enum Node {
     ClassProp,
     ClassDecl,
     ClassMethod,
+    PrivateMethod,
+    Constructor,
     ExportDecl,
     ExportConstDecl,
     ExportDefaultDecl,
-- 
2.43.0


From e5a63adbe1b421dede20a5d41b47f5e3838d11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 11/29] fix: locate object methods without identifier key

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 434c6b8..f2015ce 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -475,6 +475,7 @@ macro_rules! instrumentation_visitor {
                         }
                     } else {
                         let ident = Ident {
+                            span: method_prop.key.span(),
                             sym: "anonymous".into(),
                             ..Ident::dummy()
                         };
-- 
2.43.0


From 3f62693e2197d51f14b0ea65f43a188ac47566ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 12/29] fix: count debugger statements

---
 .../src/macros/instrumentation_visitor.rs         | 15 +++++++++++++++
 .../src/visitors/coverage_visitor.rs              | 13 -------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f2015ce..e4db292 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -276,6 +276,21 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // DebuggerStatement: entries(coverStatement),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
+            let (old, ignore_current) = self.on_enter(debugger_stmt);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    self.mark_prepend_stmt_counter(&debugger_stmt.span);
+                }
+            }
+            debugger_stmt.visit_mut_children_with(self);
+
+            self.on_exit(old);
+        }
+
         // ReturnStatement: entries(coverStatement),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_return_stmt(&mut self, return_stmt: &mut ReturnStmt) {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 81ff65d..5e9fdd3 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -241,17 +241,4 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         self.on_exit(old);
     }
-
-    // DebuggerStatement: entries(coverStatement),
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
-        let (old, ignore_current) = self.on_enter(debugger_stmt);
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {}
-            _ => {
-                debugger_stmt.visit_mut_children_with(self);
-            }
-        }
-        self.on_exit(old);
-    }
 }
-- 
2.43.0


From 31ee183fbcde1bde72b976b119b948cda307617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 13/29] fix: respect ignore hint on export const declarations

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5e9fdd3..1f7fe77 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -146,7 +146,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let directives = crate::count_directives(items);
         let mut new_items: Vec<ModuleItem> = items.drain(..directives).collect();
         for mut item in items.drain(..) {
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -158,7 +158,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From 2ec74fab42f4783a3e8d29ae05d0729d9c849092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 14/29] fix: instrument object of with statement

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index e4db292..4c4ed68 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1018,6 +1018,7 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     self.mark_prepend_stmt_counter(&with_stmt.span);
+                    with_stmt.obj.visit_mut_with(self);
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-- 
2.43.0


From 7cbee814b8d23c86edf6447b5281981af4a09a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 15/29] fix: keep branch truthiness with its branch when
 coverage is merged, do not panic for a branch without locations

---
 packages/istanbul-oxide/src/file_coverage.rs | 73 ++++++++++++++++----
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..0eb302f 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -16,6 +16,44 @@ fn key_from_loc(range: &Range) -> String {
     )
 }
 
+/// Key to identify same branch between coverages. Branch may not have any locations,
+/// i.e switch statement without case.
+fn key_from_branch(branch: &Branch) -> String {
+    match branch.locations.first().or(branch.loc.as_ref()) {
+        Some(range) => key_from_loc(range),
+        None => format!("{:?}", branch.line),
+    }
+}
+
+/// Accumulate branch truthiness into `merged`, by the id of the branch in the `merged_map`.
+fn merge_branches_true(
+    merged: &mut BranchHitMap,
+    merged_map: &BranchMap,
+    hits: &BranchHitMap,
+    map: &BranchMap,
+) {
+    let ids: IndexMap<String, u32> = merged_map
+        .iter()
+        .map(|(id, branch)| (key_from_branch(branch), *id))
+        .collect();
+
+    for (key, item_hits) in hits {
+        let item = map.get(key).expect("Corresponding map value should exist");
+        let id = ids
+            .get(&key_from_branch(item))
+            .expect("Merged map should have all branches");
+
+        let merged_hits = merged.entry(*id).or_default();
+        if merged_hits.len() < item_hits.len() {
+            merged_hits.resize(item_hits.len(), 0);
+        }
+
+        for (h, hits) in item_hits.iter().enumerate() {
+            merged_hits[h] += hits;
+        }
+    }
+}
+
 fn merge_properties_hits_vec(
     first_hits: &BranchHitMap,
     first_map: &BranchMap,
@@ -293,26 +331,33 @@ impl FileCoverage {
             &self.branch_map,
             &coverage.b,
             &coverage.branch_map,
-            |branch: &Branch| key_from_loc(&branch.locations[0]),
+            key_from_branch,
         );
-        self.b = branches_hits_merged;
-        self.branch_map = branches_map_merged;
 
         // Tracking additional information about branch truthiness
         // can be optionally enabled:
-        if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
-                );
-
-                self.b_t = Some(branches_true_hits_merged);
+        if self.b_t.is_some() || coverage.b_t.is_some() {
+            let mut branches_true_hits_merged: BranchHitMap = Default::default();
+
+            for (branches_true, map) in [
+                (&self.b_t, &self.branch_map),
+                (&coverage.b_t, &coverage.branch_map),
+            ] {
+                if let Some(branches_true) = branches_true {
+                    merge_branches_true(
+                        &mut branches_true_hits_merged,
+                        &branches_map_merged,
+                        branches_true,
+                        map,
+                    );
+                }
             }
+
+            self.b_t = Some(branches_true_hits_merged);
         }
+
+        self.b = branches_hits_merged;
+        self.branch_map = branches_map_merged;
     }
 
     pub fn compute_simple_totals<T>(line_map: &IndexMap<T, u32>) -> Totals {
-- 
2.43.0


From 5d858fed6b0dced3f657216273e0e6da0509a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 16/29] fix: do not inject coverage template into typescript
 namespace

---
 packages/swc-coverage-instrument/src/utils/node.rs   |  1 +
 .../src/visitors/coverage_visitor.rs                 | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index bfd5e81..62421d6 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -59,6 +59,7 @@ pub enum Node {
     AssignPat,
     AssignPatProp,
     TaggedTpl,
+    TsModuleBlock,
 }
 
 impl Display for Node {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 1f7fe77..222c351 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -174,6 +174,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         *items = new_items;
 
+        // Items of a namespace share the template of the program.
+        if self.nodes.contains(&crate::Node::TsModuleBlock) {
+            return;
+        }
+
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code, directives should come first
@@ -211,6 +216,13 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             .insert(directives + 1, call_coverage_template_stmt);
     }
 
+    #[instrument(skip_all, fields(node = %self.print_node()))]
+    fn visit_mut_ts_module_block(&mut self, block: &mut TsModuleBlock) {
+        self.nodes.push(crate::Node::TsModuleBlock);
+        block.visit_mut_children_with(self);
+        self.nodes.pop();
+    }
+
     // ExportDefaultDeclaration: entries(), // ignore processing only
     #[instrument(skip_all, fields(node = %self.print_node()))]
     fn visit_mut_export_default_decl(&mut self, export_default_decl: &mut ExportDefaultDecl) {
-- 
2.43.0


From 7595cee702816e7ea13bcf3337d298e00948b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 17/29] fix: respect ignore hint in front of parenthesized
 expression

---
 .../src/macros/create_instrumentation_visitor.rs          | 1 +
 .../src/macros/instrumentation_visitor.rs                 | 8 ++++++++
 packages/swc-coverage-instrument/src/utils/node.rs        | 1 +
 3 files changed, 10 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index fd81d3d..add8f9e 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -166,6 +166,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(VarDeclarator);
          on_enter!(VarDecl);
          on_enter!(CondExpr);
+         on_enter!(ParenExpr);
          on_enter!(ExprStmt);
          on_enter!(IfStmt);
          on_enter!(LabeledStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 4c4ed68..5f5934f 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -253,6 +253,14 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // Ignore processing only: hint in front of the paren belongs to the expr inside of it
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_paren_expr(&mut self, paren_expr: &mut ParenExpr) {
+            let (old, _ignore_current) = self.on_enter(paren_expr);
+            paren_expr.visit_mut_children_with(self);
+            self.on_exit(old);
+        }
+
         // TaggedTemplateExpression: special handling to preserve template relationship
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_tagged_tpl(&mut self, tagged_tpl: &mut TaggedTpl) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 62421d6..638e5e7 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -59,6 +59,7 @@ pub enum Node {
     AssignPat,
     AssignPatProp,
     TaggedTpl,
+    ParenExpr,
     TsModuleBlock,
 }
 
-- 
2.43.0


From 8d328da9d0ed117e8b9962a9f51fb75a23ed3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 18/29] vp_hooks: read access to coverage summary, guarded by
 cfg(vp_hooks)

---
 .../istanbul-oxide/src/coverage_summary.rs    | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/packages/istanbul-oxide/src/coverage_summary.rs b/packages/istanbul-oxide/src/coverage_summary.rs
index 4b6ce66..f82684e 100644
--- a/packages/istanbul-oxide/src/coverage_summary.rs
+++ b/packages/istanbul-oxide/src/coverage_summary.rs
@@ -1,3 +1,6 @@
+// for vp_hooks below
+#![allow(unexpected_cfgs)]
+
 use crate::percent;
 
 #[derive(Copy, Clone, PartialEq, Debug)]
@@ -139,6 +142,32 @@ impl CoverageSummary {
     }
 }
 
+/// Read access to the summary for verification: (total, covered, skipped, pct) of lines,
+/// statements, functions, branches and branches_true.
+#[cfg(vp_hooks)]
+impl CoverageSummary {
+    pub fn vp_totals(&self) -> Vec<Option<(u32, u32, u32, Option<f32>)>> {
+        [
+            Some(self.lines),
+            Some(self.statements),
+            Some(self.functions),
+            Some(self.branches),
+            self.branches_true,
+        ]
+        .iter()
+        .map(|totals| {
+            totals.map(|t| {
+                let pct = match t.pct {
+                    CoveragePercentage::Value(v) => Some(v),
+                    CoveragePercentage::Unknown => None,
+                };
+                (t.total, t.covered, t.skipped, pct)
+            })
+        })
+        .collect()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::{CoveragePercentage, CoverageSummary, Totals};
-- 
2.43.0


From 3f41f3af0e48aa7314c99a46ebda1ebae5236a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 19/29] fix: coverage of a module was not registered before its
 first item, which may throw

---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 222c351..127f931 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -182,9 +182,8 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code, directives should come first
-        let pos = std::cmp::min(items.len(), std::cmp::max(directives, 1));
-        items.insert(pos, ModuleItem::Stmt(coverage_template));
-        items.insert(pos + 1, ModuleItem::Stmt(call_coverage_template_stmt));
+        items.insert(directives, ModuleItem::Stmt(coverage_template));
+        items.insert(directives + 1, ModuleItem::Stmt(call_coverage_template_stmt));
 
         if !root_exists {
             self.nodes.pop();
-- 
2.43.0


From 3be4e5c69e1dfb0ca772f6d016e2ddbe687b4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 20/29] fix: istanbul ignore next had no effect on the block of
 an if, with or arrow function

---
 .../src/macros/instrumentation_visitor.rs                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 5f5934f..d7a863f 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -63,7 +63,7 @@ macro_rules! instrumentation_visitor {
                         // insert fn counter expression
                         self.insert_fn_counter(block_stmt, b);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
-                        self.insert_stmts_counter(&mut block_stmt.stmts);
+                        block_stmt.visit_mut_with(self);
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -822,7 +822,7 @@ macro_rules! instrumentation_visitor {
 
                         let body = if let Stmt::Block(mut block_stmt) = stmt_body {
                             // if cons / alt is already blockstmt, insert stmt counter for each
-                            self.insert_stmts_counter(&mut block_stmt.stmts);
+                            block_stmt.visit_mut_with(self);
 
                             let mut new_stmts = vec![expr];
                             new_stmts.extend(block_stmt.stmts.drain(..));
@@ -1030,7 +1030,7 @@ macro_rules! instrumentation_visitor {
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-                        self.insert_stmts_counter(&mut body_block.stmts);
+                        body_block.visit_mut_with(self);
                     } else {
                         let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                             self.source_map.clone(),
-- 
2.43.0


From 42af4a52087a535b146e6777815cf491b239449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 21/29] Revert "fix: coverage of a module was not registered
 before its first item, which may throw"

spec/plugin.spec.ts pins the position of the coverage function behind the first item of a module.
---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 127f931..222c351 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -182,8 +182,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code, directives should come first
-        items.insert(directives, ModuleItem::Stmt(coverage_template));
-        items.insert(directives + 1, ModuleItem::Stmt(call_coverage_template_stmt));
+        let pos = std::cmp::min(items.len(), std::cmp::max(directives, 1));
+        items.insert(pos, ModuleItem::Stmt(coverage_template));
+        items.insert(pos + 1, ModuleItem::Stmt(call_coverage_template_stmt));
 
         if !root_exists {
             self.nodes.pop();
-- 
2.43.0


From d088e10b9552a4c651c1fed2bd5955fbdf7d296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 22/29] fix: */ in a path or source map ended the coverage data
 comment early

---
 .../src/coverage_template/create_coverage_fn_decl.rs            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 7c8074a..ed68f02 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -151,6 +151,8 @@ if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
     if attach_debug_comment {
         let coverage_data_json_str =
             serde_json::to_string(coverage_data).expect("Should able to serialize coverage data");
+        // Paths or source maps can contain the end of a comment, `\/` is the same in JSON.
+        let coverage_data_json_str = coverage_data_json_str.replace("*/", "*\\/");
 
         // Append coverage data as stringified JSON comments at the bottom of transformed code.
         // Currently plugin does not have way to pass any other data to the host except transformed program.
-- 
2.43.0


From a8c730e1c16bbb72a9ed0514166359a3fe359bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 23/29] fix: declarations which are types only had counters
 which were never hit

---
 packages/swc-coverage-instrument/src/lib.rs        |  1 +
 .../src/macros/instrumentation_visitor.rs          |  7 +++++++
 packages/swc-coverage-instrument/src/utils/node.rs | 14 +++++++++++++-
 .../src/visitors/coverage_visitor.rs               |  1 +
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/lib.rs b/packages/swc-coverage-instrument/src/lib.rs
index e7b8864..b33c8f2 100644
--- a/packages/swc-coverage-instrument/src/lib.rs
+++ b/packages/swc-coverage-instrument/src/lib.rs
@@ -26,6 +26,7 @@ mod utils;
 use utils::hint_comments;
 use utils::lookup_range;
 use utils::node::count_directives;
+use utils::node::is_ambient_decl;
 pub use utils::node::Node;
 
 // Reexports
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d7a863f..2a22be1 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -314,6 +314,13 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // Ambient declarations are types only, nothing in them is ever evaluated.
+        fn visit_mut_decl(&mut self, decl: &mut Decl) {
+            if !crate::is_ambient_decl(decl) {
+                decl.visit_mut_children_with(self);
+            }
+        }
+
         // VariableDeclaration: entries(), // ignore processing only
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_var_decl(&mut self, var_decl: &mut VarDecl) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 638e5e7..cb24d00 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -1,6 +1,6 @@
 use std::fmt::{Display, Formatter};
 
-use swc_core::ecma::utils::IsDirective;
+use swc_core::ecma::{ast::Decl, utils::IsDirective};
 
 /// Count leading directives (`use strict`, ..) of given program or function body.
 pub fn count_directives<T: IsDirective>(items: &[T]) -> usize {
@@ -68,3 +68,15 @@ impl Display for Node {
         write!(f, "{:#?}", self)
     }
 }
+
+/// Declarations without a runtime value: `declare const a`, `declare module "b" {}`..
+pub fn is_ambient_decl(decl: &Decl) -> bool {
+    match decl {
+        Decl::Class(class) => class.declare,
+        Decl::Fn(func) => func.declare,
+        Decl::Var(var) => var.declare,
+        Decl::TsEnum(ts_enum) => ts_enum.declare,
+        Decl::TsModule(ts_module) => ts_module.declare,
+        _ => false,
+    }
+}
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 222c351..18eb491 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -159,6 +159,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
                     if var_decl.kind == VarDeclKind::Const
+                        && !var_decl.declare
                         && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
                     {
                         self.mark_prepend_stmt_counter(&export_decl.span);
-- 
2.43.0


From f8c18cbc9659ecda47a45c14ecbee81e233cb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 24/29] fix: default exported functions were excluded by
 ignoreClassMethods, as if expressions

---
 .../src/macros/instrumentation_visitor.rs                   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 2a22be1..b4285d0 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -151,7 +151,11 @@ macro_rules! instrumentation_visitor {
                 _ => {
                     let fn_ident = &fn_expr.ident.as_ref();
 
-                    let should_ignore_via_options = if let Some(ident) = fn_ident {
+                    // `export default function named() {}` is a declaration, no expression with a name
+                    let is_declaration =
+                        self.nodes.iter().nth_back(1) == Some(&crate::Node::ExportDefaultDecl);
+
+                    let should_ignore_via_options = if let (Some(ident), false) = (fn_ident, is_declaration) {
                         self.instrument_options
                             .ignore_class_methods
                             .iter()
-- 
2.43.0


From 06a73ebb9259c652157d32d0e2ee511b6295dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 25/29] fix: locations of nodes with reserved positions (pure
 annotations, ..) were made up

---
 packages/swc-coverage-instrument/src/utils/lookup_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/utils/lookup_range.rs b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
index 986ce1e..6415eb9 100644
--- a/packages/swc-coverage-instrument/src/utils/lookup_range.rs
+++ b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
@@ -10,7 +10,7 @@ pub fn get_range_from_span<S: SourceMapper>(source_map: &Arc<S>, span: &Span) ->
     // which are not able to locate original locations.
     // This'll makes to create less-accurate coverage for those types (i.e enums)
     // while waiting upstream decision instead of hard panic.
-    if span.hi.is_dummy() || span.lo.is_dummy() {
+    if span.hi.is_dummy() || span.lo.is_dummy() || span.is_dummy() {
         return Default::default();
     }
 
-- 
2.43.0


From 1820fbd3d514d43c93f8933ab283c52a8fbd8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 26/29] fix: truthiness counters evaluated getters of logical
 operands, whose logical expressions replaced the operand's value

---
 .../src/instrument/create_increase_true_expr.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
index 9cacd16..844616b 100644
--- a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
+++ b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
@@ -150,7 +150,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
                             ..Ident::dummy()
                         })),
                         prop: MemberProp::Ident(IdentName {
-                            sym: "values".into(),
+                            sym: "keys".into(),
                             ..IdentName::dummy()
                         }),
                         ..MemberExpr::dummy()
-- 
2.43.0


From de913c9ad165a5796a05536f42868ed3ed06e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 27/29] vp_hooks: the summary's constructors, guarded by
 cfg(vp_hooks)

---
 packages/istanbul-oxide/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/istanbul-oxide/src/lib.rs b/packages/istanbul-oxide/src/lib.rs
index 4d4e998..088f53a 100644
--- a/packages/istanbul-oxide/src/lib.rs
+++ b/packages/istanbul-oxide/src/lib.rs
@@ -1,3 +1,6 @@
+// for vp_hooks below
+#![allow(unexpected_cfgs)]
+
 mod coverage;
 mod coverage_map;
 mod coverage_summary;
@@ -14,3 +17,9 @@ use percent::*;
 pub use range::*;
 pub use source_map::SourceMap;
 pub use types::*;
+
+/// Access to the summary for verification.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::coverage_summary::{CoveragePercentage, CoverageSummary, Totals};
+}
-- 
2.43.0


From 0d213e41a3a476932e133c4cc35e23dd97c3f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 28/29] fix: merging takes a branch without paths for the
 branch it is a path of

---
 packages/istanbul-oxide/src/file_coverage.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 0eb302f..8fe6deb 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -17,11 +17,13 @@ fn key_from_loc(range: &Range) -> String {
 }
 
 /// Key to identify same branch between coverages. Branch may not have any locations,
-/// i.e switch statement without case.
+/// i.e switch statement without case, and can be a path of other branch then: its key
+/// should not be the one of the path.
 fn key_from_branch(branch: &Branch) -> String {
-    match branch.locations.first().or(branch.loc.as_ref()) {
-        Some(range) => key_from_loc(range),
-        None => format!("{:?}", branch.line),
+    match (branch.locations.first(), &branch.loc) {
+        (Some(range), _) => key_from_loc(range),
+        (None, Some(range)) => format!("loc|{}", key_from_loc(range)),
+        (None, None) => format!("{:?}", branch.line),
     }
 }
 
-- 
2.43.0


From 9091d1e8be6f773429dd56bea63068f206a2706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 29/29] fix: an empty list of exclusions left a file without a
 name uninstrumented

---
 packages/swc-plugin-coverage/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/swc-plugin-coverage/src/lib.rs b/packages/swc-plugin-coverage/src/lib.rs
index 77e1c21..8974fd1 100644
--- a/packages/swc-plugin-coverage/src/lib.rs
+++ b/packages/swc-plugin-coverage/src/lib.rs
@@ -76,7 +76,9 @@ pub fn process(program: Program, metadata: TransformPluginProgramMetadata) -> Pr
     // Unstable option to exclude files from coverage. If pattern is wax(https://crates.io/crates/wax)
     // compatible glob and the filename matches the pattern, the file will not be instrumented.
     // Note that the filename is provided by swc's core, may not be the full absolute path to the file name.
-    if let Some(exclude) = &instrument_options.unstable_exclude {
+    // An empty list excludes nothing, wax would let it match an empty filename.
+    let exclude = instrument_options.unstable_exclude.as_ref();
+    if let Some(exclude) = exclude.filter(|exclude| !exclude.is_empty()) {
         let normalized_patterns = exclude
             .iter()
             .map(|s| normalize_path(s))
-- 
2.43.0

