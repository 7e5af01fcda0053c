#!/usr/bin/env python3
"""Edits of the instrumenter that keep its behaviour: trials.py NAME TREE applies one to a tree.
For development: which of them do the proofs follow, which make them fail without a failing input?"""
import sys
S = "packages/swc-coverage-instrument/src/"
V, H, C, L, R = S + "macros/instrumentation_visitor.rs", S + "macros/instrumentation_counter_helper.rs", S + "macros/create_instrumentation_visitor.rs", S + "macros/instrumentation_stmt_counter_helper.rs", S + "visitors/coverage_visitor.rs"
F, W = S + "macros/visit_mut_for_like.rs", S + "visitors/switch_case_visitor.rs"
T = {}
# match -> if
T["if-instead-of-match"] = [(V, '''            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
                _ => {
                    self.mark_prepend_stmt_counter(&try_stmt.span);
                    try_stmt.visit_mut_children_with(self);
                }
            }
''', '''            if ignore_current != Some(crate::hint_comments::IgnoreScope::Next) {
                self.mark_prepend_stmt_counter(&try_stmt.span);
                try_stmt.visit_mut_children_with(self);
            }
''')]
T["early-return"] = [(V, '''            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
                _ => {
                    self.mark_prepend_stmt_counter(&throw_stmt.span);
                    throw_stmt.visit_mut_children_with(self);
                }
            }
            self.on_exit(old);
''', '''            if let Some(crate::hint_comments::IgnoreScope::Next) = ignore_current {
                self.on_exit(old);
                return;
            }
            self.mark_prepend_stmt_counter(&throw_stmt.span);
            throw_stmt.visit_mut_children_with(self);
            self.on_exit(old);
''')]
T["matches-macro"] = [(V, '''            match ignore_current {
                Some(crate::hint_comments::IgnoreScope::Next) => {}
                _ => {
                    self.mark_prepend_stmt_counter(&return_stmt.span);
                }
            }
''', '''            if !matches!(ignore_current, Some(crate::hint_comments::IgnoreScope::Next)) {
                self.mark_prepend_stmt_counter(&return_stmt.span);
            }
''')]
# helper
T["helper-range"] = [(H, '''            let stmt_range = crate::lookup_range::get_range_from_span(&self.source_map, span);
''', '''            let stmt_range = self.range_of_span(span);
'''), (H, '''        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''', '''        fn range_of_span(&self, span: &Span) -> crate::Range {
            crate::lookup_range::get_range_from_span(&self.source_map, span)
        }

        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''')]
T["helper-as-stmt"] = [(H, '''            self.before.push(Stmt::Expr(ExprStmt {
                span: swc_core::common::DUMMY_SP,
                expr: Box::new(increment_expr),
            }));
''', '''            let counter = Self::counter_stmt(increment_expr);
            self.before.push(counter);
'''), (H, '''        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''', '''        fn counter_stmt(expr: Expr) -> Stmt {
            Stmt::Expr(ExprStmt {
                span: swc_core::common::DUMMY_SP,
                expr: Box::new(expr),
            })
        }

        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''')]
T["helper-ignored"] = [(V, '''                    if let PropName::Ident(ident) = &class_method.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.as_str() == &*ident.sym);
''', '''                    if let PropName::Ident(ident) = &class_method.key {
                        let should_ignore_via_options = self.is_ignored_name(&ident.sym);
'''), (H, '''        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''', '''        #[allow(dead_code)]
        fn is_ignored_name(&self, name: &str) -> bool {
            self.instrument_options
                .ignore_class_methods
                .iter()
                .any(|v| v.as_str() == name)
        }

        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''')]
T["contains"] = [(V, '''                    if let PropName::Ident(ident) = &class_method.key {
                        let should_ignore_via_options = self
                            .instrument_options
                            .ignore_class_methods
                            .iter()
                            .any(|v| v.as_str() == &*ident.sym);
''', '''                    if let PropName::Ident(ident) = &class_method.key {
                        let mut should_ignore_via_options = false;
                        for name in self.instrument_options.ignore_class_methods.iter() {
                            if name.as_str() == &*ident.sym {
                                should_ignore_via_options = true;
                            }
                        }
''')]
# order of independent statements
T["order-ranges"] = [(H, '''            let range = crate::lookup_range::get_range_from_span(&self.source_map, span);
            let body_span = if let Some(body) = &function.body {
                body.span
            } else {
                // TODO: probably this should never occur
                function.span
            };
''', '''            let body_span = match &function.body {
                Some(body) => body.span,
                None => function.span,
            };
            let range = crate::lookup_range::get_range_from_span(&self.source_map, span);
''')]
T["order-hints"] = [(V, '''                    let a_hint = crate::hint_comments::lookup_hint_comments(
                        &self.comments,
                        Some(&cond_expr.alt.span()),
                    );

                    if c_hint.as_deref() != Some("next") {
                        // TODO: do we need this?
                        // cond_expr.cons.visit_mut_children_with(self);

                        // replace consequence to the paren for increase expr + expr itself
                        self.replace_expr_with_branch_counter(&mut *cond_expr.cons, branch);
                    }
''', '''                    if c_hint.as_deref() != Some("next") {
                        self.replace_expr_with_branch_counter(&mut *cond_expr.cons, branch);
                    }
                    let a_hint = crate::hint_comments::lookup_hint_comments(
                        &self.comments,
                        Some(&cond_expr.alt.span()),
                    );
''')]
T["order-wrap"] = [(W, '''                switch_case.visit_mut_children_with(self);

                let expr = Stmt::Expr(ExprStmt {
                    span: DUMMY_SP,
                    expr: Box::new(expr),
                });

                let mut new_stmts = vec![expr];
                new_stmts.extend(switch_case.cons.drain(..));

                switch_case.cons = new_stmts;
''', '''                let counter = Stmt::Expr(ExprStmt {
                    span: DUMMY_SP,
                    expr: Box::new(expr),
                });
                switch_case.visit_mut_children_with(self);
                switch_case.cons.insert(0, counter);
''')]
# loops
T["loop-take"] = [(L, "for mut stmt in stmts.drain(..) {", "for mut stmt in std::mem::take(stmts) {")]
T["loop-capacity"] = [(L, "let mut new_stmts = vec![];", "let mut new_stmts = Vec::with_capacity(stmts.len() * 2);")]
T["loop-continue"] = [(L, '''                if !self.is_injected_counter_stmt(&stmt) {
                    let (old, ignore_current) = self.on_enter(&mut stmt);

                    match ignore_current {
                        Some(crate::hint_comments::IgnoreScope::Next) => {}
                        _ => {
                            let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                                self.source_map.clone(),
                                self.comments.clone(),
                                self.cov.clone(),
                                self.instrument_options.clone(),
                                self.nodes.clone(),
                                ignore_current,
                            );
                            stmt.visit_mut_children_with(&mut visitor);

                            new_stmts.extend(visitor.before.drain(..));
                        }
                    }
                    self.on_exit(old);
                }

                new_stmts.push(stmt);
''', '''                if self.is_injected_counter_stmt(&stmt) {
                    new_stmts.push(stmt);
                    continue;
                }
                let (old, ignore_current) = self.on_enter(&mut stmt);
                if ignore_current != Some(crate::hint_comments::IgnoreScope::Next) {
                    let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                        self.source_map.clone(),
                        self.comments.clone(),
                        self.cov.clone(),
                        self.instrument_options.clone(),
                        self.nodes.clone(),
                        ignore_current,
                    );
                    stmt.visit_mut_children_with(&mut visitor);
                    new_stmts.append(&mut visitor.before);
                }
                self.on_exit(old);
                new_stmts.push(stmt);
''')]
T["loop-rename"] = [(L, "new_stmts", "instrumented", 99)]
T["loop-while"] = [(L, "for mut stmt in stmts.drain(..) {", "let mut rest = std::mem::take(stmts).into_iter();\n            while let Some(mut stmt) = rest.next() {")]
# closure -> method, block
T["body-insert"] = [(V, '''                            let mut new_stmts = vec![expr];
                            new_stmts.extend(block_stmt.stmts.drain(..));

                            block_stmt.stmts = new_stmts;
                            block_stmt
''', '''                            block_stmt.stmts.insert(0, expr);
                            block_stmt
''')]
T["for-match"] = [(F, '''                let body = if let Stmt::Block(body) = body {
                    body
                } else {
                    let stmts = vec![body];
                    BlockStmt {
                        span: swc_core::common::DUMMY_SP,
                        stmts,
                        ..Default::default()
                    }
                };
''', '''                let body = match body {
                    Stmt::Block(block) => block,
                    other => BlockStmt {
                        span: swc_core::common::DUMMY_SP,
                        stmts: vec![other],
                        ..Default::default()
                    },
                };
''')]
T["if-once"] = [(V, '''                            wrap_with_counter(&mut alt);
                            if_stmt.alt = Some(alt);

                            // We visit individual cons / alt depends on its state, need to run visitor for the `test` as well
                            if_stmt.test.visit_mut_with(self);

                            self.on_exit(old);
                            return;
                        }
''', '''                            wrap_with_counter(&mut alt);
                            if_stmt.alt = Some(alt);
                        }
''')]
T["inline-var"] = [(C, '''                let old = self.should_ignore;
                let ret = match old {
                    Some(crate::hint_comments::IgnoreScope::Next) => old,
                    _ => {
                        self.should_ignore = crate::hint_comments::should_ignore(&self.comments, span);
                        self.should_ignore
                    }
                };

                (old, ret)
''', '''                let old = self.should_ignore;
                if old != Some(crate::hint_comments::IgnoreScope::Next) {
                    self.should_ignore = crate::hint_comments::should_ignore(&self.comments, span);
                }
                (old, self.should_ignore)
''')]
T["logic-flag"] = [(V, '''                    match &bin_expr.op {
                        BinaryOp::LogicalOr
                        | BinaryOp::LogicalAnd
                        | BinaryOp::NullishCoalescing => {
                            self.nodes.push(crate::Node::LogicalExpr);
''', '''                    let is_logical = matches!(
                        bin_expr.op,
                        BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing
                    );
                    match is_logical {
                        true => {
                            self.nodes.push(crate::Node::LogicalExpr);
''')]
T["unwrap-else"] = [(H, '''            let parent = self.nodes.last().unwrap().clone();
            if hoist.0 && parent == crate::Node::VarDeclarator {
''', '''            if hoist.0 && self.nodes.last() == Some(&crate::Node::VarDeclarator) {
''')]
T["helper-wrap-seq"] = [(H, '''            let paren_expr = Expr::Paren(ParenExpr {
                span: swc_core::common::DUMMY_SP,
                expr: Box::new(Expr::Seq(SeqExpr {
                    span: swc_core::common::DUMMY_SP,
                    exprs: vec![Box::new(prepend_expr), Box::new(expr.take())],
                })),
            });

            // replace init with increase expr + init seq
            *expr = paren_expr;
''', '''            let original = expr.take();
            let seq = Expr::Seq(SeqExpr {
                span: swc_core::common::DUMMY_SP,
                exprs: vec![Box::new(prepend_expr), Box::new(original)],
            });
            *expr = Expr::Paren(ParenExpr {
                span: swc_core::common::DUMMY_SP,
                expr: Box::new(seq),
            });
''')]
T["let-else"] = [(V, '''                    if let Some(value) = &mut class_prop.value {
                        self.cover_statement(&mut *value);
                    }
''', '''                    if let Some(value) = class_prop.value.as_mut() {
                        self.cover_statement(value);
                    }
''')]
T["visitor-helper"] = [(V, '''                        let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                            self.source_map.clone(),
                            self.comments.clone(),
                            self.cov.clone(),
                            self.instrument_options.clone(),
                            self.nodes.clone(),
                            ignore_current,
                        );
                        with_stmt.body.visit_mut_with(&mut visitor);
''', '''                        let mut visitor = self.stmt_visitor(ignore_current);
                        with_stmt.body.visit_mut_with(&mut visitor);
'''), (H, '''        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''', '''        #[allow(dead_code)]
        fn stmt_visitor(&self, scope: Option<crate::hint_comments::IgnoreScope>) -> crate::visitors::stmt_like_visitor::StmtVisitor<C, S> {
            crate::visitors::stmt_like_visitor::StmtVisitor::new(
                self.source_map.clone(),
                self.comments.clone(),
                self.cov.clone(),
                self.instrument_options.clone(),
                self.nodes.clone(),
                scope,
            )
        }

        #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
''')]

O = "packages/istanbul-oxide/src/"
FC, CM, CS = O + "file_coverage.rs", O + "coverage_map.rs", O + "coverage_summary.rs"
SC, HC, LR, DD, IC, DI = S + "source_coverage/mod.rs", S + "utils/hint_comments.rs", S + "utils/lookup_range.rs", S + "coverage_template/create_coverage_data_object.rs", S + "instrument/create_increase_counter_expr.rs", S + "utils/directives.rs"
U = {}
def t(name, units, *e):
    T[name] = list(e); U[name] = units
t("o-add-match", "oxide", (CM, '''        if let Some(value) = self.inner.get_mut(coverage.path.as_str()) {
            value.merge(coverage);
        } else {
            self.inner.insert(coverage.path.clone(), coverage.clone());
        }
''', '''        match self.inner.get_mut(&coverage.path) {
            Some(value) => value.merge(coverage),
            None => {
                self.inner.insert(coverage.path.clone(), coverage.clone());
            }
        }
'''))
t("o-map-merge-values", "oxide", (CM, '''        for (_, coverage) in map.inner.iter() {
''', '''        for coverage in map.inner.values() {
'''))
t("o-from-iter-new", "oxide", (CM, '''        let mut ret = CoverageMap {
            inner: Default::default(),
        };

        for coverage in value.into_iter() {
            ret.add_coverage_for_file(coverage)
        }

        ret
''', '''        let mut map = CoverageMap::new();

        for coverage in value {
            map.add_coverage_for_file(coverage);
        }

        map
'''))
t("o-summary-foreach", "oxide", (CM, '''        for coverage in self.inner.values() {
            ret.merge(&coverage.to_summary());
        }
''', '''        self.inner
            .values()
            .for_each(|coverage| ret.merge(&coverage.to_summary()));
'''))
t("o-filter-retain", "oxide", (CM, '''        let mut filtered: IndexMap<String, FileCoverage> = Default::default();

        for (_, coverage) in self.inner.drain(..) {
            if predicate(&coverage) {
                filtered.insert(coverage.path.clone(), coverage);
            }
        }

        self.inner = filtered;
''', '''        self.inner.retain(|_, coverage| predicate(coverage));
'''))
t("o-lines-iflet", "oxide", (FC, '''            match pre_val {
                Some(pre_val) if pre_val < count => {
                    line_map.insert(line, *count);
                }
                None => {
                    line_map.insert(line, *count);
                }
                _ => {
                    //noop
                }
            }
''', '''            let is_larger = match pre_val {
                Some(pre_val) => pre_val < count,
                None => true,
            };

            if is_larger {
                line_map.insert(line, *count);
            }
'''))
t("o-lines-maybe", "oxide", (FC, '''            match pre_val {
                Some(pre_val) if pre_val < count => {
                    line_map.insert(line, *count);
                }
                None => {
                    line_map.insert(line, *count);
                }
                _ => {
                    //noop
                }
            }
''', '''            if let Some(pre_val) = pre_val {
                if pre_val >= count {
                    continue;
                }
            }
            line_map.insert(line, *count);
'''))
t("o-uncovered-filter", "oxide", (FC, '''        let lc = self.get_line_coverage();
        let mut ret: Vec<u32> = Default::default();

        for (l, hits) in lc {
            if hits == 0 {
                ret.push(l);
            }
        }

        ret
''', '''        self.get_line_coverage()
            .into_iter()
            .filter(|(_, hits)| *hits == 0)
            .map(|(line, _)| line)
            .collect()
'''))
t("o-branch-line-extend", "oxide", (FC, '''                line_data.append(&mut branch_data.clone());
''', '''                line_data.extend(branch_data.iter().copied());
'''))
t("o-branch-line-or", "oxide", (FC, '''            let line = if let Some(line) = map.line {
                line
            } else {
                map.loc.expect("Either line or loc should exist").start.line
            };
''', '''            let line = match map.line {
                Some(line) => line,
                None => map.loc.expect("Either line or loc should exist").start.line,
            };
'''))
t("o-merge-helper", "oxide merge", (FC, '''            .and_modify(|pair| {
                if pair.0.len() < item_hits.len() {
                    pair.0.resize(item_hits.len(), 0);
                }

                for (h, hits) in item_hits.iter().enumerate() {
                    pair.0[h] += hits;
                }
            })
''', '''            .and_modify(|pair| add_hits(&mut pair.0, item_hits))
''', 2), (FC, '''fn merge_properties_hits_vec(
''', '''fn add_hits(target: &mut Vec<u32>, item_hits: &Vec<u32>) {
    if target.len() < item_hits.len() {
        target.resize(item_hits.len(), 0);
    }

    for (h, hits) in item_hits.iter().enumerate() {
        target[h] += hits;
    }
}

fn merge_properties_hits_vec(
'''))
t("o-merge-entry-match", "oxide merge", (FC, '''        items
            .entry(item_key)
            .and_modify(|pair| {
                pair.0 += *item_hits;
            })
            .or_insert((*item_hits, item.clone()));
''', '''        if let Some(pair) = items.get_mut(&item_key) {
            pair.0 += *item_hits;
        } else {
            items.insert(item_key, (*item_hits, item.clone()));
        }
''', 2))
t("o-merge-index", "oxide merge", (FC, '''    for (idx, (hit, item)) in items.values().enumerate() {
        hits.insert(idx as u32, *hit);
        map.insert(idx as u32, item.clone());
    }
''', '''    let mut idx: u32 = 0;
    for (hit, item) in items.values() {
        hits.insert(idx, *hit);
        map.insert(idx, item.clone());
        idx += 1;
    }
'''))
t("o-merge-order", "oxide merge", (FC, '''        let (statement_hits_merged, statement_map_merged) = merge_properties(
            &self.s,
            &self.statement_map,
            &coverage.s,
            &coverage.statement_map,
            |range: &Range| key_from_loc(range),
        );

        self.s = statement_hits_merged;
        self.statement_map = statement_map_merged;

        let (fn_hits_merged, fn_map_merged) = merge_properties(
            &self.f,
            &self.fn_map,
            &coverage.f,
            &coverage.fn_map,
            |map: &Function| key_from_loc(&map.loc),
        );

        self.f = fn_hits_merged;
        self.fn_map = fn_map_merged;
''', '''        let (f, fn_map) = merge_properties(
            &self.f,
            &self.fn_map,
            &coverage.f,
            &coverage.fn_map,
            |map: &Function| key_from_loc(&map.loc),
        );
        let (s, statement_map) = merge_properties(
            &self.s,
            &self.statement_map,
            &coverage.s,
            &coverage.statement_map,
            key_from_loc,
        );

        self.s = s;
        self.statement_map = statement_map;
        self.f = f;
        self.fn_map = fn_map;
'''))
t("o-totals-loop", "oxide", (FC, '''        branch_map.values().for_each(|branches| {
            ret.covered += branches.iter().filter(|hits| **hits > 0).count() as u32;
            ret.total += branches.len() as u32;
        });
''', '''        for branches in branch_map.values() {
            ret.total += branches.len() as u32;
            ret.covered += branches.iter().filter(|hits| **hits > 0).count() as u32;
        }
'''))
t("o-reset-for", "oxide", (FC, '''        for val in self.b.values_mut() {
            val.iter_mut().for_each(|x| *x = 0);
        }
''', '''        for val in self.b.values_mut() {
            for x in val.iter_mut() {
                *x = 0;
            }
        }
'''))
t("o-summary-map", "oxide", (FC, '''        let branches_true = if let Some(branches_true) = &self.b_t {
            Some(FileCoverage::compute_branch_totals(&branches_true))
        } else {
            None
        };
''', '''        let branches_true = self
            .b_t
            .as_ref()
            .map(|branches_true| FileCoverage::compute_branch_totals(branches_true));
'''))
t("o-sum-helper", "oxide", (CS, '''        self.lines.total += summary.lines.total;
        self.lines.covered += summary.lines.covered;
        self.lines.skipped += summary.lines.skipped;
        self.lines.pct = CoveragePercentage::Value(percent(self.lines.covered, self.lines.total));

''', '''        self.lines.add(&summary.lines);

'''), (CS, '''impl Totals {
''', '''impl Totals {
    fn add(&mut self, other: &Totals) {
        self.total += other.total;
        self.covered += other.covered;
        self.skipped += other.skipped;
        self.pct = CoveragePercentage::Value(percent(self.covered, self.total));
    }

'''))
t("o-sum-unwrap", "oxide", (CS, '''            let mut self_branches_true = if let Some(self_value) = self.branches_true {
                self_value
            } else {
                Default::default()
            };
''', '''            let mut self_branches_true = self.branches_true.unwrap_or_default();
'''))
t("b-name-unwrap", "builder", (SC, '''        let name = if let Some(name) = name {
            name.clone()
        } else {
            format!("(anonymous_{})", f)
        };
''', '''        let name = match name {
            Some(name) => name.clone(),
            None => format!("(anonymous_{})", f),
        };
'''))
t("b-name-map", "builder", (SC, '''        let name = if let Some(name) = name {
            name.clone()
        } else {
            format!("(anonymous_{})", f)
        };
''', '''        let name = name
            .clone()
            .unwrap_or_else(|| format!("(anonymous_{})", f));
'''))
t("b-order", "builder", (SC, '''        self.inner.statement_map.insert(s, loc.clone());
        self.inner.s.insert(s, 0);
        self.meta.last.s += 1;
        s
''', '''        self.meta.last.s += 1;
        self.inner.s.insert(s, 0);
        self.inner.statement_map.insert(s, *loc);
        s
'''))
t("b-bt-insert", "builder", (SC, '''            if self.inner.b_t.is_none() {
                self.inner.b_t = Some(Default::default());
            }

            self.inner
                .b_t
                .as_mut()
                .expect("b_t should be available")
                .insert(name, vec![]);
''', '''            self.inner
                .b_t
                .get_or_insert_with(Default::default)
                .insert(name, vec![]);
'''))
t("b-path-idx", "builder", (SC, '''        b_meta.locations.push(location.clone());
        counts.push(0);

        self.maybe_add_branch_true(name);

        (self
            .inner
            .b
            .get(&name)
            .expect("Counts should be available")
            .len()
            - 1) as u32
''', '''        let idx = counts.len() as u32;
        b_meta.locations.push(location.clone());
        counts.push(0);

        self.maybe_add_branch_true(name);

        idx
'''))
t("b-freeze-loop", "builder", (SC, '''            if branch.locations.len() == 0 {
                branches.swap_remove_entry(key);
                if let Some(branches_t) = branches_t {
                    branches_t.swap_remove_entry(key);
                }
                false
            } else {
                true
            }
''', '''            let keep = !branch.locations.is_empty();
            if !keep {
                branches.swap_remove_entry(key);
                if let Some(branches_t) = branches_t {
                    branches_t.swap_remove_entry(key);
                }
            }
            keep
'''))
t("s-range-or", "sites", (LR, '''    let span_hi_loc = source_map.lookup_char_pos(span.hi);
    let span_lo_loc = source_map.lookup_char_pos(span.lo);

    Range::new(
        span_lo_loc.line as u32,
        // TODO: swc_plugin::source_map::Pos to use to_u32() instead
        span_lo_loc.col.0 as u32,
        span_hi_loc.line as u32,
        span_hi_loc.col.0 as u32,
    )
''', '''    let lo = source_map.lookup_char_pos(span.lo);
    let hi = source_map.lookup_char_pos(span.hi);

    Range::new(lo.line as u32, lo.col.0 as u32, hi.line as u32, hi.col.0 as u32)
'''))
t("s-hint-helper", "sites", (HC, '''        if let Some(h) = h {
            let h_value = h.iter().find_map(|c| {
                COMMENT_RE
                    .captures(&c.text)
                    .map(|captures| captures.get(1).map(|c| c.as_str().trim().to_string()))
                    .flatten()
            });

            if let Some(h_value) = h_value {
                return Some(h_value);
            }
        }

        if let Some(l) = l {
            let l_value = l.iter().find_map(|c| {
                COMMENT_RE
                    .captures(&c.text)
                    .map(|captures| captures.get(1).map(|c| c.as_str().trim().to_string()))
                    .flatten()
            });

            return l_value;
        }
''', '''        if let Some(h) = h {
            let h_value = find_hint(&h);
            if h_value.is_some() {
                return h_value;
            }
        }

        if let Some(l) = l {
            return find_hint(&l);
        }
'''), (HC, '''pub fn lookup_hint_comments<C''', '''fn find_hint(comments: &Vec<Comment>) -> Option<String> {
    comments.iter().find_map(|c| {
        COMMENT_RE
            .captures(&c.text)
            .map(|captures| captures.get(1).map(|c| c.as_str().trim().to_string()))
            .flatten()
    })
}

pub fn lookup_hint_comments<C'''))
t("s-hint-andthen", "sites", (HC, '''                COMMENT_RE
                    .captures(&c.text)
                    .map(|captures| captures.get(1).map(|c| c.as_str().trim().to_string()))
                    .flatten()
''', '''                COMMENT_RE
                    .captures(&c.text)
                    .and_then(|captures| captures.get(1).map(|c| c.as_str().trim().to_string()))
''', 2))
t("s-hint-loop", "sites", (HC, '''            let l_value = l.iter().find_map(|c| {
                COMMENT_RE
                    .captures(&c.text)
                    .map(|captures| captures.get(1).map(|c| c.as_str().trim().to_string()))
                    .flatten()
            });

            return l_value;
''', '''            for comment in l.iter() {
                if let Some(captures) = COMMENT_RE.captures(&comment.text) {
                    if let Some(hint) = captures.get(1) {
                        return Some(hint.as_str().trim().to_string());
                    }
                }
            }
            return None;
'''))
t("s-ignore-match", "sites", (HC, '''    if let Some(comments) = comments.as_deref() {
        match comments {
            "next" => Some(IgnoreScope::Next),
            "if" => Some(IgnoreScope::If),
            "else" => Some(IgnoreScope::Else),
            _ => None,
        }
    } else {
        None
    }
''', '''    match comments.as_deref() {
        Some("next") => Some(IgnoreScope::Next),
        Some("if") => Some(IgnoreScope::If),
        Some("else") => Some(IgnoreScope::Else),
        _ => None,
    }
'''))
t("s-file-array", "sites", (HC, '''    vec![
        comments.get_leading(pos.lo),
        comments.get_leading(pos.hi),
        comments.get_trailing(pos.lo),
        comments.get_trailing(pos.hi),
    ]
    .iter()
    .any(|c| validate_comments(c))
''', '''    validate_comments(&comments.get_leading(pos.lo))
        || validate_comments(&comments.get_leading(pos.hi))
        || validate_comments(&comments.get_trailing(pos.lo))
        || validate_comments(&comments.get_trailing(pos.hi))
'''))
t("s-dirs-iter", "sites", (DI, '''    let mut index = 0;
    while index < stmts.len() && stmts[index].directive_continue() {
        index += 1;
    }
    index
''', '''    let mut count = 0;
    for stmt in stmts {
        if !stmt.directive_continue() {
            break;
        }
        count += 1;
    }
    count
'''))
t("s-dirs-take", "sites", (DI, '''    let mut index = 0;
    while index < stmts.len() && stmts[index].directive_continue() {
        index += 1;
    }
    index
''', '''    stmts
        .iter()
        .take_while(|stmt| stmt.directive_continue())
        .count()
'''))
t("e-range-once", "emit", (DD, '''            Expr::Object(ObjectLit {
                span: DUMMY_SP,
                props: vec![
                    create_ident_key_value_prop(&IDENT_LINE, create_num_lit_expr(value.start.line)),
                    create_ident_key_value_prop(
                        &IDENT_COLUMN,
                        create_num_lit_expr(value.start.column),
                    ),
                ],
            }),
''', '''            create_location_object_lit(&value.start),
'''), (DD, '''            Expr::Object(ObjectLit {
                span: DUMMY_SP,
                props: vec![
                    create_ident_key_value_prop(&IDENT_LINE, create_num_lit_expr(value.end.line)),
                    create_ident_key_value_prop(
                        &IDENT_COLUMN,
                        create_num_lit_expr(value.end.column),
                    ),
                ],
            }),
''', '''            create_location_object_lit(&value.end),
'''), (DD, '''fn create_range_object_prop(''', '''fn create_location_object_lit(value: &istanbul_oxide::Location) -> Expr {
    Expr::Object(ObjectLit {
        span: DUMMY_SP,
        props: vec![
            create_ident_key_value_prop(&IDENT_LINE, create_num_lit_expr(value.line)),
            create_ident_key_value_prop(&IDENT_COLUMN, create_num_lit_expr(value.column)),
        ],
    })
}

fn create_range_object_prop('''))
t("e-locations-loop", "emit", (DD, '''                elems: value
                    .locations
                    .iter()
                    .map(|value| {
                        Some(ExprOrSpread {
                            spread: None,
                            expr: Box::new(Expr::Object(ObjectLit {
                                span: DUMMY_SP,
                                props: create_range_object_prop(value),
                            })),
                        })
                    })
                    .collect(),
''', '''                elems: value
                    .locations
                    .iter()
                    .map(|value| {
                        Some(ExprOrSpread {
                            spread: None,
                            expr: Box::new(create_range_object_lit(value)),
                        })
                    })
                    .collect(),
'''))
t("e-empty", "emit", (DD, '''    if value.locations.len() > 0 {
''', '''    if !value.locations.is_empty() {
'''))
t("e-vec-init", "emit", (DD, '''    let mut props = vec![];

    // assign coverage['all']
    props.push(create_ident_key_value_prop(
        &IDENT_ALL,
        Expr::Lit(Lit::Bool(coverage_data.all.into())),
    ));
''', '''    // assign coverage['all']
    let mut props = vec![create_ident_key_value_prop(
        &IDENT_ALL,
        Expr::Lit(Lit::Bool(coverage_data.all.into())),
    )];
'''))
t("c-idx-match", "counters", (IC, '''    let expr = if let Some(idx) = idx {
        MemberExpr {''', '''    let expr = match idx {
        Some(idx) => MemberExpr {'''), (IC, '''            }),
        }
    } else {
        expr
    };
''', '''            }),
        },
        None => expr,
    };
'''))
t("c-member-helper", "counters", (IC, '''    let expr = if let Some(idx) = idx {
        MemberExpr {
            span: DUMMY_SP,
            obj: Box::new(Expr::Member(expr)),
            prop: MemberProp::Computed(ComputedPropName {
                span: DUMMY_SP,
                expr: Box::new(Expr::Lit(Lit::Num(Number {
                    span: DUMMY_SP,
                    value: idx as f64,
                    raw: None,
                }))),
            }),
        }
    } else {
        expr
    };
''', '''    let expr = if let Some(idx) = idx {
        computed_member(Expr::Member(expr), idx)
    } else {
        expr
    };
'''), (IC, '''/// Creates a expr like''', '''fn computed_member(obj: Expr, idx: u32) -> MemberExpr {
    MemberExpr {
        span: DUMMY_SP,
        obj: Box::new(obj),
        prop: MemberProp::Computed(ComputedPropName {
            span: DUMMY_SP,
            expr: Box::new(Expr::Lit(Lit::Num(Number {
                span: DUMMY_SP,
                value: idx as f64,
                raw: None,
            }))),
        }),
    }
}

/// Creates a expr like'''))


def apply(name, tree):
    for e in T[name]:
        p = tree + "/" + e[0]
        t = open(p).read()
        assert e[1] in t, (name, e[1])
        t = t.replace(e[1], e[2], e[3] if len(e) > 3 else 1)
        open(p, "w").write(t)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--units"]:
        print(U.get(sys.argv[2], "visit"))
    elif len(sys.argv) < 3:
        print("\n".join(T))
    else:
        apply(sys.argv[1], sys.argv[2])
