%opt crates=packages/swc-coverage-instrument packages/istanbul-oxide registry:swc_ecma_ast
%opt world=StmtVisitor::new SwitchCaseVisitor::new LogicalExprVisitor::new CoverageVisitor::new visit_mut_* replace_expr_with_stmt_counter replace_expr_with_branch_counter wrap_bin_expr_with_branch_counter create_stmt_increase_counter_expr mark_prepend_stmt_counter create_fn_instrumentation cover_statement insert_stmts_counter get_coverage_templates create_coverage_instrumentation_visitor
%include ../prelude/core.vrs
%include ../prelude/swcast.vspec
%include ../prelude/js.vrs
%types range.rs: Location, Range
%types types.rs: BranchType
%types hint_comments.rs: IgnoreScope
%types utils/node.rs: Node
%types source_map.rs: SourceMap
%types instrument_options.rs: InstrumentLogOptions, InstrumentOptions
%include ../prelude/sites.vrs
%include ../prelude/sites2.vrs
%include ../prelude/recdefs.vrs
%include ../prelude/visit.vrs
%include ../prelude/visit_spec.vrs
%include ../prelude/like.vrs
%types stmt_like_visitor.rs: StmtVisitor
%types switch_case_visitor.rs: SwitchCaseVisitor
%types logical_expr_visitor.rs: LogicalExprVisitor
%types coverage_visitor.rs: CoverageVisitor
%include ../prelude/visit_impl.vrs
%includeext sites_fns.vspec
%includeext idents.vspec
%include visit_ext.vspec
%includeext visit_new.vspec
%include visit_switch.vspec
%include visit_logic.vspec
%include visit_root.vspec
