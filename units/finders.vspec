%opt crates=packages/swc-coverage-instrument registry:swc_ecma_ast
%include ../prelude/core.vrs
%include ../prelude/swcast.vspec
%include ../prelude/js.vrs
%include ../prelude/finders.vrs
%types finders.rs: HoistingFinder, BlockStmtFinder, StmtFinder, ExprFinder, LogicalExprLeafFinder
%include ../prelude/finders_impl.vrs
%include finders_fns.vspec
