%opt crates=packages/swc-coverage-instrument packages/istanbul-oxide registry:swc_ecma_ast
%include ../prelude/core.vrs
%include ../prelude/swcast.vspec
%types range.rs: Location, Range
%types coverage.rs: Coverage
%types coverage_summary.rs: CoveragePercentage
%types types.rs: Function, BranchType, Branch, LineHitMap, StatementMap, FunctionMap, BranchMap, BranchHitMap, BranchCoverageMap
%types source_map.rs: SourceMap
%types file_coverage.rs: FileCoverage
%include ../prelude/js.vrs
%include ../prelude/decl0.vrs
%include ../prelude/emit.vrs
%include emit_fns.vspec
%include emit_top.vspec
