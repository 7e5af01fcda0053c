%opt crates=packages/istanbul-oxide
%include ../prelude/core.vrs
%include ../prelude/merge.vrs
%types range.rs: Location, Range
%types coverage.rs: Coverage
%types types.rs: Function, BranchType, Branch, LineHitMap, StatementMap, FunctionMap, BranchMap, BranchHitMap, BranchCoverageMap
%types source_map.rs: SourceMap
%types file_coverage.rs: FileCoverage
%types coverage_summary.rs: CoveragePercentage, Totals, CoverageSummary
%include ../prelude/merge2.vrs
%include ../prelude/merge_keys.vrs
%include ../prelude/merge_align.vrs
%include ../prelude/views.vrs
%include view_fns.vspec
%include ../prelude/totals.vrs
%include totals_fns.vspec
