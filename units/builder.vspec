%opt crates=packages/swc-coverage-instrument packages/istanbul-oxide
%include ../prelude/core.vrs
%types range.rs: Location, Range
%types coverage.rs: Coverage
%types coverage_summary.rs: CoveragePercentage
%types types.rs: Function, BranchType, Branch, LineHitMap, StatementMap, FunctionMap, BranchMap, BranchHitMap, BranchCoverageMap
%types source_map.rs: SourceMap
%types file_coverage.rs: FileCoverage
%types source_coverage/mod.rs: SourceCoverageMetaHitCount, SourceCoverageMeta, SourceCoverage
%include ../prelude/recdefs.vrs
%include ../prelude/builder_defs.vrs
%include ../prelude/builder.vrs
%include ../prelude/rec.vrs
%include ../prelude/rec_lem.vrs
%include builder_fns.vspec
