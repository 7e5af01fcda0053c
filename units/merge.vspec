%opt crates=packages/istanbul-oxide
%include ../prelude/core.vrs
%include ../prelude/merge.vrs
%types range.rs: Location, Range
%types types.rs: Function, BranchType, Branch, LineHitMap, StatementMap, FunctionMap, BranchMap, BranchHitMap
%types source_map.rs: SourceMap
%types file_coverage.rs: FileCoverage
%include ../prelude/merge2.vrs
%include ../prelude/merge_keys.vrs
%include ../prelude/merge_align.vrs
%include merge_fns.vspec
