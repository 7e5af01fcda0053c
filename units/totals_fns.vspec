%fn file_coverage.rs FileCoverage::to_summary
%ret r
  requires covered_by(self.s@, self.statement_map@), counts_fit(*self),
  ensures summary_spec(*self, r),
%locals line_coverage=0
%callafter get_line_coverage 0
  proof { lem_line_sets(line_coverage@, lev(self.s@, self.statement_map@)); }

%fn coverage_summary.rs Totals::new
%params total, covered, skipped, pct
%ret r
  ensures r.total == total, r.covered == covered, r.skipped == skipped, r.pct == pct,

%fn coverage_summary.rs Totals::default
%ret r
  ensures totals_zero(r),

%fn coverage_summary.rs CoverageSummary::new
%params lines, statements, functions, branches, branches_true
%ret r
  ensures r.lines == lines, r.statements == statements, r.functions == functions, r.branches == branches, r.branches_true == branches_true,

%fn coverage_summary.rs CoverageSummary::from
%params summary
%ret r
  ensures r == *summary,

%fn coverage_summary.rs CoverageSummary::default
%ret r
  ensures totals_zero(r.lines), totals_zero(r.statements), totals_zero(r.functions), totals_zero(r.branches), r.branches_true is Some, totals_zero(r.branches_true->0),

%fn coverage_summary.rs CoverageSummary::is_empty
%ret r
  ensures r == (self.lines.total == 0),

%fn coverage_summary.rs CoverageSummary::merge
%params summary
  requires summary_fit(*old(self), *summary),
  ensures summary_add(*old(self), *summary, *final(self)),
