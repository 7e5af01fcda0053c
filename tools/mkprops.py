#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
OX = "packages/istanbul-oxide/src/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                                                 "observe_at": observe, "hook_needed": hook}})


p("C01", "Merging two reports of a file sums hits per source location",
  "Merging coverage of one file with other coverage of the same file gives, for every source location of a statement, function or branch, the sum of the hits both inputs recorded there (per path for branches); no location of either input is lost, and no location is invented. After the merge every counter id has metadata and every metadata entry has a counter. The per-location totals do not depend on the order or grouping of merges.",
  ["inputs", "histories"], "All pairs of well-formed reports (any ids, any order, any overlap of locations, entries that share a location) whose sums fit 32 bits, and all sequences of merges.",
  "The tests merge a handful of hand-written reports with one or two entries each; duplicate locations, sparse ids and branches of different arity are never sampled.",
  [OX + "file_coverage.rs"], [("keyed union of counters by location", OX + "file_coverage.rs: merge_properties, merge_properties_hits_vec, key_from_loc"), ("merge", OX + "file_coverage.rs: FileCoverage::merge")],
  ["FileCoverage::merge", "CoverageMap::merge"])
p("C02", "Merging keeps branch truthiness counters with their branch",
  "After merging a report into one that tracks truthiness, the truthy-path counters reported for a branch are exactly the sums of the truthy-path counters the inputs recorded for the branch at that location. A truthy counter never ends up under the id of a different branch.",
  ["inputs", "histories"], "All pairs of well-formed reports, with and without truthy counters, with any numbering of branches.",
  "The tests merge truthy counters only for reports that number the same branches the same way; misalignment needs different numberings.",
  [OX + "file_coverage.rs"], [("alignment of bT with branchMap on merge", OX + "file_coverage.rs: FileCoverage::merge, align_hits_vec")], ["FileCoverage::merge"])
p("C03", "A placeholder report never overrides or pollutes real coverage",
  "Merging a report that is marked as a placeholder for an unexecuted file into another report changes nothing. Merging anything real into a placeholder makes it equal to the incoming report.",
  ["inputs"], "All pairs of reports in which one or both carry the placeholder mark.",
  "The tests cover one placeholder pair in one direction.",
  [OX + "file_coverage.rs"], [("all flag handling", OX + "file_coverage.rs: FileCoverage::merge, empty, from_file_path")], ["FileCoverage::merge"])
p("C04", "A coverage map holds one merged report per file path",
  "A coverage map contains exactly the paths that were added to it, each holding the merge of everything added under that path and not removed by a filter. Filtering keeps exactly the paths the predicate accepts with their reports unchanged, and listing and lookup agree with the contents.",
  ["inputs", "histories"], "All sequences of construct, add, merge, filter, list and look up.",
  "The tests run single operations on maps of one or two files; they cannot cover every history of operations.",
  [OX + "coverage_map.rs"], [("path keyed map", OX + "coverage_map.rs: new, from_iter, merge, add_coverage_for_file, filter, get_files, get_coverage_for_file")], ["CoverageMap"])
p("C05", "Line coverage is the maximum statement hit starting on that line",
  "The line coverage of a file has an entry for exactly the lines on which a counted statement starts, and the entry is the largest hit count of those statements. The uncovered lines are exactly the lines with a zero entry.",
  ["inputs"], "All reports in which every statement counter has a location.",
  "Tests use one report with a few statements; several statements on one line in every order of hits and ids are not sampled.",
  [OX + "file_coverage.rs"], [("fold of statement hits by line", OX + "file_coverage.rs: get_line_coverage, get_uncovered_lines")], ["FileCoverage::get_line_coverage", "FileCoverage::get_uncovered_lines"])
p("C06", "Branch coverage by line counts each branch path exactly once",
  "For every line, the branch coverage reported is the number of paths and of paths taken at least once over all branches that belong to that line, and its percentage is that of those two numbers. Lines with no branch have no entry.",
  ["inputs"], "All reports in which every branch has a counter list and a line or a location.",
  "The one test has a single branch per line.",
  [OX + "file_coverage.rs", OX + "coverage.rs"], [("grouping of branch paths by line", OX + "file_coverage.rs: get_branch_coverage_by_line"), ("coverage value", OX + "coverage.rs: Coverage::new")], ["FileCoverage::get_branch_coverage_by_line"])
p("C07", "Summary totals equal the counts of the raw data",
  "In a file's summary the total of each metric is the number of counters of that metric (lines: distinct start lines, branches: paths) and covered is the number of those with a nonzero count, so covered never exceeds total. Truthy branch totals are reported from the truthy counters in the same way.",
  ["inputs"], "All reports whose totals fit 32 bits.",
  "Tests compare against a few fixed summaries.",
  [OX + "file_coverage.rs", OX + "coverage_summary.rs"], [("totals", OX + "file_coverage.rs: to_summary, compute_simple_totals, compute_branch_totals")], ["FileCoverage::to_summary"])
p("C08", "Percentages are truncated, never rounded up, and bounded",
  "The percentage of covered over total is 100 when nothing is to be covered, and otherwise the exact ratio truncated to two decimals, so it lies in 0..100 and is 100 only when everything is covered and 0 only when the ratio is below one hundredth of a percent.",
  ["inputs"], "All pairs covered <= total of 32 bit numbers.",
  "Tests check three pairs; the floating point expression could be wrong at any of 2^63 others.",
  [OX + "percent.rs"], [("percent", OX + "percent.rs: percent")], ["CoverageSummary", "Coverage"], "packages/istanbul-oxide/src/lib.rs: vx_hooks (cfg vx_verif) re-exports percent")
p("C09", "Summaries add up: merging sums each metric",
  "Merging two summaries adds total, covered and skipped of each metric and recomputes the percentage from the sums. The summary of a coverage map is the sum of the summaries of its files, whatever their order.",
  ["inputs", "histories"], "All summaries and maps whose sums fit 32 bits.",
  "Tests merge two fixed summaries.",
  [OX + "coverage_summary.rs", OX + "coverage_map.rs"], [("summary merge", OX + "coverage_summary.rs: CoverageSummary::merge"), ("map summary", OX + "coverage_map.rs: get_coverage_summary")], ["CoverageSummary::merge", "CoverageMap::get_coverage_summary"])
p("C10", "Resetting hits zeroes every counter and nothing else",
  "After a reset every statement, function, branch and truthy counter is zero, the set of counters and the length of each branch's counters are unchanged, and all location metadata is unchanged.",
  ["inputs"], "All reports.",
  "One fixed report is reset in a test.",
  [OX + "file_coverage.rs"], [("reset_hits", OX + "file_coverage.rs: reset_hits")], ["FileCoverage::reset_hits"])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops_swc.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops_swc.py")) else None
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(v, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
