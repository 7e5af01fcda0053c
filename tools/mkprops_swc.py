SW = "packages/swc-coverage-instrument/src/"
MV, MH = SW + "macros/instrumentation_visitor.rs", SW + "macros/instrumentation_counter_helper.rs"
MS = SW + "macros/instrumentation_stmt_counter_helper.rs"
VI = [SW + "visitors/coverage_visitor.rs", SW + "visitors/stmt_like_visitor.rs", SW + "visitors/switch_case_visitor.rs", SW + "visitors/logical_expr_visitor.rs"]
SC = SW + "source_coverage/mod.rs"
TPL = SW + "coverage_template/"
ALLPROG = "All JavaScript programs (scripts and modules) the parser accepts, under all options."
OBS = ["create_coverage_instrumentation_visitor: emitted program and emitted coverage data"]
p("C11", "Recorded coverage ids are contiguous and metadata and counters stay in step",
  "For every instrumented file, statement and function ids are 0,1,2,... without gaps, every id has both a location entry and a counter that starts at zero, and every reported branch has at least one path and exactly one counter per path. A branch that turned out to have no path is not reported at all, and a truthy counter list exists only for reported logical branches, with one counter per path.",
  ["inputs", "histories"], "All sequences of entries the instrumenter records for one file, hence all programs and options.",
  "Unit tests record one or two entries; the fixtures compare a few fixed programs.",
  [SC], [("builder of the coverage data", SC + ": new_statement, new_function, new_branch, add_branch_path, freeze")], OBS)
p("C12", "Counters in the code and coverage entries correspond one to one",
  "Every counter expression in the instrumented program adds exactly one to exactly one counter that exists in the emitted coverage data, and every counter in the data (statement, function, each branch path, each truthy path) has exactly one counter expression in the program.",
  ["inputs"], ALLPROG,
  "The fixtures fix the printed output of a few dozen programs; a counter lost or duplicated on another combination of syntax goes unnoticed.",
  [MV, MH, SW + "instrument/create_increase_counter_expr.rs"] + VI, [("counter expression", SW + "instrument/create_increase_counter_expr.rs"), ("placement", MH + ": mark_prepend_stmt_counter, create_*_counter"), ("visitors", MV)], OBS)
p("C13", "Truthy counters count the evaluations that yielded a truthy value",
  "With logic reporting on, every logical expression's path has a truthy counter whose value after the program ran is the number of evaluations of that operand that produced a value istanbul considers truthy (truthy, and not an empty array or plain object), never more than the path's own counter; the value of the expression is unchanged and each operand is evaluated exactly once.",
  ["inputs"], "All programs with logical expressions in any position, and all values the operands can take, with logic reporting on.",
  "One fixture shows the generated text; it is never run on values.",
  [SW + "instrument/create_increase_true_expr.rs", MH, SC], [("truthy wrapper", SW + "instrument/create_increase_true_expr.rs"), ("wrapping of logical leaves", MH + ": wrap_bin_expr_with_branch_counter, replace_expr_with_branch_counter"), ("recording", SC + ": new_branch, add_branch_path")], ["running the instrumented program: bT counters"])
p("C14", "The emitted coverage object is exactly the recorded coverage data",
  "The coverage object the instrumented program starts with denotes exactly the data the instrumenter recorded: the same path, ids, locations, names, branch types, truthy counters and the given input source map, with all counters zero, whatever characters the path or the names contain.",
  ["inputs"], "All recorded coverage data, all file paths and all input source maps.",
  "Fixtures check the text for one simple path name and one source map.",
  [TPL + "create_coverage_data_object.rs", TPL + "create_coverage_fn_decl.rs"], [("object literal", TPL + "create_coverage_data_object.rs"), ("template", TPL + "create_coverage_fn_decl.rs")], ["running the instrumented program: coverage object before the first counter"])
p("C15", "Coverage of all loaded files accumulates in one global object per path",
  "Running instrumented files leaves, in the global coverage variable, one entry per file path with that file's counters; loading a file again adds to its counters instead of resetting them, and files never count into each other's entries.",
  ["inputs", "histories"], "All sequences of loading and re-loading instrumented files in one realm, all coverage variable names.",
  "The fixtures never run the emitted code, and the tests never load a file twice.",
  [TPL + "create_coverage_fn_decl.rs", TPL + "create_global_stmt_template.rs", TPL + "create_assignment_stmt.rs"], [("coverage function", TPL + "create_coverage_fn_decl.rs"), ("global lookup", TPL + "create_global_stmt_template.rs")], ["running instrumented programs: the global coverage variable"])
p("C16", "Hint comments are recognised exactly, and affect only the code they precede",
  "A leading comment whose text is, after optional white space, 'istanbul ignore next', 'if', 'else' or 'file' followed by a non-word character or the end is a hint; any other comment is not and changes nothing. A hint affects only the statement, path or file it belongs to: what is reported for the rest of the file is the same as without it, and ignore file leaves the whole program untouched.",
  ["inputs"], "All comment texts, several comments in a row, all kinds of statement below them, all nesting.",
  "The fixtures use the plain hint texts on a few kinds of statement.",
  [SW + "utils/hint_comments.rs", MV], [("parsing of hints", SW + "utils/hint_comments.rs"), ("entry and exit of ignored code", SW + "macros/create_instrumentation_visitor.rs: on_enter, on_exit")], OBS)
p("C17", "Reported locations are the exact source ranges of what they name",
  "Each reported statement, function (declaration and body), branch and branch path carries the 1-based line and 0-based column of the start and end of the source text it stands for, for any mix of line lengths and multi-byte characters; code without a source position gets the empty range and never makes the instrumenter fail.",
  ["inputs"], "All source texts, including non-ASCII text and code over many lines.",
  "The fixtures are ASCII and compare a few dozen ranges.",
  [SW + "utils/lookup_range.rs", MV, MH], [("range from span", SW + "utils/lookup_range.rs: get_range_from_span")], ["emitted coverage data: statementMap, fnMap, branchMap"])
p("C18", "Instrumentation preserves what the program does",
  "An instrumented program performs the same observable actions in the same order, yields the same values and throws the same exceptions as the original; apart from the coverage machinery it is the original program, with its statements, expressions and declarations in the original order, none dropped, duplicated or moved into another scope.",
  ["inputs", "schedules"], ALLPROG,
  "The tests compare printed output of a few fixtures and never run it against the original.",
  [MV, MH, MS] + VI + [SW + "instrument/create_increase_counter_expr.rs"], [("visitors", MV), ("helpers", MH), ("statement lists", SW + "macros/visit_mut_for_like.rs")], ["running the instrumented program against the original"])
p("C19", "Hit counts equal the number of executions",
  "After the instrumented program ran, the count of each reported statement is the number of times it started, of each function the number of calls that reached its body, and of each branch path the number of times it was taken (each switch case entered, each operand of a logical expression evaluated, each default value used).",
  ["inputs", "schedules"], ALLPROG,
  "The fixtures never run; a counter on the wrong side of a statement or in the wrong branch looks plausible in the text.",
  [MV, MH, MS] + VI, [("placement of counters", MH + ": mark_prepend_stmt_counter, create_fn_instrumentation, wrap_cond_expr_with_branch_counter"), ("statement lists", MS)], ["running the instrumented program: the coverage counters"])
p("C20", "Everything that executes and is not ignored is reported",
  "Every statement, function with a body, if, conditional, switch, logical expression and default value of the program that is not excluded by a hint or an option has its entry in the coverage data, each with the right kind, name and number of paths.",
  ["inputs"], ALLPROG,
  "The fixtures list a few dozen expected entries; an entry lost for a particular nesting of syntax is not noticed.",
  [MV, MH] + VI, [("visitors", MV)], ["emitted coverage data"])
p("C21", "Ignored code is not reported and never counts",
  "Code below an ignore hint, the ignored path of an if statement and class methods named in the ignore option contribute no statement, function or branch to the coverage data and no counter to the program, while the code around them is reported as if the hint were not there.",
  ["inputs"], "All programs with hints at all places hints are honoured, and all sets of ignored class methods.",
  "Fixtures have one hint each; hints next to each other, nested hints or hints on unusual statements are not sampled.",
  [MV, SW + "utils/hint_comments.rs", SW + "macros/create_instrumentation_visitor.rs"], [("entry and exit of ignored code", SW + "macros/create_instrumentation_visitor.rs: on_enter, on_exit"), ("visitors", MV)], OBS)
p("C22", "Directives keep their effect",
  "Every directive prologue of a script, module or function (such as 'use strict') is, in the instrumented program, still the directive prologue of the same body with the same directives in the same order, and no other string becomes a directive.",
  ["inputs"], "All programs with any mix of directives and functions.",
  "One fixture has one directive.",
  [SW + "utils/directives.rs", MV, MH, VI[0]], [("insertion below directives", SW + "utils/directives.rs"), ("insertion of the coverage function", VI[0])], OBS)
p("C23", "What is reported for a statement does not depend on its neighbours",
  "The entries reported for a program are those reported for each of its top level statements on its own, in source order: no statement changes how the statements before or after it are instrumented.",
  ["inputs", "histories"], "All programs as sequences of statements; all orders of visiting them.",
  "Each fixture is one program; state that leaks from one node to the next shows only for particular sequences.",
  [SW + "macros/create_instrumentation_visitor.rs", MV, MH], [("visitor state", SW + "macros/create_instrumentation_visitor.rs: on_enter, on_exit"), ("pending counters", MH + ": mark_prepend_stmt_counter, visit_mut_fn handling")], OBS)
p("C24", "Output depends only on the file and the options, not on earlier files",
  "Instrumenting a file gives the same program and the same coverage data whatever files the process instrumented before, and the code emitted for different files in one process works together in one realm.",
  ["histories"], "All sequences of files instrumented by one process.",
  "Each test instruments one file per process.",
  [SW + "visitors/coverage_visitor.rs", SW + "constants/idents.rs", SW + "macros/create_instrumentation_visitor.rs"], [("name of the coverage function", TPL + "create_coverage_fn_decl.rs: create_coverage_fn_ident"), ("shared identifiers", SW + "constants/idents.rs")], OBS)
p("C25", "The instrumenter never fails on a program the parser accepts",
  "For every program the parser accepts, including TypeScript and JSX syntax, instrumentation terminates with a program and never panics, whatever the options, comments and file name.",
  ["inputs"], "All parseable JavaScript, TypeScript and JSX programs.",
  "The fixtures contain few kinds of syntax; a panic needs a node of an unusual shape.",
  [MV, MH, SC] + VI, [("visitors", MV), ("helpers", MH)], ["create_coverage_instrumentation_visitor"])
