"""Which contracts decide which property, and how the compiled code is replayed."""
import json, os, re, concurrent.futures as cf
NIGHTLY = "nightly-2025-05-06"
TRUSTED = [
    "the extractor /verif/vx (rewrites listed in DESIGN.md, section Extraction)",
    "Verus and its bundled Z3; rustc's front end",
    "assumed contracts of indexmap::IndexMap, std iterators, Vec, String, Display for u32, derived Clone/Default (prelude/core.vrs)",
]
ASSUME = [
    "f32/f64 arithmetic is uninterpreted in the proofs: only which computation is performed is proved",
    "usize is treated as 64 bit or wider than any map or vector length used",
]
OX = "oxide"
MERGE = ["merge_properties", "merge_properties_hits_vec", "align_hits_vec", "key_from_loc", "FileCoverage::merge"]


def ox(fns, theorems=(), **k):
    d = {"units": {OX: {"fns": fns, "theorems": list(theorems)}}, "replay": "oxide", "level": "proof", "note": NOTE}
    d.update(k)
    return d


def sw(units=None, **k):
    d = {"units": units or {}, "replay": "instr", "level": "proof" if units else "exploration", "note": NOTE if units else NOTE_B,
         "secs_quick": 12, "secs_thorough": 240, "secs_alarm": 45}
    if not units:
        d["technique"] = "bounded: generated programs run through the compiled instrumenter and executed, against an oracle made with the program"
    d.update(k)
    return d


SC = "SourceCoverage::"
BUILDER = ("new", "as_ref", "new_statement", "new_function", "new_branch", "add_branch_path", "set_input_source_map", "freeze")
BLEMS = ["lem_new_branch", "lem_add_path", "lem_pruned_all", "lem_prune_step", "lem_fsel"]
EMIT = ["ToString@BranchType::to_string", "create_assignment_stmt", "create_str", "create_str_lit_expr", "create_num_lit_expr", "create_ident_key_value_prop", "create_str_key_value_prop", "create_range_object_prop", "create_range_object_lit",
        "create_fn_prop", "create_branch_vec_prop", "create_branch_prop", "create_coverage_data_object"]


def vfns(unit, pat=".*"):
    """the visitors' functions under contract in a unit"""
    out = []
    for f in {"visit": ["visit_new", "visit_fns"], "visit2": ["visit_switch", "visit_logic", "visit_root"]}[unit]:
        for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "units", f + ".vspec")):
            if l.startswith("%fn ") and re.search("(^|::|@)(" + pat + ")$", l.split()[2]):
                out.append(l.split()[2])
            if l.startswith("%impl ") and pat == ".*":
                out.append(l.split()[2] + "::*")
    return out


def vis(tags, pat=".*", theorems=(), only=None):
    """the visitors: those clauses of their contracts that are about the property"""
    r = {}
    for u in ("visit", "visit2"):
        f = vfns(u, pat)
        if f:
            r[u] = {"fns": f, "theorems": list(theorems) if u == "visit2" else [], "tags": tags, "only": pat != ".*" if only is None else only}
    return r


ENTER = "CoverageInstrumentationMutVisitEnter<\\w+>@\\w+::on_enter|on_enter|on_enter_with_span|on_exit"
IGNORED = ["thm_ignored_" + n for n in "stmts fn_decl fn_expr class_method constructor private_method method_prop getter setter arrow cond if switch assign_pat assign_pat_prop declarator class_prop private_prop expr_stmt with case bin counted".split()]
PARTS = ["thm_parts_stmts", "thm_parts_items", "thm_parts_lines"]
DIRS = ["thm_dirs_" + n for n in "stmts items lines module script fn expr".split()]
HINTS = ["COMMENT_FILE_REGEX", "COMMENT_RE", "should_ignore_file", "lookup_hint_comments", "should_ignore"]
REGEX = "the two regular expressions accept what ax_file_pat and ax_hint_pat say (their text is compared with the source)"
PARTLY = "per construct proved, whole programs bounded: every visitor method listed is proved, for all inputs, to record and to put into the code what its contract says, given the contracts of its callees; that swc's derived traversal reaches every node, and what the results mean when they run, is only checked on generated programs (bounded)"
TRAVERSAL = "swc_ecma_visit's derived traversal calls the visitor's method for each node below, in source order, and keeps a node's kind and span (axioms in prelude/visit.vrs)"
LIMIT = "fewer than 2^32 statements, functions, branches and paths in a file"
FIND = {"finders": {"fns": [l.split()[2] + ("::*" if l[1] == "i" else "") for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "units", "finders_fns.vspec")) if l.startswith(("%fn ", "%impl "))], "theorems": []}}
DECL = {"decl": {"tags": ["load"], "fns": ["create_global_stmt_template", "create_coverage_fn_decl", "create_coverage_fn_ident"], "theorems": ["thm_entry_stays", "thm_entries_apart", "thm_names_apart"]}}
JS_T = "what JavaScript does with the statements of the coverage function: variables, the three quote! templates, object literals, function values (axioms in prelude/decl.vrs)"
LIKES = ["lem_like_path", "lem_like_function", "lem_like_operands"] + ["thm_like_" + n for n in "stmts items lines instr fn_decl fn_expr class_method private_method method_prop constructor getter setter arrow cond if switch case operand bin inner_bin assign_pat assign_pat_prop cover declarator class_prop private_prop expr_stmt with counted entered guarded for for_in for_of while do_while".split()]
BARE = "the rules of prelude/like.vrs: (counter, e) does what e does where e's value is used; a counter as a statement does nothing else; a block does what its statements do where one statement is expected; => e is => { return e }; a node does what its parts do"
TOP = "get_coverage_templates|create_coverage_instrumentation_visitor|visit_mut_module_items|visit_mut_script"
HASHES = "the hashes of the paths of two files differ (64 bit, not cryptographic)"
NOTE_B = "bounded: random programs up to some hundred statements, run in a fresh realm before and after instrumentation; no proof"
NOTE = "every obligation of the listed functions is discharged for all inputs under the stated preconditions; trusts the extractor, Verus and the contracts assumed for indexmap/std in prelude/core.vrs, which the replay exercises on the compiled crate"
HOOK_COMMITS = ["1a145a3"]
NOT_APPLICABLE = []

PROPS = {
    "C01": ox(MERGE, ["thm_merge_adds", "thm_merge_commutes", "thm_merge_assoc", "thm_merge_counter", "thm_locations_apart"],
              assumptions=["both reports are well formed: every counter has metadata and vice versa, every branch has a first location", "no 32 bit counter overflows when the two reports are added"]),
    "C02": ox(MERGE, ["thm_truthy_adds"], assumptions=["as C01; every truthy counter belongs to a branch of its report"]),
    "C03": ox(["FileCoverage::merge", "FileCoverage::empty", "FileCoverage::from_file_path", "FileCoverage::from_file_coverage"], ["thm_placeholder"]),
    "C04": ox(["CoverageMap::new", "CoverageMap::default", "CoverageMap::get_files", "CoverageMap::get_coverage_for_file", "CoverageMap::add_coverage_for_file", "CoverageMap::merge", "CoverageMap::from_iter", "CoverageMap::filter", "FileCoverage::merge"],
              ["thm_map_merge_additive", "lem_from_step", "lem_cm_step"], assumptions=["reports well formed and without overflow as in C01; a map built by from_iter holds at most 2^32-1 counters per file"]),
    "C05": ox(["FileCoverage::get_line_coverage", "FileCoverage::get_uncovered_lines"], assumptions=["every statement counter has a location"]),
    "C06": ox(["FileCoverage::get_branch_coverage_by_line", "Coverage::new"], assumptions=["every branch has a counter list and a line or a location", "fewer than 2^32 paths on one line"]),
    "C07": ox(["FileCoverage::to_summary", "FileCoverage::compute_simple_totals", "FileCoverage::compute_branch_totals", "FileCoverage::get_line_coverage", "CoverageSummary::new", "Totals::new", "percent"],
              ["thm_covered_le_total", "lem_line_sets"], assumptions=["totals fit 32 bits"]),
    "C08": ox(["percent"], ["thm_pct_domain"], assumptions=["the value of the float expression is checked by running the compiled function on every q = floor(100000*covered/total) in 0..=100000, a complete domain by thm_pct_domain"]),
    "C09": ox(["CoverageSummary::merge", "CoverageSummary::new", "CoverageSummary::from", "CoverageSummary::default", "CoverageSummary::is_empty", "Totals::default", "Totals::new", "CoverageMap::get_coverage_summary"], ["lem_sum_step"],
              assumptions=["sums of the totals fit 32 bits"]),
    "C10": ox(["FileCoverage::reset_hits"]),
    "C11": sw({"builder": {"fns": [SC + f for f in BUILDER] + ["FileCoverage::from_file_path", "FileCoverage::empty"], "theorems": BLEMS}},
              assumptions=["the fields of the recorder are private: every history is a sequence of the contracted methods, freeze last (as in coverage_visitor.rs; the replay runs it)", "fewer than 2^32 statements, functions, branches, paths of one branch", "paths are only added to branches created before (otherwise the code panics)"]),
    "C12": sw(dict({"counters": {"fns": ["create_increase_counter_expr", "create_increase_true_expr"], "theorems": []}, "builder": {"fns": [SC + f for f in BUILDER], "theorems": BLEMS}}, **vis(["shape", "tree"])), level="other", note=PARTLY,
              assumptions=[TRAVERSAL, LIMIT], unproved={"whole programs": "that the counters and entries of all constructs add up: bounded"}),
    "C13": sw(dict({"finders": {"fns": [f for f in FIND["finders"]["fns"] if "Logical" in f], "theorems": []}, "counters": {"fns": ["create_increase_counter_expr", "validate_true_non_trivial", "create_increase_true_expr"], "theorems": []}, "builder": {"fns": [SC + f for f in BUILDER], "theorems": BLEMS}},
                   **vis(["tree", "shape"], "wrap_bin_expr_with_branch_counter|visit_mut_bin_expr|visit_mut_expr|replace_expr_with_branch_counter|\\w+::new")), level="other", note=PARTLY,
              assumptions=[TRAVERSAL, LIMIT], unproved={"whole programs": "the values counted when the program runs: bounded"}),
    "C14": sw(dict({"emit": {"fns": EMIT, "theorems": ["lem_hash_kv"]}, "decl": {"fns": ["create_global_stmt_template", "create_coverage_fn_decl"], "theorems": [], "tags": ["data"]}}, **vis(["top"], TOP)),
              assumptions=[JS_T, "function names are identifiers or (anonymous_N) and need no escapes in a string literal", "serde_json::to_string of the report does not fail", "swc's printer writes literals so that they denote their value (raw text if given)", TRAVERSAL],
              unproved={"printing": "swc's printer and the running program: bounded"}),
    "C15": sw(dict(DECL, emit={"fns": ["create_coverage_data_object", "create_assignment_stmt"], "theorems": ["lem_hash_kv"]}, **vis(["top"], TOP)), level="other", note=PARTLY,
              assumptions=[JS_T, HASHES, "one file per path: the same path comes with the same contents", "the global coverage variable is only changed by instrumented code"], unproved={"whole programs": "that the counter expressions run on the object the coverage function gives: bounded"}),
    "C16": sw(dict({"sites": {"fns": HINTS, "theorems": ["lem_first", "lem_any_step", "lem_any_opt"]}}, **vis(["hint"], ENTER + "|visit_mut_program")), level="other", note=PARTLY, assumptions=[REGEX, TRAVERSAL],
              unproved={"whole programs": "that everything else is reported as without the hint: bounded"}),
    "C17": sw(dict({"sites": {"fns": ["get_range_from_span"], "theorems": []}, "builder": {"fns": [SC + f for f in BUILDER], "theorems": BLEMS}}, **vis(["range"])), level="other", note=PARTLY,
              assumptions=["swc's source map gives the line and column of a position, its parser the span of a node", TRAVERSAL, LIMIT],
              unproved={"whole programs": "the spans the parser gives to nodes: bounded"}),
    "C18": sw(dict({"counters": {"fns": ["create_increase_counter_expr", "validate_true_non_trivial", "create_increase_true_expr"], "theorems": []}}, **vis(["like"], theorems=LIKES)), level="other", note=PARTLY, assumptions=[TRAVERSAL, LIMIT, BARE],
              unproved={"whole programs": "what the programs do when they run, before and after: bounded"}),
    "C19": sw(dict(FIND, **vis(["tree"])), level="other", note=PARTLY, assumptions=[TRAVERSAL, LIMIT], unproved={"whole programs": "the values of the counters when the program runs: bounded"}),
    "C20": sw(dict(FIND, **vis(["shape"])), level="other", note=PARTLY, assumptions=[TRAVERSAL, LIMIT], unproved={"whole programs": "the visitors' methods are reached for every node: bounded"}),
    "C21": sw(vis(["off"], theorems=IGNORED), level="other", note=PARTLY, assumptions=[TRAVERSAL, LIMIT], unproved={"whole programs": "the code around ignored code: bounded"}),
    "C22": sw(dict({"sites": {"fns": ["count_directives", "insert_after_directives"], "theorems": ["lem_prologue"]}}, **vis(["dirs"], "create_fn_instrumentation|insert_stmts_counter|visit_mut_(stmts|arrow_expr|getter_prop|setter_prop|module_items|script)", DIRS)), level="other", note=PARTLY,
              assumptions=[TRAVERSAL], unproved={"whole programs": "which lists of statements are bodies: bounded"}),
    "C23": sw(vis(["ctx"], theorems=PARTS), level="other", note=PARTLY, assumptions=[TRAVERSAL, LIMIT], unproved={"whole programs": "the instrumented program as a whole: bounded"}),
    "C24": sw(dict({"decl": {"fns": ["create_coverage_fn_ident"], "theorems": ["thm_names_apart"]}}, **vis(["ctx"], "get_coverage_templates|create_coverage_instrumentation_visitor|\\w+::new")), level="other", note=PARTLY,
              assumptions=[TRAVERSAL, LIMIT, HASHES, "create_coverage_fn_decl and create_global_stmt_template are functions of their arguments (what is verified of their text reads nothing else)"],
              unproved={"whole programs": "that the contracts of all methods determine the whole output: bounded (the same file is instrumented before and after others)"}),
    "C25": sw(vis(["safe"]), level="other", note=PARTLY, assumptions=[TRAVERSAL, LIMIT], unproved={"whole programs": "termination and panics of swc's own code and of the quote! templates: bounded"}),
}

# ---------------------------------------------------------------------------


def build_replay(kind, repo, build, sh):
    v = os.path.dirname(os.path.abspath(__file__))
    td = os.path.join(build, "replay-" + kind)
    env = {"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": td, "RUSTFLAGS": "--cfg vx_verif"}
    src = os.path.join(v, "replay-" + kind)
    if repo != "/repo":
        # development only: same harness against another tree
        import shutil
        d = os.path.join(build, "alt-" + kind)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d)
        c = os.path.join(d, "Cargo.toml")
        t = open(c).read().replace("../../repo", repo)
        open(c, "w").write(t)
        src = d
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], env=env, cwd=src, timeout=800)
    return rc == 0, e[-3000:]


RULES = {
    "oxide": "pseudo random reports (few distinct locations so that they collide, sparse and reordered ids, counters up to 70e6, placeholders, optional truthy counters), run through the compiled crate and compared with an oracle written from the property; non-trivial = has at least one statement or branch; distinct counted over the first 3000 cases per worker",
    "instr": "pseudo random programs made together with what must be reported for them (statements, functions, classes, hints, logical expressions, destructuring, switch, loops, generators, async, directives), plus for some properties a corpus of unusual ES/TS/JSX syntax, random hint texts, several files in one realm and repeated loading; instrumented by the compiled crate, run in a node vm realm, compared with the run of the original; distinct source texts counted over the first 3000 cases per worker",
}


def run_replay(kind, pid, seed, secs, tier, build, sh, repo, v):
    b = os.path.join(build, "replay-" + kind, "debug", "replay-" + kind)
    n = 8
    run = [b] if kind == "oxide" else ["node", "--experimental-vm-modules", "--no-warnings", os.path.join(v, "replay-js", "main.js")]
    tail = [] if kind == "oxide" else [b]
    outs = [os.path.join(build, "replay", "%s.%d.json" % (pid, i)) for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda i: sh(run + [pid, str(seed * 1000 + i), str(secs), outs[i]] + tail, timeout=secs + 120), range(n)))
    r = {"evaluations": 0, "distinct": 0, "samples": [], "rule": RULES[kind], "secs": secs}
    for i, (rc, o, e) in enumerate(rs):
        if rc == 0:
            j = json.load(open(outs[i]))
            r["evaluations"] += j["evaluations"]
            r["distinct"] += j["distinct_in_first_3000"]
            if len(r["samples"]) < 2:
                r["samples"].append(j["sample"][:1500])
        elif rc == 3 and "fail" not in r:
            r["fail"] = json.load(open(outs[i]))
            r["fail"]["rerun"] = " ".join(run + [pid, str(seed * 1000 + i), str(secs), "OUT.json"] + tail)
        elif rc not in (0, 3):
            r.setdefault("crash", (rc, e[-500:]))
    if "crash" in r and "fail" not in r:
        r["fail"] = {"what": "the harness died (exit %s): %s" % r["crash"]}
    return r
