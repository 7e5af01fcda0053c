// ------------------------------------------------- the properties as theorems
/// merging adds the hits of both reports at every source location
pub proof fn thm_merge_adds(a: FileCoverage, b: FileCoverage, r: FileCoverage, loc: Range, j: int)
  requires merge_spec(a, b, r), !a.all, !b.all,
  ensures
    stmt_hits(r, loc) == stmt_hits(a, loc) + stmt_hits(b, loc), has_stmt(r, loc) == (has_stmt(a, loc) || has_stmt(b, loc)),
    fn_hits(r, loc) == fn_hits(a, loc) + fn_hits(b, loc), has_fn(r, loc) == (has_fn(a, loc) || has_fn(b, loc)),
    path_hits(r, loc, j) == path_hits(a, loc, j) + path_hits(b, loc, j), has_branch(r, loc) == (has_branch(a, loc) || has_branch(b, loc)),
    n_paths(r, loc) == (if n_paths(a, loc) > n_paths(b, loc) { n_paths(a, loc) } else { n_paths(b, loc) }),
{ }
/// the order in which two reports are merged does not change any count
pub proof fn thm_merge_commutes(a: FileCoverage, b: FileCoverage, r1: FileCoverage, r2: FileCoverage, loc: Range, j: int)
  requires merge_spec(a, b, r1), merge_spec(b, a, r2), !a.all, !b.all,
  ensures stmt_hits(r1, loc) == stmt_hits(r2, loc), fn_hits(r1, loc) == fn_hits(r2, loc), path_hits(r1, loc, j) == path_hits(r2, loc, j)
{ }
/// nor does the grouping
pub proof fn thm_merge_assoc(a: FileCoverage, b: FileCoverage, c: FileCoverage, ab: FileCoverage, ab_c: FileCoverage, bc: FileCoverage, a_bc: FileCoverage, loc: Range, j: int)
  requires merge_spec(a, b, ab), merge_spec(ab, c, ab_c), merge_spec(b, c, bc), merge_spec(a, bc, a_bc), !a.all, !b.all, !c.all,
  ensures stmt_hits(ab_c, loc) == stmt_hits(a_bc, loc), fn_hits(ab_c, loc) == fn_hits(a_bc, loc), path_hits(ab_c, loc, j) == path_hits(a_bc, loc, j)
{ thm_merge_adds(a, b, ab, loc, j); thm_merge_adds(ab, c, ab_c, loc, j); thm_merge_adds(b, c, bc, loc, j); thm_merge_adds(a, bc, a_bc, loc, j); }
/// after a merge every location has exactly one counter, so the counter of id `i` holds the sum for its location
pub proof fn thm_merge_counter(a: FileCoverage, b: FileCoverage, r: FileCoverage, i: int)
  requires merge_spec(a, b, r), !a.all, !b.all, 0 <= i < r.s@.len(),
  ensures ({ let loc = val(r.statement_map@, u(r.s@[i].0)); r.s@[i].1 == stmt_hits(a, loc) + stmt_hits(b, loc) })
{
  broadcast use vx_base;
  let e = evs(r.s@, r.statement_map@);
  assert forall|x: int, y: int| 0 <= x < y < e.len() implies (#[trigger] e[x]).0 != (#[trigger] e[y]).0 by {
    assert(r.s@[x].0 == x && r.s@[y].0 == y);
    assert(r.statement_map@[x].0 == x && r.statement_map@[y].0 == y);
    assert(r.statement_map@[x].1.vx_key() != r.statement_map@[y].1.vx_key());
    lem_at(r.statement_map@, x); lem_at(r.statement_map@, y);
  }
  lem_tot_distinct(e, i);
  thm_merge_adds(a, b, r, val(r.statement_map@, u(r.s@[i].0)), 0);
}
/// distinct locations never share a counter
pub proof fn thm_locations_apart(p: Range, q: Range) requires p != q ensures rkey(p) != rkey(q) { if rkey(p) == rkey(q) { lem_rkey_inj(p, q); } }
/// merging with a placeholder report
pub proof fn thm_placeholder(a: FileCoverage, b: FileCoverage, r: FileCoverage)
  requires merge_spec(a, b, r) ensures b.all ==> r == a, a.all && !b.all ==> r == b, r.all == (a.all && b.all)
{ }
/// the truthy hits of the merged file are the sums, filed under ids of the merged branch map
pub proof fn thm_truthy_adds(a: FileCoverage, b: FileCoverage, r: FileCoverage, loc: Range, j: int)
  requires merge_spec(a, b, r), !a.all, !b.all, a.b_t is Some,
  ensures truthy_hits(r, loc, j) == truthy_hits(a, loc, j) + truthy_hits(b, loc, j), covered_by(bt_seq(r), r.branch_map@), has_truthy(r, loc) == (has_truthy(a, loc) || has_truthy(b, loc))
{ }
/// a covered count never exceeds its total, so the percentage is a function of some q in 0..=100000
pub proof fn thm_pct_domain(c: nat, t: nat)
  requires c <= t, t > 0,
  ensures 0 <= pct_q(c, t) <= 100000, pct_q(c, t) == 100000 <==> c == t, pct_q(c, t) == 0 <==> 100000 * c < t, pct_spec(c, t) == pct_of(pct_q(c, t))
{
  let q = pct_q(c, t);
  let (ci, ti) = (c as int, t as int);
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(100000 * ci, ti);
  let m = (100000 * ci) % ti;
  assert(0 <= m < ti) by { vstd::arithmetic::div_mod::lemma_mod_bound(100000 * ci, ti); }
  assert(100000 * ci == ti * q + m);
  assert(q >= 0) by(nonlinear_arith) requires 100000 * ci == ti * q + m, 0 <= m < ti, ci >= 0;
  assert(q <= 100000) by(nonlinear_arith) requires 100000 * ci == ti * q + m, 0 <= m < ti, ci <= ti;
  assert(q == 100000 ==> ci == ti) by(nonlinear_arith) requires 100000 * ci == ti * q + m, 0 <= m < ti, ci <= ti;
  assert(ci == ti ==> q == 100000) by(nonlinear_arith) requires 100000 * ci == ti * q + m, 0 <= m < ti, ti > 0;
  assert(q == 0 ==> 100000 * ci < ti) by(nonlinear_arith) requires 100000 * ci == ti * q + m, 0 <= m < ti;
  assert(100000 * ci < ti ==> q == 0) by(nonlinear_arith) requires 100000 * ci == ti * q + m, 0 <= m < ti, ci >= 0;
}
pub proof fn thm_covered_le_total(f: FileCoverage)
  ensures nposv(f.s@) <= f.s@.len(), nposv(f.f@) <= f.f@.len(), bcov(f.b@) <= btot(f.b@), bcov(bt_seq(f)) <= btot(bt_seq(f)), n_hit_lines(f) <= n_lines(f)
{
  lem_nposv_le(f.s@); lem_nposv_le(f.f@); lem_bcov_le(f.b@); lem_bcov_le(bt_seq(f));
  let e = lev(f.s@, f.statement_map@);
  assert forall|l: u32| hit_line_set(e).contains(l) implies line_set(e).contains(l) by { lem_line_set(e, l); }
  vstd::set_lib::lemma_len_subset(hit_line_set(e), line_set(e));
}
pub proof fn lem_nposv_le<K>(m: Seq<(K, u32)>) ensures nposv(m) <= m.len() decreases m.len() { if m.len() > 0 { lem_nposv_le(m.drop_last()); } }
