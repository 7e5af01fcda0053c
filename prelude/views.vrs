// -------------------------------------------------------------- line coverage
/// (start line, hits) of every statement counter
pub open spec fn lev(hits: Seq<(u32, u32)>, map: Seq<(u32, Range)>) -> Seq<(u32, nat)> { Seq::new(hits.len(), |i: int| (val(map, u(hits[i].0)).start.line, hits[i].1 as nat)) }
/// `lc` maps each line on which a statement starts to the largest hit count among them
pub open spec fn line_cov(lc: Seq<(u32, u32)>, e: Seq<(u32, nat)>) -> bool {
  &&& forall|l: u32| #[trigger] hask(lc, u(l)) == ev_has(e, l)
  &&& forall|l: u32| #[trigger] hask(lc, u(l)) ==> val(lc, u(l)) == ev_max(e, l)
  &&& lc.len() <= e.len()
}
pub proof fn lem_has_push<K>(e: Seq<(K, nat)>, n: int, k: K)
  requires 0 <= n < e.len(),
  ensures ev_has(e.take(n + 1), k) == (ev_has(e.take(n), k) || e[n].0 == k)
{
  let a = e.take(n + 1); let b = e.take(n);
  if ev_has(b, k) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].0 == k; assert(a[i] == b[i]); }
  if ev_has(a, k) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].0 == k; if i < n { assert(b[i] == a[i]); } }
  if e[n].0 == k { assert(a[n].0 == k); }
}
pub proof fn lem_line_step(lc: Seq<(u32, u32)>, e: Seq<(u32, nat)>, n: int, line: u32, c: u32, lc2: Seq<(u32, u32)>)
  requires im_wf(lc), 0 <= n < e.len(), line_cov(lc, e.take(n)), e[n] == (line, c as nat),
    lc2 == (if hask(lc, u(line)) && val(lc, u(line)) >= c { lc } else { put(lc, line, c) }),
  ensures line_cov(lc2, e.take(n + 1)), im_wf(lc2)
{
  broadcast use vx_base;
  if lc2 != lc || !(hask(lc, u(line)) && val(lc, u(line)) >= c) { lem_put(lc, line, c, lc2); }
  assert forall|l: u32| #[trigger] hask(lc2, u(l)) == ev_has(e.take(n + 1), l) by { lem_has_push(e, n, l); assert(hask(lc, u(l)) == ev_has(e.take(n), l)); }
  assert forall|l: u32| #[trigger] hask(lc2, u(l)) implies val(lc2, u(l)) == ev_max(e.take(n + 1), l) by {
    lem_tot_push(e, n, l); lem_has_push(e, n, l);
    assert(hask(lc, u(l)) == ev_has(e.take(n), l));
    if !ev_has(e.take(n), l) { lem_tot_absent(e.take(n), l); }
  }
}
// ---------------------------------------------------- branch coverage by line
pub open spec fn b_line(b: Branch) -> u32 { if b.line is Some { b.line->0 } else { b.loc->0.start.line } }
pub open spec fn has_line(b: Branch) -> bool { b.line is Some || b.loc is Some }
/// concatenated path counters of the branches on line `l`, in branch map order
pub open spec fn line_paths(map: Seq<(u32, Branch)>, b: Seq<(u32, Vec<u32>)>, l: u32) -> Seq<u32> decreases map.len() {
  if map.len() == 0 { Seq::empty() } else {
    let p = line_paths(map.drop_last(), b, l);
    if b_line(map.last().1) == l { p + val(b, u(map.last().0))@ } else { p }
  }
}
pub open spec fn line_has(map: Seq<(u32, Branch)>, l: u32) -> bool { exists|i: int| 0 <= i < map.len() && b_line((#[trigger] map[i]).1) == l }
pub open spec fn npos(s: Seq<u32>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { npos(s.drop_last()) + (if s.last() > 0 { 1nat } else { 0 }) } }
pub proof fn lem_npos(s: Seq<u32>, n: int) requires 0 <= n < s.len() ensures npos(s.take(n + 1)) == npos(s.take(n)) + (if s[n] > 0 { 1nat } else { 0 }) { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lem_npos_le(s: Seq<u32>) ensures npos(s) <= s.len() decreases s.len() { if s.len() > 0 { lem_npos_le(s.drop_last()); } }
pub open spec fn branch_pct(c: int, t: int) -> f32 { fmul(fdiv(int_to_f32(c), int_to_f32(t)), int_to_f32(100)) }
pub open spec fn branch_lines(map: Seq<(u32, Branch)>, b: Seq<(u32, Vec<u32>)>, r: Seq<(u32, Coverage)>) -> bool {
  &&& forall|l: u32| #[trigger] hask(r, u(l)) == line_has(map, l)
  &&& forall|l: u32| #[trigger] hask(r, u(l)) ==> {
      let c = val(r, u(l)); let p = line_paths(map, b, l);
      c.covered == npos(p) && c.total == p.len() && c.coverage == branch_pct(npos(p) as int, p.len() as int) }
}
pub open spec fn pre_ok(pre: Seq<(u32, Vec<u32>)>, map: Seq<(u32, Branch)>, b: Seq<(u32, Vec<u32>)>) -> bool {
  &&& forall|l: u32| #[trigger] hask(pre, u(l)) == line_has(map, l)
  &&& forall|l: u32| #[trigger] hask(pre, u(l)) ==> val(pre, u(l))@ == line_paths(map, b, l)
}
pub proof fn lem_pre_step(pre: Seq<(u32, Vec<u32>)>, map: Seq<(u32, Branch)>, n: int, b: Seq<(u32, Vec<u32>)>, line: u32, pre2: Seq<(u32, Vec<u32>)>, v: Vec<u32>)
  requires im_wf(pre), 0 <= n < map.len(), pre_ok(pre, map.take(n), b), line == b_line(map[n].1),
    v@ == (if hask(pre, u(line)) { val(pre, u(line))@ + val(b, u(map[n].0))@ } else { val(b, u(map[n].0))@ }),
    pre2 == put(pre, line, v),
  ensures pre_ok(pre2, map.take(n + 1), b), im_wf(pre2)
{
  broadcast use vx_base;
  lem_put(pre, line, v, pre2);
  let m2 = map.take(n + 1); let m1 = map.take(n);
  assert(m2.drop_last() =~= m1);
  assert forall|l: u32| #[trigger] hask(pre2, u(l)) == line_has(m2, l) by {
    assert(hask(pre, u(l)) == line_has(m1, l));
    if line_has(m1, l) { let i = choose|i: int| 0 <= i < m1.len() && b_line((#[trigger] m1[i]).1) == l; assert(m2[i] == m1[i]); }
    if line_has(m2, l) { let i = choose|i: int| 0 <= i < m2.len() && b_line((#[trigger] m2[i]).1) == l; if i < n { assert(m1[i] == m2[i]); } }
    if l == line { assert(b_line(m2[n].1) == l); }
  }
  assert forall|l: u32| #[trigger] hask(pre2, u(l)) implies val(pre2, u(l))@ == line_paths(m2, b, l) by {
    assert(hask(pre, u(l)) == line_has(m1, l));
    if !line_has(m1, l) { lem_no_paths(m1, b, l); assert(Seq::<u32>::empty() + val(b, u(map[n].0))@ =~= val(b, u(map[n].0))@); }
  }
}
pub proof fn lem_no_paths(map: Seq<(u32, Branch)>, b: Seq<(u32, Vec<u32>)>, l: u32)
  requires !line_has(map, l) ensures line_paths(map, b, l) == Seq::<u32>::empty() decreases map.len()
{ if map.len() > 0 { let m = map.drop_last(); assert(map.last() == map[map.len() - 1]); assert forall|i: int| 0 <= i < m.len() implies b_line((#[trigger] m[i]).1) != l by { assert(m[i] == map[i]); } lem_no_paths(m, b, l); } }

// --------------------------------------------------------------------- totals
pub open spec fn pct_q(c: nat, t: nat) -> int { (100000 * c as int) / (t as int) }
/// the percentage as a function of `floor(100000 * covered / total)` only
pub open spec fn pct_of(q: int) -> f32 { fdiv(ffloor(fdiv(f64_to_f32(int_to_f64(q)), int_to_f32(10))), int_to_f32(100)) }
pub open spec fn pct_spec(c: nat, t: nat) -> f32 { if t > 0 { pct_of(pct_q(c, t)) } else { 100.0f32 } }
pub open spec fn totals_are(t: Totals, total: nat, covered: nat, skipped: nat) -> bool {
  t.total == total && t.covered == covered && t.skipped == skipped && t.pct == CoveragePercentage::Value(pct_spec(covered, total))
}
pub open spec fn nposv<K>(m: Seq<(K, u32)>) -> nat decreases m.len() { if m.len() == 0 { 0 } else { nposv(m.drop_last()) + (if m.last().1 > 0 { 1nat } else { 0 }) } }
pub proof fn lem_nposv<K>(m: Seq<(K, u32)>, n: int) requires 0 <= n < m.len() ensures nposv(m.take(n + 1)) == nposv(m.take(n)) + (if m[n].1 > 0 { 1nat } else { 0 }) { assert(m.take(n + 1).drop_last() =~= m.take(n)); }
pub open spec fn bcov(m: Seq<(u32, Vec<u32>)>) -> nat decreases m.len() { if m.len() == 0 { 0 } else { bcov(m.drop_last()) + npos(m.last().1@) } }
pub open spec fn btot(m: Seq<(u32, Vec<u32>)>) -> nat decreases m.len() { if m.len() == 0 { 0 } else { btot(m.drop_last()) + m.last().1@.len() } }
pub proof fn lem_btot(m: Seq<(u32, Vec<u32>)>, n: int) requires 0 <= n < m.len()
  ensures bcov(m.take(n + 1)) == bcov(m.take(n)) + npos(m[n].1@), btot(m.take(n + 1)) == btot(m.take(n)) + m[n].1@.len(), npos(m[n].1@) <= m[n].1@.len()
{ assert(m.take(n + 1).drop_last() =~= m.take(n)); lem_npos_le(m[n].1@); }
pub proof fn lem_btot_mono(m: Seq<(u32, Vec<u32>)>, n: int) requires 0 <= n <= m.len() ensures btot(m.take(n)) <= btot(m), bcov(m.take(n)) <= btot(m.take(n)) decreases m.len() - n
{ if n < m.len() { lem_btot(m, n); lem_btot_mono(m, n + 1); } else { assert(m.take(n) =~= m); } lem_bcov_le(m.take(n)); }
pub proof fn lem_bcov_le(m: Seq<(u32, Vec<u32>)>) ensures bcov(m) <= btot(m) decreases m.len() { if m.len() > 0 { lem_bcov_le(m.drop_last()); lem_npos_le(m.last().1@); } }
// ---------------------------------------------------------------------- reset
pub open spec fn zeroed(a: Seq<(u32, u32)>, b: Seq<(u32, u32)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && b[i].1 == 0 }
pub open spec fn vzero(v: Seq<u32>) -> bool { forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == 0 }
pub open spec fn vzeroed(a: Seq<(u32, Vec<u32>)>, b: Seq<(u32, Vec<u32>)>) -> bool {
  a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && b[i].1@.len() == a[i].1@.len() && vzero(b[i].1@)
}
/// `b` differs from `a` at most in its hit counters
pub open spec fn same_but_hits(a: FileCoverage, b: FileCoverage) -> bool {
  b.all == a.all && b.path == a.path && b.input_source_map == a.input_source_map
  && b.statement_map@ == a.statement_map@ && b.fn_map@ == a.fn_map@ && b.branch_map@ == a.branch_map@
}
