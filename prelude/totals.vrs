// -------------------------------------------------------------------- summary
/// the lines on which a statement starts / those with a statement that was hit
pub open spec fn line_set(e: Seq<(u32, nat)>) -> Set<u32> decreases e.len() { if e.len() == 0 { Set::empty() } else { line_set(e.drop_last()).insert(e.last().0) } }
pub open spec fn hit_line_set(e: Seq<(u32, nat)>) -> Set<u32> decreases e.len() { if e.len() == 0 { Set::empty() } else if e.last().1 > 0 { hit_line_set(e.drop_last()).insert(e.last().0) } else { hit_line_set(e.drop_last()) } }
pub proof fn lem_line_set(e: Seq<(u32, nat)>, l: u32)
  ensures line_set(e).contains(l) == ev_has(e, l), hit_line_set(e).contains(l) == (ev_max(e, l) > 0), hit_line_set(e).contains(l) ==> ev_has(e, l)
  decreases e.len()
{
  if e.len() > 0 {
    lem_line_set(e.drop_last(), l); lem_has_push(e, e.len() - 1, l); assert(e.take(e.len() - 1) =~= e.drop_last()); assert(e.take(e.len() as int) =~= e);
  }
}
pub open spec fn lcev(m: Seq<(u32, u32)>) -> Seq<(u32, nat)> { Seq::new(m.len(), |i: int| (m[i].0, m[i].1 as nat)) }
pub proof fn lem_keys_where(m: Seq<(u32, u32)>)
  requires im_wf(m),
  ensures line_set(lcev(m)).len() == m.len(), hit_line_set(lcev(m)).len() == nposv(m)
  decreases m.len()
{
  broadcast use vx_base;
  if m.len() > 0 {
    let d = m.drop_last(); let x = m.last();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies key_repr(&#[trigger] d[i].0) != key_repr(&#[trigger] d[j].0) by { assert(d[i] == m[i] && d[j] == m[j]); assert(key_repr(&m[i].0) != key_repr(&m[j].0)); }
    lem_keys_where(d);
    assert(lcev(m).drop_last() =~= lcev(d));
    let e = lcev(d);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i].0 != x.0 by { assert(d[i] == m[i]); assert(key_repr(&m[i].0) != key_repr(&m[m.len() - 1].0)); }
    lem_line_set(e, x.0); lem_tot_absent(e, x.0);
  }
}
pub proof fn lem_line_sets(lc: Seq<(u32, u32)>, e: Seq<(u32, nat)>)
  requires im_wf(lc), line_cov(lc, e)
  ensures lc.len() == line_set(e).len(), nposv(lc) == hit_line_set(e).len()
{
  broadcast use vx_base;
  lem_keys_where(lc);
  let c = lcev(lc);
  assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 != (#[trigger] c[j]).0 by { assert(key_repr(&lc[i].0) != key_repr(&lc[j].0)); }
  assert forall|l: u32| line_set(c).contains(l) == line_set(e).contains(l) && hit_line_set(c).contains(l) == hit_line_set(e).contains(l) by {
    lem_line_set(c, l); lem_line_set(e, l);
    assert(hask(lc, u(l)) == ev_has(e, l));
    if hask(lc, u(l)) { let i = at(lc, u(l)); assert(is_at(lc, u(l), i)); assert(c[i].0 == l); lem_tot_distinct(c, i); }
    if ev_has(c, l) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i].0 == l; assert(is_at(lc, u(l), i)); }
    else { lem_tot_absent(c, l); }
  }
  assert(line_set(c) =~= line_set(e)); assert(hit_line_set(c) =~= hit_line_set(e));
}
/// every total of the file fits 32 bits
pub open spec fn counts_fit(f: FileCoverage) -> bool {
  f.s@.len() <= u32::MAX && f.f@.len() <= u32::MAX && btot(f.b@) <= u32::MAX && btot(bt_seq(f)) <= u32::MAX
}
pub open spec fn n_lines(f: FileCoverage) -> nat { line_set(lev(f.s@, f.statement_map@)).len() }
pub open spec fn n_hit_lines(f: FileCoverage) -> nat { hit_line_set(lev(f.s@, f.statement_map@)).len() }
pub open spec fn summary_spec(f: FileCoverage, r: CoverageSummary) -> bool {
  &&& totals_are(r.lines, n_lines(f), n_hit_lines(f), 0)
  &&& totals_are(r.statements, f.s@.len(), nposv(f.s@), 0)
  &&& totals_are(r.functions, f.f@.len(), nposv(f.f@), 0)
  &&& totals_are(r.branches, btot(f.b@), bcov(f.b@), 0)
  &&& (r.branches_true is Some <==> f.b_t is Some)
  &&& (f.b_t is Some ==> totals_are(r.branches_true->0, btot(f.b_t->0@), bcov(f.b_t->0@), 0))
}
pub open spec fn totals_zero(t: Totals) -> bool { t.total == 0 && t.covered == 0 && t.skipped == 0 && t.pct == CoveragePercentage::Unknown }
/// `r` = `a` + `b`, percentage recomputed from the sums
pub open spec fn totals_add(a: Totals, b: Totals, r: Totals) -> bool {
  r.total == a.total + b.total && r.covered == a.covered + b.covered && r.skipped == a.skipped + b.skipped
  && r.pct == CoveragePercentage::Value(pct_spec((a.covered + b.covered) as nat, (a.total + b.total) as nat))
}
pub open spec fn t_fit(a: Totals, b: Totals) -> bool { a.total + b.total <= u32::MAX && a.covered + b.covered <= u32::MAX && a.skipped + b.skipped <= u32::MAX }
pub open spec fn opt_total(o: Option<Totals>) -> Totals { if o is Some { o->0 } else { Totals { total: 0, covered: 0, skipped: 0, pct: CoveragePercentage::Unknown } } }
pub open spec fn summary_add(a: CoverageSummary, b: CoverageSummary, r: CoverageSummary) -> bool {
  &&& totals_add(a.lines, b.lines, r.lines) &&& totals_add(a.statements, b.statements, r.statements)
  &&& totals_add(a.functions, b.functions, r.functions) &&& totals_add(a.branches, b.branches, r.branches)
  &&& (b.branches_true is None ==> r.branches_true == a.branches_true)
  &&& (b.branches_true is Some ==> r.branches_true is Some && totals_add(opt_total(a.branches_true), b.branches_true->0, r.branches_true->0))
}
pub open spec fn summary_fit(a: CoverageSummary, b: CoverageSummary) -> bool {
  t_fit(a.lines, b.lines) && t_fit(a.statements, b.statements) && t_fit(a.functions, b.functions) && t_fit(a.branches, b.branches)
  && t_fit(opt_total(a.branches_true), opt_total(b.branches_true))
}
