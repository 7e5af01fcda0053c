// --------------------------------------------------------------- coverage map
pub open spec fn cs(k: Seq<char>) -> KeyRepr { KeyRepr::Chars(k) }
pub type CM = Seq<(String, FileCoverage)>;
/// every entry is filed under its own path and is well formed
pub open spec fn map_wf(m: Seq<(String, FileCoverage)>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0@ == m[i].1.path@ && fc_wf(m[i].1) }
pub open spec fn can_merge(a: FileCoverage, b: FileCoverage) -> bool { fc_wf(a) && fc_wf(b) && (!a.all && !b.all ==> sums_fit(a, b)) }
/// `r` is `a` after adding the report `c`
pub open spec fn cm_add(a: Seq<(String, FileCoverage)>, c: FileCoverage, r: Seq<(String, FileCoverage)>) -> bool {
  if hask(a, cs(c.path@)) {
    let i = at(a, cs(c.path@));
    r.len() == a.len() && r[i].0 == a[i].0 && merge_spec(a[i].1, c, r[i].1) && (forall|j: int| 0 <= j < a.len() && j != i ==> r[j] == a[j])
  } else { r.len() == a.len() + 1 && r.last().0@ == c.path@ && r.last().1 == c && (forall|j: int| 0 <= j < a.len() ==> r[j] == a[j]) }
}
pub proof fn lem_cm_add(a: Seq<(String, FileCoverage)>, c: FileCoverage, r: Seq<(String, FileCoverage)>)
  requires im_wf(a), im_wf(r), cm_add(a, c, r), map_wf(a), fc_wf(c),
  ensures
    forall|k: Seq<char>| #[trigger] hask(r, cs(k)) == (hask(a, cs(k)) || k == c.path@),
    forall|k: Seq<char>| k != c.path@ && hask(a, cs(k)) ==> #[trigger] val(r, cs(k)) == val(a, cs(k)),
    hask(a, cs(c.path@)) ==> merge_spec(val(a, cs(c.path@)), c, val(r, cs(c.path@))),
    !hask(a, cs(c.path@)) ==> val(r, cs(c.path@)) == c,
    forall|j: int| 0 <= j < a.len() ==> (#[trigger] r[j]).0@ == a[j].0@,
    r.len() >= a.len(), r.len() <= a.len() + 1,
{
  broadcast use vx_base;
  let p = cs(c.path@);
  if hask(a, p) { assert(is_at(a, p, at(a, p))); }
  assert forall|k: Seq<char>| #[trigger] hask(r, cs(k)) == (hask(a, cs(k)) || k == c.path@) by {
    if hask(r, cs(k)) { let i = at(r, cs(k)); assert(is_at(r, cs(k), i)); if i < a.len() { assert(is_at(a, cs(k), i)); } }
    if hask(a, cs(k)) { let i = at(a, cs(k)); assert(is_at(a, cs(k), i)); assert(is_at(r, cs(k), i)); }
    if k == c.path@ && !hask(a, p) { assert(is_at(r, cs(k), r.len() - 1)); }
  }
  assert forall|k: Seq<char>| hask(a, cs(k)) && k != c.path@ implies #[trigger] val(r, cs(k)) == val(a, cs(k)) by {
    let i = at(a, cs(k)); assert(is_at(a, cs(k), i)); assert(r[i].0@ == k); lem_at(r, i);
  }
  if hask(a, p) { lem_at(r, at(a, p)); } else { lem_at(r, r.len() - 1); }
}
/// the result of merging map `b` into map `a`
pub open spec fn cm_merged(a: Seq<(String, FileCoverage)>, b: Seq<(String, FileCoverage)>, r: Seq<(String, FileCoverage)>) -> bool {
  &&& forall|k: Seq<char>| #[trigger] hask(r, cs(k)) == (hask(a, cs(k)) || hask(b, cs(k)))
  &&& forall|k: Seq<char>| hask(a, cs(k)) && hask(b, cs(k)) ==> merge_spec(val(a, cs(k)), val(b, cs(k)), #[trigger] val(r, cs(k)))
  &&& forall|k: Seq<char>| hask(a, cs(k)) && !hask(b, cs(k)) ==> #[trigger] val(r, cs(k)) == val(a, cs(k))
  &&& forall|k: Seq<char>| !hask(a, cs(k)) && hask(b, cs(k)) ==> #[trigger] val(r, cs(k)) == val(b, cs(k))
  &&& r.len() >= a.len() && r.len() <= a.len() + b.len()
  &&& forall|j: int| 0 <= j < a.len() ==> (#[trigger] r[j]).0@ == a[j].0@
}
pub proof fn lem_take_wf<A>(b: Seq<(String, A)>, n: int)
  requires im_wf(b), 0 <= n < b.len(),
  ensures im_wf(b.take(n)), im_wf(b.take(n + 1)), !hask(b.take(n), cs(b[n].0@)),
    forall|k: Seq<char>| #[trigger] hask(b.take(n + 1), cs(k)) == (hask(b.take(n), cs(k)) || k == b[n].0@),
    forall|k: Seq<char>| hask(b.take(n + 1), cs(k)) ==> #[trigger] val(b.take(n + 1), cs(k)) == (if k == b[n].0@ { b[n].1 } else { val(b.take(n), cs(k)) }),
{
  broadcast use vx_base;
  let t = b.take(n); let t2 = b.take(n + 1);
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies key_repr(&#[trigger] t[i].0) != key_repr(&#[trigger] t[j].0) by { assert(key_repr(&b[i].0) != key_repr(&b[j].0)); }
  assert forall|i: int, j: int| 0 <= i < j < t2.len() implies key_repr(&#[trigger] t2[i].0) != key_repr(&#[trigger] t2[j].0) by { assert(key_repr(&b[i].0) != key_repr(&b[j].0)); }
  if hask(t, cs(b[n].0@)) { let i = at(t, cs(b[n].0@)); assert(is_at(t, cs(b[n].0@), i)); assert(key_repr(&b[i].0) != key_repr(&b[n].0)); }
  assert forall|k: Seq<char>| #[trigger] hask(t2, cs(k)) == (hask(t, cs(k)) || k == b[n].0@) by {
    if hask(t2, cs(k)) { let i = at(t2, cs(k)); assert(is_at(t2, cs(k), i)); if i < n { assert(is_at(t, cs(k), i)); } }
    if hask(t, cs(k)) { let i = at(t, cs(k)); assert(is_at(t, cs(k), i)); assert(is_at(t2, cs(k), i)); }
    if k == b[n].0@ { assert(is_at(t2, cs(k), n)); }
  }
  assert forall|k: Seq<char>| hask(t2, cs(k)) implies #[trigger] val(t2, cs(k)) == (if k == b[n].0@ { b[n].1 } else { val(t, cs(k)) }) by {
    if k == b[n].0@ { lem_at(t2, n); } else { let i = at(t, cs(k)); assert(is_at(t, cs(k), i)); lem_at(t2, i); assert(t2[i] == t[i]); }
  }
}
pub proof fn lem_cm_step(a: Seq<(String, FileCoverage)>, b: Seq<(String, FileCoverage)>, n: int, r: Seq<(String, FileCoverage)>, r2: Seq<(String, FileCoverage)>)
  requires im_wf(a), im_wf(b), im_wf(r), im_wf(r2), map_wf(b), map_wf(r), 0 <= n < b.len(), cm_merged(a, b.take(n), r), cm_add(r, b[n].1, r2),
  ensures cm_merged(a, b.take(n + 1), r2)
{
  broadcast use vx_base;
  lem_take_wf(b, n); lem_cm_add(r, b[n].1, r2);
  let t = b.take(n); let t2 = b.take(n + 1); let p = b[n].0@;
  assert(p == b[n].1.path@);
  assert forall|k: Seq<char>| #[trigger] hask(r2, cs(k)) == (hask(a, cs(k)) || hask(t2, cs(k))) by { assert(hask(r, cs(k)) == (hask(a, cs(k)) || hask(t, cs(k)))); }
  assert(hask(r, cs(p)) == (hask(a, cs(p)) || hask(t, cs(p))));
  assert forall|k: Seq<char>| hask(a, cs(k)) && hask(t2, cs(k)) implies merge_spec(val(a, cs(k)), val(t2, cs(k)), #[trigger] val(r2, cs(k))) by {
    assert(hask(r, cs(k)) == (hask(a, cs(k)) || hask(t, cs(k))));
    if k == p { assert(val(r, cs(k)) == val(a, cs(k))); } else { assert(val(r2, cs(k)) == val(r, cs(k))); }
  }
  assert forall|k: Seq<char>| hask(a, cs(k)) && !hask(t2, cs(k)) implies #[trigger] val(r2, cs(k)) == val(a, cs(k)) by {
    assert(hask(r, cs(k)) == (hask(a, cs(k)) || hask(t, cs(k)))); assert(val(r, cs(k)) == val(a, cs(k))); }
  assert forall|k: Seq<char>| !hask(a, cs(k)) && hask(t2, cs(k)) implies #[trigger] val(r2, cs(k)) == val(t2, cs(k)) by {
    assert(hask(r, cs(k)) == (hask(a, cs(k)) || hask(t, cs(k)))); if k != p { assert(val(r, cs(k)) == val(t, cs(k))); } }
  assert forall|j: int| 0 <= j < a.len() implies (#[trigger] r2[j]).0@ == a[j].0@ by { assert(r[j].0@ == a[j].0@); }
}
// -------------------------------------------- additive measures of one report
/// hits recorded by a report at a location; placeholders (`all`) count nothing.
/// w = 0 statements, 1 functions, 2 branch paths, 3 truthy branch paths, 4.. sizes
pub open spec fn raw(f: FileCoverage, w: int, k: Seq<char>, j: int) -> nat {
  if w == 0 { tot(evs(f.s@, f.statement_map@), k) } else if w == 1 { tot(evs(f.f@, f.fn_map@), k) }
  else if w == 2 { tot(pj(vev(f.b@, f.branch_map@), j), k) } else if w == 3 { tot(pj(vev(bt_seq(f), f.branch_map@), j), k) }
  else if w == 4 { f.s@.len() } else if w == 5 { f.f@.len() } else { f.b@.len() }
}
pub open spec fn meas(f: FileCoverage, w: int, k: Seq<char>, j: int) -> nat { if f.all { 0 } else { raw(f, w, k, j) } }
pub proof fn lem_meas(a: FileCoverage, b: FileCoverage, r: FileCoverage, w: int, k: Seq<char>, j: int)
  requires merge_spec(a, b, r),
  ensures meas(r, w, k, j) <= meas(a, w, k, j) + meas(b, w, k, j), 0 <= w <= 2 ==> meas(r, w, k, j) == meas(a, w, k, j) + meas(b, w, k, j), r.path@ == a.path@ || r.path@ == b.path@,
    r.all == (a.all && b.all),
    w == 3 && (a.b_t is Some || a.all) && !b.all ==> meas(r, w, k, j) == meas(a, w, k, j) + meas(b, w, k, j)
{ if w == 3 && !a.all && !b.all && a.b_t is None { lem_tot_absent(pj(vev(bt_seq(r), r.branch_map@), j), k); } }
pub open spec fn msum(v: Seq<&FileCoverage>, p: Seq<char>, w: int, k: Seq<char>, j: int) -> nat decreases v.len() {
  if v.len() == 0 { 0 } else { msum(v.drop_last(), p, w, k, j) + (if v.last().path@ == p { meas(*v.last(), w, k, j) } else { 0 }) }
}
pub open spec fn seq_has(v: Seq<&FileCoverage>, p: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).path@ == p }
pub open spec fn seq_fits(v: Seq<&FileCoverage>) -> bool { forall|p: Seq<char>, w: int, k: Seq<char>, j: int| #[trigger] msum(v, p, w, k, j) <= u32::MAX }
/// what a map built from the reports `v` holds
pub open spec fn cm_from(v: Seq<&FileCoverage>, r: Seq<(String, FileCoverage)>) -> bool {
  &&& forall|p: Seq<char>| #[trigger] hask(r, cs(p)) == seq_has(v, p)
  &&& forall|p: Seq<char>, w: int, k: Seq<char>, j: int| seq_has(v, p) ==> #[trigger] meas(val(r, cs(p)), w, k, j) <= msum(v, p, w, k, j)
  &&& forall|p: Seq<char>, w: int, k: Seq<char>, j: int| seq_has(v, p) && 0 <= w <= 2 ==> #[trigger] meas(val(r, cs(p)), w, k, j) == msum(v, p, w, k, j)
}
pub proof fn lem_msum_push(v: Seq<&FileCoverage>, n: int, p: Seq<char>, w: int, k: Seq<char>, j: int)
  requires 0 <= n < v.len(),
  ensures msum(v.take(n + 1), p, w, k, j) == msum(v.take(n), p, w, k, j) + (if v[n].path@ == p { meas(*v[n], w, k, j) } else { 0 }),
    seq_has(v.take(n + 1), p) == (seq_has(v.take(n), p) || v[n].path@ == p), !seq_has(v.take(n), p) ==> msum(v.take(n), p, w, k, j) == 0
{
  let a = v.take(n + 1); let b = v.take(n);
  assert(a.drop_last() =~= b);
  if seq_has(b, p) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).path@ == p; assert(a[i] == b[i]); }
  if seq_has(a, p) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).path@ == p; if i < n { assert(b[i] == a[i]); } }
  if v[n].path@ == p { assert(a[n].path@ == p); }
  if !seq_has(b, p) { lem_msum_absent(b, p, w, k, j); }
}
pub proof fn lem_msum_absent(v: Seq<&FileCoverage>, p: Seq<char>, w: int, k: Seq<char>, j: int)
  requires !seq_has(v, p) ensures msum(v, p, w, k, j) == 0 decreases v.len()
{ if v.len() > 0 { let d = v.drop_last(); assert(v.last() == v[v.len() - 1]); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).path@ != p by { assert(d[i] == v[i]); } lem_msum_absent(d, p, w, k, j); } }
pub proof fn lem_msum_mono(v: Seq<&FileCoverage>, n: int, p: Seq<char>, w: int, k: Seq<char>, j: int)
  requires 0 <= n <= v.len(), ensures msum(v.take(n), p, w, k, j) <= msum(v, p, w, k, j) decreases v.len() - n
{ if n < v.len() { lem_msum_push(v, n, p, w, k, j); lem_msum_mono(v, n + 1, p, w, k, j); } else { assert(v.take(n) =~= v); } }
pub proof fn lem_from_fit(v: Seq<&FileCoverage>, n: int, r: Seq<(String, FileCoverage)>)
  requires 0 <= n < v.len(), seq_fits(v), cm_from(v.take(n), r), hask(r, cs(v[n].path@)), !v[n].all, !val(r, cs(v[n].path@)).all,
  ensures sums_fit(val(r, cs(v[n].path@)), *v[n])
{
  let p = v[n].path@; let a = val(r, cs(p)); let b = *v[n];
  assert forall|w: int, k: Seq<char>, j: int| #[trigger] raw(a, w, k, j) + raw(b, w, k, j) <= u32::MAX by {
    lem_msum_push(v, n, p, w, k, j); lem_msum_mono(v, n + 1, p, w, k, j);
    assert(meas(val(r, cs(p)), w, k, j) <= msum(v.take(n), p, w, k, j));
    assert(msum(v, p, w, k, j) <= u32::MAX);
  }
  assert forall|k: Seq<char>| #[trigger] tot(evs(a.s@, a.statement_map@), k) + tot(evs(b.s@, b.statement_map@), k) <= u32::MAX by { assert(raw(a, 0, k, 0) + raw(b, 0, k, 0) <= u32::MAX); }
  assert forall|k: Seq<char>| #[trigger] tot(evs(a.f@, a.fn_map@), k) + tot(evs(b.f@, b.fn_map@), k) <= u32::MAX by { assert(raw(a, 1, k, 0) + raw(b, 1, k, 0) <= u32::MAX); }
  assert forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(a.b@, a.branch_map@), j), k) + tot(pj(vev(b.b@, b.branch_map@), j), k) <= u32::MAX by { assert(raw(a, 2, k, j) + raw(b, 2, k, j) <= u32::MAX); }
  assert forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(bt_seq(a), a.branch_map@), j), k) + tot(pj(vev(bt_seq(b), b.branch_map@), j), k) <= u32::MAX by { assert(raw(a, 3, k, j) + raw(b, 3, k, j) <= u32::MAX); }
  let z = Seq::<char>::empty();
  assert(raw(a, 4, z, 0) + raw(b, 4, z, 0) <= u32::MAX); assert(raw(a, 5, z, 0) + raw(b, 5, z, 0) <= u32::MAX); assert(raw(a, 6, z, 0) + raw(b, 6, z, 0) <= u32::MAX);
}
pub proof fn lem_from_step(v: Seq<&FileCoverage>, n: int, r: Seq<(String, FileCoverage)>, r2: Seq<(String, FileCoverage)>)
  requires im_wf(r), im_wf(r2), map_wf(r), 0 <= n < v.len(), fc_wf(*v[n]), cm_from(v.take(n), r), cm_add(r, *v[n], r2),
  ensures cm_from(v.take(n + 1), r2)
{
  broadcast use vx_base;
  lem_cm_add(r, *v[n], r2);
  let q = v[n].path@;
  assert forall|p: Seq<char>| #[trigger] hask(r2, cs(p)) == seq_has(v.take(n + 1), p) by { lem_msum_push(v, n, p, 0, p, 0); assert(hask(r, cs(p)) == seq_has(v.take(n), p)); }
  assert forall|p: Seq<char>, w: int, k: Seq<char>, j: int| seq_has(v.take(n + 1), p) implies #[trigger] meas(val(r2, cs(p)), w, k, j) <= msum(v.take(n + 1), p, w, k, j) && (0 <= w <= 2 ==> meas(val(r2, cs(p)), w, k, j) == msum(v.take(n + 1), p, w, k, j)) by {
    lem_msum_push(v, n, p, w, k, j);
    assert(hask(r, cs(p)) == seq_has(v.take(n), p));
    if hask(r, cs(p)) { assert(meas(val(r, cs(p)), w, k, j) <= msum(v.take(n), p, w, k, j)); }
    if p == q { if hask(r, cs(p)) { lem_meas(val(r, cs(p)), *v[n], val(r2, cs(p)), w, k, j); } } else { assert(val(r2, cs(p)) == val(r, cs(p))); }
  }
}
/// merging maps adds up the hits at every location of every file
pub proof fn thm_map_merge_additive(a: Seq<(String, FileCoverage)>, b: Seq<(String, FileCoverage)>, r: Seq<(String, FileCoverage)>, p: Seq<char>, w: int, k: Seq<char>, j: int)
  requires cm_merged(a, b, r), 0 <= w <= 2, hask(r, cs(p)),
  ensures meas(val(r, cs(p)), w, k, j) == (if hask(a, cs(p)) { meas(val(a, cs(p)), w, k, j) } else { 0 }) + (if hask(b, cs(p)) { meas(val(b, cs(p)), w, k, j) } else { 0 })
{
  let x = val(r, cs(p));
  assert(hask(r, cs(p)) == (hask(a, cs(p)) || hask(b, cs(p))));
  if hask(a, cs(p)) && hask(b, cs(p)) { lem_meas(val(a, cs(p)), val(b, cs(p)), x, w, k, j); }
}
// ---------------------------------------------------------------------- filter
pub open spec fn kept(m: Seq<(String, FileCoverage)>, keep: Seq<bool>) -> Seq<(String, FileCoverage)> decreases m.len() {
  if m.len() == 0 { Seq::empty() } else { let d = kept(m.drop_last(), keep); if keep[m.len() - 1] { d.push(m.last()) } else { d } }
}
/// same reports, in the same order, each under its own path
pub open spec fn same_entries(a: Seq<(String, FileCoverage)>, b: Seq<(String, FileCoverage)>) -> bool {
  a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0@ == b[i].0@ && a[i].1 == b[i].1
}
pub proof fn lem_kept_push(m: Seq<(String, FileCoverage)>, n: int, keep: Seq<bool>, keep2: Seq<bool>)
  requires 0 <= n < m.len(), keep.len() == n, keep2.len() == n + 1, forall|i: int| 0 <= i < n ==> keep2[i] == keep[i],
  ensures kept(m.take(n + 1), keep2) == (if keep2[n] { kept(m.take(n), keep).push(m[n]) } else { kept(m.take(n), keep) })
{ assert(m.take(n + 1).drop_last() =~= m.take(n)); lem_kept_ext(m.take(n), keep, keep2); }
pub proof fn lem_kept_ext(m: Seq<(String, FileCoverage)>, a: Seq<bool>, b: Seq<bool>)
  requires m.len() <= a.len(), m.len() <= b.len(), forall|i: int| 0 <= i < m.len() ==> a[i] == b[i] ensures kept(m, a) == kept(m, b) decreases m.len()
{ if m.len() > 0 { lem_kept_ext(m.drop_last(), a, b); } }
/// the entries kept come from the map, and no path occurs twice
pub proof fn lem_kept_src(m: Seq<(String, FileCoverage)>, keep: Seq<bool>, i: int)
  requires m.len() <= keep.len(), 0 <= i < kept(m, keep).len(),
  ensures exists|j: int| 0 <= j < m.len() && #[trigger] m[j] == kept(m, keep)[i] && keep[j]
  decreases m.len()
{
  let d = m.drop_last(); let kd = kept(d, keep);
  if keep[m.len() - 1] && i == kd.len() { assert(m[m.len() - 1] == kept(m, keep)[i]); }
  else { lem_kept_src(d, keep, i); let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == kd[i] && keep[j]; assert(m[j] == d[j]); }
}
// --------------------------------------------------------------------- summary
pub open spec fn fsum(m: Seq<(String, FileCoverage)>, g: spec_fn(FileCoverage) -> nat) -> nat decreases m.len() { if m.len() == 0 { 0 } else { fsum(m.drop_last(), g) + g(m.last().1) } }
pub proof fn lem_fsum(m: Seq<(String, FileCoverage)>, n: int, g: spec_fn(FileCoverage) -> nat) requires 0 <= n < m.len() ensures fsum(m.take(n + 1), g) == fsum(m.take(n), g) + g(m[n].1) { assert(m.take(n + 1).drop_last() =~= m.take(n)); }
pub proof fn lem_fsum_mono(m: Seq<(String, FileCoverage)>, n: int, g: spec_fn(FileCoverage) -> nat) requires 0 <= n <= m.len() ensures fsum(m.take(n), g) <= fsum(m, g) decreases m.len() - n
{ if n < m.len() { lem_fsum(m, n, g); lem_fsum_mono(m, n + 1, g); } else { assert(m.take(n) =~= m); } }
pub open spec fn g_l() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| n_lines(f) }
pub open spec fn g_lh() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| n_hit_lines(f) }
pub open spec fn g_s() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| f.s@.len() }
pub open spec fn g_sh() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| nposv(f.s@) }
pub open spec fn g_f() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| f.f@.len() }
pub open spec fn g_fh() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| nposv(f.f@) }
pub open spec fn g_b() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| btot(f.b@) }
pub open spec fn g_bh() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| bcov(f.b@) }
pub open spec fn g_t() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| btot(bt_seq(f)) }
pub open spec fn g_th() -> spec_fn(FileCoverage) -> nat { |f: FileCoverage| bcov(bt_seq(f)) }
pub open spec fn t_sum(m: Seq<(String, FileCoverage)>, t: Totals, g: spec_fn(FileCoverage) -> nat, gh: spec_fn(FileCoverage) -> nat) -> bool {
  t.total == fsum(m, g) && t.covered == fsum(m, gh) && t.skipped == 0
  && t.pct == (if m.len() == 0 { CoveragePercentage::Unknown } else { CoveragePercentage::Value(pct_spec(fsum(m, gh), fsum(m, g))) })
}
pub open spec fn any_bt(m: Seq<(String, FileCoverage)>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1.b_t is Some }
pub open spec fn map_summary(m: Seq<(String, FileCoverage)>, r: CoverageSummary) -> bool {
  &&& t_sum(m, r.lines, g_l(), g_lh()) &&& t_sum(m, r.statements, g_s(), g_sh()) &&& t_sum(m, r.functions, g_f(), g_fh()) &&& t_sum(m, r.branches, g_b(), g_bh())
  &&& r.branches_true is Some == any_bt(m)
  &&& r.branches_true is Some ==> { let t = r.branches_true->0; t.total == fsum(m, g_t()) && t.covered == fsum(m, g_th()) && t.skipped == 0 && t.pct == CoveragePercentage::Value(pct_spec(fsum(m, g_th()), fsum(m, g_t()))) }
  &&& r.branches_true is None ==> fsum(m, g_t()) == 0 && fsum(m, g_th()) == 0
}
/// the sums over all files fit 32 bits
pub open spec fn map_fit(m: Seq<(String, FileCoverage)>) -> bool {
  fsum(m, g_l()) <= u32::MAX && fsum(m, g_lh()) <= u32::MAX && fsum(m, g_s()) <= u32::MAX && fsum(m, g_sh()) <= u32::MAX && fsum(m, g_f()) <= u32::MAX && fsum(m, g_fh()) <= u32::MAX
  && fsum(m, g_b()) <= u32::MAX && fsum(m, g_bh()) <= u32::MAX && fsum(m, g_t()) <= u32::MAX && fsum(m, g_th()) <= u32::MAX
}
pub proof fn lem_sum_step(m: Seq<(String, FileCoverage)>, n: int)
  requires 0 <= n < m.len(),
  ensures
    fsum(m.take(n + 1), g_l()) == fsum(m.take(n), g_l()) + n_lines(m[n].1), fsum(m.take(n + 1), g_lh()) == fsum(m.take(n), g_lh()) + n_hit_lines(m[n].1),
    fsum(m.take(n + 1), g_s()) == fsum(m.take(n), g_s()) + m[n].1.s@.len(), fsum(m.take(n + 1), g_sh()) == fsum(m.take(n), g_sh()) + nposv(m[n].1.s@),
    fsum(m.take(n + 1), g_f()) == fsum(m.take(n), g_f()) + m[n].1.f@.len(), fsum(m.take(n + 1), g_fh()) == fsum(m.take(n), g_fh()) + nposv(m[n].1.f@),
    fsum(m.take(n + 1), g_b()) == fsum(m.take(n), g_b()) + btot(m[n].1.b@), fsum(m.take(n + 1), g_bh()) == fsum(m.take(n), g_bh()) + bcov(m[n].1.b@),
    fsum(m.take(n + 1), g_t()) == fsum(m.take(n), g_t()) + btot(bt_seq(m[n].1)), fsum(m.take(n + 1), g_th()) == fsum(m.take(n), g_th()) + bcov(bt_seq(m[n].1)),
    any_bt(m.take(n + 1)) == (any_bt(m.take(n)) || m[n].1.b_t is Some),
    map_fit(m) ==> map_fit(m.take(n + 1)),
{
  lem_fsum(m, n, g_l()); lem_fsum(m, n, g_lh()); lem_fsum(m, n, g_s()); lem_fsum(m, n, g_sh()); lem_fsum(m, n, g_f()); lem_fsum(m, n, g_fh());
  lem_fsum(m, n, g_b()); lem_fsum(m, n, g_bh()); lem_fsum(m, n, g_t()); lem_fsum(m, n, g_th());
  lem_fsum_mono(m, n + 1, g_l()); lem_fsum_mono(m, n + 1, g_lh()); lem_fsum_mono(m, n + 1, g_s()); lem_fsum_mono(m, n + 1, g_sh()); lem_fsum_mono(m, n + 1, g_f()); lem_fsum_mono(m, n + 1, g_fh());
  lem_fsum_mono(m, n + 1, g_b()); lem_fsum_mono(m, n + 1, g_bh()); lem_fsum_mono(m, n + 1, g_t()); lem_fsum_mono(m, n + 1, g_th());
  let a = m.take(n + 1); let b = m.take(n);
  if any_bt(b) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1.b_t is Some; assert(a[i] == b[i]); }
  if any_bt(a) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1.b_t is Some; if i < n { assert(b[i] == a[i]); } }
  if m[n].1.b_t is Some { assert(a[n].1.b_t is Some); }
}
pub open spec fn blank(r: FileCoverage, path: Seq<char>, logic: bool) -> bool {
  !r.all && r.path@ == path && r.statement_map@.len() == 0 && r.fn_map@.len() == 0 && r.branch_map@.len() == 0 && r.s@.len() == 0 && r.f@.len() == 0 && r.b@.len() == 0
  && (logic == (r.b_t is Some)) && (logic ==> r.b_t->0@.len() == 0) && r.input_source_map is None
}
