// -------------------------------------------------- the recorder of coverage entries
/// what is handed out in the end (C11)
pub open spec fn frozen_ok(c: SourceCoverage) -> bool {
  let f = c.inner; let l = c.meta.last;
  &&& dense(f.statement_map@, l.s as int) && dense(f.s@, l.s as int) && zero1(f.s@)
  &&& dense(f.fn_map@, l.f as int) && dense(f.f@, l.f as int) && zero1(f.f@)
  &&& same_keys(f.branch_map@, f.b@) && paths_ok(f.b@, f.branch_map@)
  &&& (forall|i: int| 0 <= i < f.branch_map@.len() ==> (#[trigger] f.branch_map@[i]).1.locations@.len() > 0)
  &&& truthy_ok(f.b_t, f.branch_map@)
}
pub proof fn lem_dense<V>(m: Seq<(u32, V)>, n: int)
  requires dense(m, n), n <= u32::MAX + 1
  ensures im_wf(m), forall|k: u32| #[trigger] hask(m, u(k)) <==> (k as int) < n, forall|k: u32| (k as int) < n ==> #[trigger] at(m, u(k)) == k, forall|k: u32| (k as int) < n ==> #[trigger] val(m, u(k)) == m[k as int].1,
    forall|kk: KeyRepr| #[trigger] hask(m, kk) ==> kk is Nat && kk->Nat_0 < n,
{
  broadcast use ax_key_u32;
  assert forall|i: int, j: int| 0 <= i < j < m.len() implies key_repr(&#[trigger] m[i].0) != key_repr(&#[trigger] m[j].0) by { assert(m[i].0 as int == i && m[j].0 as int == j); }
  assert forall|k: u32| (k as int) < n implies #[trigger] hask(m, u(k)) && at(m, u(k)) == k by { lem_at(m, k as int); assert(m[k as int].0 == k); }
  assert forall|k: u32| #[trigger] hask(m, u(k)) implies (k as int) < n by { let i = at(m, u(k)); assert(is_at(m, u(k), i)); assert(m[i].0 == i); }
  assert forall|k: u32| (k as int) < n implies #[trigger] at(m, u(k)) == k && val(m, u(k)) == m[k as int].1 by { assert(hask(m, u(k))); }
  assert forall|kk: KeyRepr| #[trigger] hask(m, kk) implies kk is Nat && kk->Nat_0 < n by { let i = at(m, kk); assert(is_at(m, kk, i)); assert(m[i].0 == i); }
}
pub proof fn lem_dense_put<V>(m: Seq<(u32, V)>, n: u32, v: V, m2: Seq<(u32, V)>)
  requires dense(m, n as int), m2 == put(m, n, v), n < u32::MAX
  ensures m2 == m.push((n, v)), dense(m2, n + 1)
{ lem_dense(m, n as int); assert(!hask(m, u(n))); }
/// the truthy counters after adding an empty list for branch `b`
pub open spec fn truthy_added(t: Option<IndexMap<u32, Vec<u32>>>, t2: Seq<(u32, Vec<u32>)>, b: u32) -> bool {
  t2.len() > 0 && t2.last().0 == b && t2.last().1@.len() == 0 && t2.drop_last() == (if t is Some { (t->0)@ } else { Seq::empty() })
}
pub proof fn lem_anonymous() ensures "(anonymous_"@ == seq!['(','a','n','o','n','y','m','o','u','s','_'], ")"@ == seq![')'] { reveal_strlit("(anonymous_"); reveal_strlit(")"); }
pub proof fn lem_truthy_fresh(a: SourceCoverage, r: u32)
  requires rec_ok(a), r == a.meta.last.b
  ensures a.inner.b_t is Some ==> !hask((a.inner.b_t->0)@, u(r))
{
  if a.inner.b_t is Some && hask((a.inner.b_t->0)@, u(r)) {
    let t = (a.inner.b_t->0)@;
    let i = at(t, u(r)); assert(is_at(t, u(r), i)); assert(t[i].0 == r); lem_dense(a.inner.branch_map@, r as int);
    assert(hask(a.inner.branch_map@, u(t[i].0)));
  }
}
pub proof fn lem_new_branch(a: SourceCoverage, b: SourceCoverage, r: u32)
  requires rec_ok(a), r == a.meta.last.b, r < u32::MAX,
    b.meta.last.b == r + 1, b.meta.last.s == a.meta.last.s, b.meta.last.f == a.meta.last.f,
    b.inner.branch_map@ == a.inner.branch_map@.push((r, b.inner.branch_map@.last().1)), b.inner.branch_map@.last().1.locations@.len() == 0,
    b.inner.b@ == a.inner.b@.push((r, b.inner.b@.last().1)), b.inner.b@.last().1@.len() == 0,
    b.inner.b_t == a.inner.b_t || (b.inner.b_t is Some && truthy_added(a.inner.b_t, (b.inner.b_t->0)@, r) && b.inner.branch_map@.last().1.branch_type == BranchType::BinaryExpr),
    b.inner.s == a.inner.s, b.inner.statement_map == a.inner.statement_map, b.inner.f == a.inner.f, b.inner.fn_map == a.inner.fn_map,
  ensures rec_ok(b)
{
  let (am, bm) = (a.inner.branch_map@, b.inner.branch_map@);
  lem_dense(am, r as int);
  assert(dense(bm, r + 1));
  lem_dense(bm, r + 1);
  assert(dense(b.inner.b@, r + 1));
  assert forall|k: u32| k < r implies #[trigger] val(bm, u(k)) == val(am, u(k)) by { }
  assert forall|i: int| 0 <= i < b.inner.b@.len() implies #[trigger] zeros(b.inner.b@[i].1@, val(bm, u(b.inner.b@[i].0)).locations@.len()) by {
    if i < r { assert(b.inner.b@[i] == a.inner.b@[i]); assert(a.inner.b@[i].0 == i); assert(zeros(a.inner.b@[i].1@, val(am, u(a.inner.b@[i].0)).locations@.len())); assert(val(bm, u(i as u32)) == val(am, u(i as u32))); }
    else { assert(b.inner.b@[i].0 == r); assert(val(bm, u(r)) == bm[r as int].1); }
  }
  if b.inner.b_t is Some {
    let t = (b.inner.b_t->0)@;
    assert forall|i: int| 0 <= i < t.len() implies hask(bm, u((#[trigger] t[i]).0)) && val(bm, u(t[i].0)).branch_type == BranchType::BinaryExpr
     && zeros(t[i].1@, val(bm, u(t[i].0)).locations@.len()) by {
      if b.inner.b_t != a.inner.b_t && i == t.len() - 1 { assert(val(bm, u(r)) == bm[r as int].1); assert(hask(bm, u(r))); }
      else {
        let t0 = (a.inner.b_t->0)@;
        if b.inner.b_t != a.inner.b_t { assert(t[i] == t.drop_last()[i]); if a.inner.b_t is None { assert(t.drop_last().len() == 0); } }
        assert(t[i] == t0[i]);
        assert(hask(am, u(t0[i].0)));
        assert(val(bm, u(t0[i].0)) == val(am, u(t0[i].0)));
        assert(hask(bm, u(t0[i].0)));
      }
    }
  }
}
pub open spec fn path_added(a: Seq<(u32, Branch)>, name: u32, loc: Range, b: Seq<(u32, Branch)>) -> bool {
  &&& a.len() == b.len() 
  &&& (forall|i: int| 0 <= i < a.len() && i != name ==> #[trigger] b[i] == a[i])
  &&& b[name as int].0 == name && b[name as int].1.locations@ == a[name as int].1.locations@.push(loc)
  &&& b[name as int].1 == (Branch { locations: b[name as int].1.locations, ..a[name as int].1 })
}
pub open spec fn same_ids<A, B>(a: Seq<(u32, A)>, b: Seq<(u32, B)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 }
/// `t2` is `t` with a zero appended to the list of `name`, if there is one
pub open spec fn zero_added(t: Seq<(u32, Vec<u32>)>, name: u32, t2: Seq<(u32, Vec<u32>)>) -> bool {
  same_ids(t, t2) && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t2[i]).1@ == (if t[i].0 == name { t[i].1@.push(0) } else { t[i].1@ })
}
pub open spec fn with_path(b: Branch) -> bool { b.locations@.len() > 0 }
/// the branches that have a path, in order
pub open spec fn kept(a: Seq<(u32, Branch)>, b: Seq<(u32, Branch)>) -> bool { b == a.filter(|e: (u32, Branch)| with_path(e.1)) }
pub proof fn lem_add_path(a: SourceCoverage, b: SourceCoverage, name: u32, loc: Range)
  requires rec_ok(a), name < a.meta.last.b, a.meta == b.meta, a.inner.branch_map@[name as int].1.locations@.len() < u32::MAX,
    path_added(a.inner.branch_map@, name, loc, b.inner.branch_map@),
    zero_added(a.inner.b@, name, b.inner.b@),
    b.inner.b_t is Some <==> a.inner.b_t is Some, a.inner.b_t is Some ==> zero_added((a.inner.b_t->0)@, name, (b.inner.b_t->0)@),
    b.inner.s == a.inner.s, b.inner.statement_map == a.inner.statement_map, b.inner.f == a.inner.f, b.inner.fn_map == a.inner.fn_map,
  ensures rec_ok(b)
{
  let n = a.meta.last.b;
  let (am, bm) = (a.inner.branch_map@, b.inner.branch_map@);
  lem_dense(am, n as int);
  assert forall|i: int| 0 <= i < n implies (#[trigger] bm[i]).0 == i by { assert(am[i].0 == i); if i != name { assert(bm[i] == am[i]); } }
  lem_dense(bm, n as int);
  assert forall|i: int| 0 <= i < n implies (#[trigger] b.inner.b@[i]).0 == i by { assert(a.inner.b@[i].0 == i); }
  assert forall|i: int| 0 <= i < b.inner.b@.len() implies #[trigger] zeros(b.inner.b@[i].1@, val(bm, u(b.inner.b@[i].0)).locations@.len()) by {
    assert(a.inner.b@[i].0 == i && b.inner.b@[i].0 == i);
    assert(zeros(a.inner.b@[i].1@, val(am, u(a.inner.b@[i].0)).locations@.len()));
    assert(val(bm, u(i as u32)) == bm[i].1 && val(am, u(i as u32)) == am[i].1);
  }
  if b.inner.b_t is Some {
    let (t0, t) = ((a.inner.b_t->0)@, (b.inner.b_t->0)@);
    assert forall|i: int| 0 <= i < t.len() implies hask(bm, u((#[trigger] t[i]).0)) && val(bm, u(t[i].0)).branch_type == BranchType::BinaryExpr
     && zeros(t[i].1@, val(bm, u(t[i].0)).locations@.len()) by {
      let k = t0[i].0; assert(t[i].0 == k);
      assert(hask(am, u(k)));
      assert(hask(bm, u(k)));
      assert(val(bm, u(k)) == bm[k as int].1 && val(am, u(k)) == am[k as int].1);
    }
  }
}
pub proof fn lem_zero_added(t: Seq<(u32, Vec<u32>)>, name: u32, t2: Seq<(u32, Vec<u32>)>)
  requires im_wf(t), (!hask(t, u(name)) && t2 == t) || (hask(t, u(name)) && t2.len() == t.len() && t2[at(t, u(name))].1@ == t[at(t, u(name))].1@.push(0) && t2 == t.update(at(t, u(name)), (t[at(t, u(name))].0, t2[at(t, u(name))].1))),
  ensures zero_added(t, name, t2)
{
  assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t2[i]).1@ == (if t[i].0 == name { t[i].1@.push(0) } else { t[i].1@ }) && t[i].0 == t2[i].0 by {
    lem_at(t, i);
    if hask(t, u(name)) { assert(is_at(t, u(name), at(t, u(name)))); }
  }
}
// ------------------------------------------------------------------ freeze
/// after the first `n` branches were looked at: what is left of them in `m`, and the counters of all but the dropped ones
pub open spec fn pruned(bm: Seq<(u32, Branch)>, n: int, m: Seq<(u32, Branch)>, b: Seq<(u32, Vec<u32>)>, t: Option<IndexMap<u32, Vec<u32>>>, b0: Seq<(u32, Vec<u32>)>, t0: Option<IndexMap<u32, Vec<u32>>>) -> bool {
  &&& m == bm.take(n).filter(|e: (u32, Branch)| with_path(e.1))
  &&& im_wf(b) && (forall|k: KeyRepr| #[trigger] hask(b, k) == (hask(b0, k) && !dropped(bm, n, k))) && (forall|k: KeyRepr| hask(b, k) ==> #[trigger] val(b, k) == val(b0, k))
  &&& t is Some <==> t0 is Some
  &&& t is Some ==> (forall|k: KeyRepr| #[trigger] hask((t->0)@, k) == (hask((t0->0)@, k) && !dropped(bm, n, k))) && (forall|k: KeyRepr| hask((t->0)@, k) ==> #[trigger] val((t->0)@, k) == val((t0->0)@, k))
}
pub open spec fn dropped(bm: Seq<(u32, Branch)>, n: int, k: KeyRepr) -> bool { exists|i: int| #[trigger] is_at(bm, k, i) && i < n && !with_path(bm[i].1) }
pub proof fn lem_freeze_init(s0: SourceCoverage, b: Seq<(u32, Vec<u32>)>, t: Option<IndexMap<u32, Vec<u32>>>)
  requires rec_ok(s0), b == s0.inner.b@, t == s0.inner.b_t
  ensures pruned(s0.inner.branch_map@, 0, Seq::empty(), b, t, s0.inner.b@, s0.inner.b_t)
{
  lem_dense(b, s0.meta.last.b as int);
  let bm = s0.inner.branch_map@;
  assert(bm.take(0) =~= Seq::empty());
  reveal(Seq::filter);
}
/// the first `n` entries that have a path, as a map
pub open spec fn fsel(bm: Seq<(u32, Branch)>, n: int) -> Seq<(u32, Branch)> { bm.take(n).filter(|e: (u32, Branch)| with_path(e.1)) }
pub proof fn lem_fsel(bm: Seq<(u32, Branch)>, n: int)
  requires im_wf(bm), 0 <= n <= bm.len()
  ensures im_wf(fsel(bm, n)),
    forall|k: KeyRepr| #[trigger] hask(fsel(bm, n), k) <==> (exists|i: int| #[trigger] is_at(bm, k, i) && i < n && with_path(bm[i].1)),
    forall|k: KeyRepr| hask(fsel(bm, n), k) ==> #[trigger] val(fsel(bm, n), k) == val(bm, k),
    forall|i: int| 0 <= i < fsel(bm, n).len() ==> with_path((#[trigger] fsel(bm, n)[i]).1),
    n < bm.len() ==> fsel(bm, n + 1) == (if with_path(bm[n].1) { put(fsel(bm, n), bm[n].0, bm[n].1) } else { fsel(bm, n) }),
  decreases n
{
  let f = fsel(bm, n);
  reveal(Seq::filter);
  if n == 0 { assert(bm.take(0) =~= Seq::empty()); }
  else {
    lem_fsel(bm, n - 1);
    let g = fsel(bm, n - 1);
    let x = bm[n - 1];
    lem_at(bm, n - 1);
    if with_path(x.1) {
      lem_put(g, x.0, x.1, f);
      assert(f == put(g, x.0, x.1));
      assert forall|k: KeyRepr| #[trigger] hask(f, k) <==> (exists|i: int| #[trigger] is_at(bm, k, i) && i < n && with_path(bm[i].1)) by {
        if hask(g, k) { let i = choose|i: int| #[trigger] is_at(bm, k, i) && i < n - 1 && with_path(bm[i].1); assert(is_at(bm, k, i)); }
        if k == key_repr(&x.0) { assert(is_at(bm, k, n - 1)); }
      }
      assert forall|k: KeyRepr| hask(f, k) implies #[trigger] val(f, k) == val(bm, k) by { if k != key_repr(&x.0) { assert(hask(g, k)); } }
    } else {
      assert forall|k: KeyRepr| #[trigger] hask(f, k) <==> (exists|i: int| #[trigger] is_at(bm, k, i) && i < n && with_path(bm[i].1)) by {
        if exists|i: int| #[trigger] is_at(bm, k, i) && i < n && with_path(bm[i].1) { let i = choose|i: int| #[trigger] is_at(bm, k, i) && i < n && with_path(bm[i].1); assert(i < n - 1); }
      }
    }
  }
  if n < bm.len() {
    assert(bm.take(n + 1).drop_last() =~= bm.take(n));
    let x = bm[n];
    lem_at(bm, n);
    assert(!hask(f, key_repr(&x.0))) by {
      if hask(f, key_repr(&x.0)) { let i = choose|i: int| #[trigger] is_at(bm, key_repr(&x.0), i) && i < n && with_path(bm[i].1); lem_at(bm, i); }
    }
  }
}
pub proof fn lem_prune_step(s0: SourceCoverage, n: int, m0: Seq<(u32, Branch)>, b0: Seq<(u32, Vec<u32>)>, t0: Option<IndexMap<u32, Vec<u32>>>,
    m: Seq<(u32, Branch)>, b: Seq<(u32, Vec<u32>)>, t: Option<IndexMap<u32, Vec<u32>>>)
  requires rec_ok(s0), 0 <= n < s0.inner.branch_map@.len(), pruned(s0.inner.branch_map@, n, m0, b0, t0, s0.inner.b@, s0.inner.b_t),
    t is Some <==> t0 is Some, t is Some ==> im_wf((t0->0)@),
    ({ let x = s0.inner.branch_map@[n]; if with_path(x.1) { m == put(m0, x.0, x.1) && b == b0 && t == t0 } else { m == m0 && b == taken_out(b0, u(x.0)) && (t is Some ==> (t->0)@ == taken_out((t0->0)@, u(x.0))) } })
  ensures pruned(s0.inner.branch_map@, n + 1, m, b, t, s0.inner.b@, s0.inner.b_t)
{
  let bm = s0.inner.branch_map@;
  lem_dense(bm, s0.meta.last.b as int);
  lem_fsel(bm, n);
  let x = bm[n];
  lem_at(bm, n);
  lem_taken_out(b0, u(x.0), taken_out(b0, u(x.0)));
  if t is Some { lem_taken_out((t0->0)@, u(x.0), taken_out((t0->0)@, u(x.0))); }
  assert forall|k: KeyRepr| #[trigger] dropped(bm, n + 1, k) == (dropped(bm, n, k) || (k == u(x.0) && !with_path(x.1))) by {
    if dropped(bm, n, k) { let i = choose|i: int| #[trigger] is_at(bm, k, i) && i < n && !with_path(bm[i].1); assert(is_at(bm, k, i) && i < n + 1); }
    if k == u(x.0) { assert(is_at(bm, k, n)); }
    if dropped(bm, n + 1, k) { let i = choose|i: int| #[trigger] is_at(bm, k, i) && i < n + 1 && !with_path(bm[i].1); if i == n { assert(k == u(x.0)); } else { assert(is_at(bm, k, i)); } }
  }
}
pub proof fn lem_pruned_all(a: SourceCoverage, c: SourceCoverage)
  requires rec_ok(a), a.meta == c.meta, c.inner == (FileCoverage { branch_map: c.inner.branch_map, b: c.inner.b, b_t: c.inner.b_t, ..a.inner }),
    pruned(a.inner.branch_map@, a.inner.branch_map@.len() as int, c.inner.branch_map@, c.inner.b@, c.inner.b_t, a.inner.b@, a.inner.b_t),
  ensures frozen_ok(c), kept(a.inner.branch_map@, c.inner.branch_map@),
{
  let bm = a.inner.branch_map@;
  let n = bm.len() as int;
  lem_dense(bm, n);
  lem_dense(a.inner.b@, n);
  lem_fsel(bm, n);
  assert(bm.take(n) =~= bm);
  let m = c.inner.branch_map@;
  assert forall|k: KeyRepr| #[trigger] hask(m, k) <==> hask(bm, k) && !dropped(bm, n, k) by {
    if hask(bm, k) { let i = at(bm, k); assert(is_at(bm, k, i)); lem_at(bm, i);
      if !with_path(bm[i].1) { assert(dropped(bm, n, k)); }
      if dropped(bm, n, k) { let j = choose|j: int| #[trigger] is_at(bm, k, j) && j < n && !with_path(bm[j].1); lem_at(bm, j); assert(i == j);
        if hask(m, k) { let h = choose|h: int| #[trigger] is_at(bm, k, h) && h < n && with_path(bm[h].1); lem_at(bm, h); } }
    }
    if hask(m, k) { let h = choose|h: int| #[trigger] is_at(bm, k, h) && h < n && with_path(bm[h].1); assert(is_at(bm, k, h)); lem_at(bm, h); }
  }
  assert forall|k: KeyRepr| #[trigger] hask(m, k) <==> hask(c.inner.b@, k) by {
    if hask(bm, k) { let i = at(bm, k); assert(is_at(bm, k, i)); assert(bm[i].0 == i); assert(hask(a.inner.b@, u(i as u32))); }
    if hask(a.inner.b@, k) { let i = at(a.inner.b@, k); assert(is_at(a.inner.b@, k, i)); assert(a.inner.b@[i].0 == i); assert(hask(bm, u(i as u32))); }
  }
  assert(same_keys(m, c.inner.b@));
  assert forall|i: int| 0 <= i < c.inner.b@.len() implies #[trigger] zeros(c.inner.b@[i].1@, val(m, u(c.inner.b@[i].0)).locations@.len()) by {
    let k = c.inner.b@[i].0;
    lem_at(c.inner.b@, i);
    assert(hask(c.inner.b@, u(k)) && hask(a.inner.b@, u(k)));
    assert(val(c.inner.b@, u(k)) == val(a.inner.b@, u(k)));
    assert(a.inner.b@[k as int].0 == k);
    assert(zeros(a.inner.b@[k as int].1@, val(bm, u(a.inner.b@[k as int].0)).locations@.len()));
    assert(hask(m, u(k)));
  }
  if c.inner.b_t is Some {
    let (t0, t) = ((a.inner.b_t->0)@, (c.inner.b_t->0)@);
    assert forall|i: int| 0 <= i < t.len() implies hask(m, u((#[trigger] t[i]).0)) && val(m, u(t[i].0)).branch_type == BranchType::BinaryExpr
     && zeros(t[i].1@, val(m, u(t[i].0)).locations@.len()) by {
      let k = t[i].0;
      assert(is_at(t, u(k), i));
      assert(is_at(t, key_repr(&t[i].0), i)); assert(key_repr(&t[i].0) == u(k));
      assert(hask(t, u(k)));
      assert(!dropped(bm, n, u(k)));
      assert(hask(t0, u(k)));
      let j = at(t0, u(k)); assert(is_at(t0, u(k), j)); assert(t0[j].0 == k);
      assert(hask(bm, u(t0[j].0)));
      assert(hask(m, u(k)));
      assert(val(m, u(k)) == val(bm, u(k)));
      lem_at(t, i);
      assert(val(t, u(k)) == val(t0, u(k)));
    }
  }
}
