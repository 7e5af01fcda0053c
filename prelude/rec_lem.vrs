pub proof fn lem_rec_stmt(a: SourceCoverage, b: SourceCoverage, loc: Range, r: u32)
  requires b.inner.statement_map@ == a.inner.statement_map@.push((r, loc)),
    b.inner == (FileCoverage { statement_map: b.inner.statement_map, s: b.inner.s, ..a.inner }),
  ensures rec(b) == rec_stmt(rec(a), loc)
{ reveal(rec); let (x, y) = (rec(b), rec_stmt(rec(a), loc)); assert(x.s =~= y.s); assert(x.f =~= y.f); assert(x.b =~= y.b); }
pub proof fn lem_rec_fn(a: SourceCoverage, b: SourceCoverage, name: Option<String>, decl: Range, loc: Range, r: u32)
  requires b.inner.fn_map@.len() == a.inner.fn_map@.len() + 1, b.inner.fn_map@.drop_last() == a.inner.fn_map@, fn_entry(b.inner.fn_map@.last().1, name, decl, loc, r),
    b.inner == (FileCoverage { fn_map: b.inner.fn_map, f: b.inner.f, ..a.inner }),
  ensures rec(b) == rec_fn(rec(a), name_of(name, r), decl, loc)
{
  reveal(rec); let (x, y) = (rec(b), rec_fn(rec(a), name_of(name, r), decl, loc));
  let (m, n) = (a.inner.fn_map@, b.inner.fn_map@);
  assert forall|i: int| 0 <= i < m.len() implies #[trigger] n[i] == m[i] by { assert(n.drop_last()[i] == n[i]); }
  assert(x.s =~= y.s); assert(x.f =~= y.f); assert(x.b =~= y.b);
}
pub proof fn lem_rec_branch(a: SourceCoverage, b: SourceCoverage, kind: BranchType, loc: Range, logic: bool, r: u32)
  requires rec_ok(a), r == a.meta.last.b, b.inner.branch_map@ == a.inner.branch_map@.push((r, b.inner.branch_map@.last().1)), branch_entry(b.inner.branch_map@.last().1, kind, loc),
    (kind == BranchType::BinaryExpr && logic) ==> b.inner.b_t is Some && truthy_added(a.inner.b_t, (b.inner.b_t->0)@, r),
    !(kind == BranchType::BinaryExpr && logic) ==> b.inner.b_t == a.inner.b_t,
    b.inner == (FileCoverage { branch_map: b.inner.branch_map, b: b.inner.b, b_t: b.inner.b_t, ..a.inner }),
  ensures rec(b) == rec_branch(rec(a), kind, loc, logic)
{
  reveal(rec); let (x, y) = (rec(b), rec_branch(rec(a), kind, loc, logic));
  assert(x.s =~= y.s); assert(x.f =~= y.f);
  let (m, n) = (a.inner.branch_map@, b.inner.branch_map@);
  lem_truthy_fresh(a, r);
  assert forall|i: int| 0 <= i < m.len() implies #[trigger] br_e(b.inner, n[i].0, n[i].1) == br_e(a.inner, m[i].0, m[i].1) by {
    assert(n[i] == m[i]); assert(m[i].0 == i);
    if kind == BranchType::BinaryExpr && logic { lem_truthy_has(a.inner.b_t, (b.inner.b_t->0)@, r, m[i].0); }
  }
  let e = n.last().1;
  assert(n[r as int] == (r, e));
  if kind == BranchType::BinaryExpr && logic { lem_truthy_has(a.inner.b_t, (b.inner.b_t->0)@, r, r); }
  assert(e.locations@ =~= Seq::<Range>::empty());
  assert(br_e(b.inner, r, e) == y.b[r as int]);
  assert(x.b =~= y.b);
}
pub proof fn lem_truthy_has(t: Option<IndexMap<u32, Vec<u32>>>, t2: Seq<(u32, Vec<u32>)>, r: u32, k: u32)
  requires truthy_added(t, t2, r)
  ensures hask(t2, u(k)) == (k == r || (t is Some && hask((t->0)@, u(k))))
{
  broadcast use ax_key_u32;
  let d = t2.drop_last();
  if hask(t2, u(k)) { let i = at(t2, u(k)); assert(is_at(t2, u(k), i)); if i < d.len() { assert(d[i] == t2[i]); assert(is_at(d, u(k), i)); } }
  if k == r { assert(is_at(t2, u(k), t2.len() - 1)); }
  if t is Some && hask((t->0)@, u(k)) { let i = at((t->0)@, u(k)); assert(is_at((t->0)@, u(k), i)); assert(t2[i] == d[i]); assert(is_at(t2, u(k), i)); }
}
pub proof fn lem_same_has<A, B>(a: Seq<(u32, A)>, b: Seq<(u32, B)>, k: KeyRepr)
  requires same_ids(a, b) ensures hask(a, k) == hask(b, k)
{
  if hask(a, k) { let i = at(a, k); assert(is_at(a, k, i)); assert(a[i].0 == b[i].0); assert(is_at(b, k, i)); }
  if hask(b, k) { let i = at(b, k); assert(is_at(b, k, i)); assert(a[i].0 == b[i].0); assert(is_at(a, k, i)); }
}
pub proof fn lem_rec_path(a: SourceCoverage, b: SourceCoverage, name: u32, loc: Range)
  requires rec_ok(a), name < a.meta.last.b, path_added(a.inner.branch_map@, name, loc, b.inner.branch_map@),
    b.inner.b_t is Some <==> a.inner.b_t is Some, a.inner.b_t is Some ==> same_ids((a.inner.b_t->0)@, (b.inner.b_t->0)@),
    b.inner == (FileCoverage { branch_map: b.inner.branch_map, b: b.inner.b, b_t: b.inner.b_t, ..a.inner }),
  ensures rec(b) == rec_path(rec(a), name as int, loc)
{
  reveal(rec); let (x, y) = (rec(b), rec_path(rec(a), name as int, loc));
  assert(x.s =~= y.s); assert(x.f =~= y.f);
  let (m, n) = (a.inner.branch_map@, b.inner.branch_map@);
  assert forall|i: int| 0 <= i < m.len() implies #[trigger] x.b[i] == y.b[i] by {
    assert(m[i].0 == i);
    if i != name { assert(n[i] == m[i]); }
    if a.inner.b_t is Some { lem_same_has((a.inner.b_t->0)@, (b.inner.b_t->0)@, u(m[i].0)); }
  }
  assert(x.b =~= y.b);
}
