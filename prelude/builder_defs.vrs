pub open spec fn u(k: u32) -> KeyRepr { KeyRepr::Nat(k as nat) }
pub open spec fn blank(c: FileCoverage, path: Seq<char>, logic: bool) -> bool {
  c.all == false && c.path@ == path && c.statement_map@.len() == 0 && c.fn_map@.len() == 0 && c.branch_map@.len() == 0 && c.s@.len() == 0 && c.f@.len() == 0 && c.b@.len() == 0
  && (if logic { c.b_t is Some && (c.b_t->0)@.len() == 0 } else { c.b_t is None }) && c.input_source_map is None
}
/// ids are 0, 1, 2, ...
pub open spec fn dense<V>(m: Seq<(u32, V)>, n: int) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] m[i]).0 == i }
pub open spec fn zero1(m: Seq<(u32, u32)>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).1 == 0 }
pub open spec fn zeros(v: Seq<u32>, n: nat) -> bool { v.len() == n && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == 0 }
/// every branch has one counter, zero, per path
pub open spec fn paths_ok(b: Seq<(u32, Vec<u32>)>, bm: Seq<(u32, Branch)>) -> bool {
  forall|i: int| 0 <= i < b.len() ==> #[trigger] zeros(b[i].1@, val(bm, u(b[i].0)).locations@.len())
}
/// truthy counters belong to logical branches of the report and have one counter, zero, per path
pub open spec fn truthy_ok(t: Option<IndexMap<u32, Vec<u32>>>, bm: Seq<(u32, Branch)>) -> bool {
  t is Some ==> forall|i: int| 0 <= i < (t->0)@.len() ==> hask(bm, u((#[trigger] (t->0)@[i]).0)) && val(bm, u((t->0)@[i].0)).branch_type == BranchType::BinaryExpr
     && zeros((t->0)@[i].1@, val(bm, u((t->0)@[i].0)).locations@.len())
}
pub open spec fn same_keys<A, B>(a: Seq<(u32, A)>, b: Seq<(u32, B)>) -> bool {
  forall|k: KeyRepr| #[trigger] hask(a, k) <==> hask(b, k)
}
/// what is recorded so far, before the branches without a path are dropped
pub open spec fn rec_ok(c: SourceCoverage) -> bool {
  let f = c.inner; let l = c.meta.last;
  &&& dense(f.statement_map@, l.s as int) && dense(f.s@, l.s as int) && zero1(f.s@)
  &&& dense(f.fn_map@, l.f as int) && dense(f.f@, l.f as int) && zero1(f.f@)
  &&& dense(f.branch_map@, l.b as int) && dense(f.b@, l.b as int) && paths_ok(f.b@, f.branch_map@)
  &&& truthy_ok(f.b_t, f.branch_map@)
}
pub open spec fn fn_entry(e: Function, name: Option<String>, decl: Range, loc: Range, id: u32) -> bool {
  e.name@ == (match name { Some(n) => n@, None => anonymous(id) }) && e.decl == decl && e.loc == loc && e.line == loc.start.line
}
pub open spec fn branch_entry(e: Branch, t: BranchType, loc: Range) -> bool {
  e.loc == Some(loc) && e.branch_type == t && e.locations@.len() == 0 && e.line == Some(loc.start.line)
}
