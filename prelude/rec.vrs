pub open spec fn fn_e(e: Function) -> FnE { FnE { name: e.name@, decl: e.decl, loc: e.loc } }
pub open spec fn br_e(c: FileCoverage, id: u32, e: Branch) -> BrE { BrE { kind: e.branch_type, loc: e.loc, paths: e.locations@, truthy: c.b_t is Some && hask((c.b_t->0)@, u(id)) } }
pub open spec fn rec_f(c: FileCoverage) -> Rec {
  Rec {
    s: Seq::new(c.statement_map@.len(), |i: int| c.statement_map@[i].1),
    f: Seq::new(c.fn_map@.len(), |i: int| fn_e(c.fn_map@[i].1)),
    b: Seq::new(c.branch_map@.len(), |i: int| br_e(c, c.branch_map@[i].0, c.branch_map@[i].1)),
  }
}
#[verifier::opaque] pub open spec fn rec(c: SourceCoverage) -> Rec { rec_f(c.inner) }
