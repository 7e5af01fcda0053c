%fn file_coverage.rs FileCoverage::empty
%params file_path, report_logic
%ret r
  ensures blank(r, file_path@, report_logic),

%fn file_coverage.rs FileCoverage::from_file_path
%params file_path, report_logic
%ret r
  ensures blank(r, file_path@, report_logic),

%fn source_coverage/mod.rs SourceCoverage::new
%params file_path, report_logic
%ret r
  ensures blank(r.inner, file_path@, report_logic), r.meta.last.s == 0, r.meta.last.f == 0, r.meta.last.b == 0, rec_ok(r),

%fn source_coverage/mod.rs SourceCoverage::as_ref
%ret r
  ensures *r == self.inner,

%fn source_coverage/mod.rs SourceCoverage::new_statement
%params loc
%ret r
  requires rec_ok(*old(self)), old(self).meta.last.s < u32::MAX,
  ensures rec_ok(*final(self)), r == old(self).meta.last.s,
    final(self).meta.last == (SourceCoverageMetaHitCount { s: (r + 1) as u32, ..old(self).meta.last }),
    final(self).inner.statement_map@ == old(self).inner.statement_map@.push((r, *loc)),
    final(self).inner.s@ == old(self).inner.s@.push((r, 0)),
    final(self).inner == (FileCoverage { statement_map: final(self).inner.statement_map, s: final(self).inner.s, ..old(self).inner }),
    rec(*final(self)) == rec_stmt(rec(*old(self)), *loc), r == rec(*old(self)).s.len(),
%end
  proof { lem_rec_stmt(*old(self), *self, *loc, r); reveal(crate::rec); }
%start
  proof { lem_dense(self.inner.s@, self.meta.last.s as int); lem_dense(self.inner.statement_map@, self.meta.last.s as int); }

%fn source_coverage/mod.rs SourceCoverage::new_function
%params name, decl, loc
%ret r
  requires rec_ok(*old(self)), old(self).meta.last.f < u32::MAX,
  ensures rec_ok(*final(self)), r == old(self).meta.last.f,
    final(self).meta.last == (SourceCoverageMetaHitCount { f: (r + 1) as u32, ..old(self).meta.last }),
    final(self).inner.f@ == old(self).inner.f@.push((r, 0)),
    final(self).inner.fn_map@.len() == r + 1, final(self).inner.fn_map@.drop_last() == old(self).inner.fn_map@,
    fn_entry(final(self).inner.fn_map@.last().1, *name, *decl, *loc, r),
    final(self).inner == (FileCoverage { fn_map: final(self).inner.fn_map, f: final(self).inner.f, ..old(self).inner }),
    rec(*final(self)) == rec_fn(rec(*old(self)), name_of(*name, r), *decl, *loc), r == rec(*old(self)).f.len(),
%start
  proof { lem_dense(self.inner.f@, self.meta.last.f as int); lem_dense(self.inner.fn_map@, self.meta.last.f as int); }
  let ghost (fm0, name0) = (self.inner.fn_map@, *name);
%end
  proof { assert(self.inner.fn_map@.drop_last() =~= fm0); lem_anonymous(); lem_rec_fn(*old(self), *self, name0, *decl, *loc, r); reveal(crate::rec); }

%fn source_coverage/mod.rs SourceCoverage::new_branch
%params branch_type, loc, is_report_logic
%ret r
  requires rec_ok(*old(self)), old(self).meta.last.b < u32::MAX,
  ensures rec_ok(*final(self)), r == old(self).meta.last.b,
    final(self).meta.last == (SourceCoverageMetaHitCount { b: (r + 1) as u32, ..old(self).meta.last }),
    final(self).inner.branch_map@ == old(self).inner.branch_map@.push((r, final(self).inner.branch_map@.last().1)),
    branch_entry(final(self).inner.branch_map@.last().1, branch_type, *loc),
    final(self).inner.b@.len() == r + 1, final(self).inner.b@.drop_last() == old(self).inner.b@,
    (branch_type == BranchType::BinaryExpr && is_report_logic) ==> final(self).inner.b_t is Some && truthy_added(old(self).inner.b_t, (final(self).inner.b_t->0)@, r),
    !(branch_type == BranchType::BinaryExpr && is_report_logic) ==> final(self).inner.b_t == old(self).inner.b_t,
    final(self).inner == (FileCoverage { branch_map: final(self).inner.branch_map, b: final(self).inner.b, b_t: final(self).inner.b_t, ..old(self).inner }),
    rec(*final(self)) == rec_branch(rec(*old(self)), branch_type, *loc, is_report_logic), r == rec(*old(self)).b.len(),
%start
  let ghost s0 = *self;
  proof { lem_dense(self.inner.b@, self.meta.last.b as int); lem_dense(self.inner.branch_map@, self.meta.last.b as int); }
%end
  proof { assert(self.inner.b@.drop_last() =~= s0.inner.b@);
    lem_truthy_fresh(s0, r);
    if self.inner.b_t is Some { let t = (self.inner.b_t->0)@; let t0 = if s0.inner.b_t is Some { (s0.inner.b_t->0)@ } else { Seq::empty() }; if t.len() > 0 { assert(t.drop_last() =~= t0 || t =~= t0); } }
    lem_new_branch(s0, *self, r); lem_rec_branch(*old(self), *self, branch_type, *loc, is_report_logic, r); reveal(crate::rec); }

%fn source_coverage/mod.rs SourceCoverage::add_branch_path
%params name, location
%ret r
  requires rec_ok(*old(self)), name < old(self).meta.last.b, old(self).inner.branch_map@[name as int].1.locations@.len() < u32::MAX,
  ensures rec_ok(*final(self)), r == old(self).inner.branch_map@[name as int].1.locations@.len(),
    final(self).meta == old(self).meta,
    path_added(old(self).inner.branch_map@, name, *location, final(self).inner.branch_map@),
    final(self).inner.b_t is Some <==> old(self).inner.b_t is Some,
    old(self).inner.b_t is Some ==> same_ids((old(self).inner.b_t->0)@, (final(self).inner.b_t->0)@),
    final(self).inner == (FileCoverage { branch_map: final(self).inner.branch_map, b: final(self).inner.b, b_t: final(self).inner.b_t, ..old(self).inner }),
    rec(*final(self)) == rec_path(rec(*old(self)), name as int, *location), r == rec(*old(self)).b[name as int].paths.len(),
%start
  let ghost s0 = *self;
  proof { lem_dense(self.inner.b@, self.meta.last.b as int); lem_dense(self.inner.branch_map@, self.meta.last.b as int);
    assert(self.inner.b@[name as int].0 == name && self.inner.branch_map@[name as int].0 == name);
    assert(zeros(self.inner.b@[name as int].1@, val(self.inner.branch_map@, u(self.inner.b@[name as int].0)).locations@.len())); }
%callafter push 1
  proof { assert(dense(self.inner.b@, self.meta.last.b as int)); lem_dense(self.inner.b@, self.meta.last.b as int); }
%end
  proof {
    if s0.inner.b_t is Some { lem_zero_added((s0.inner.b_t->0)@, name, (self.inner.b_t->0)@); }
    lem_zero_added(s0.inner.b@, name, self.inner.b@);
    lem_add_path(s0, *self, name, *location); lem_rec_path(*old(self), *self, name, *location); reveal(crate::rec); }

%fn source_coverage/mod.rs SourceCoverage::set_input_source_map
%params source_map
  ensures final(self).meta == old(self).meta, final(self).inner == (FileCoverage { input_source_map: *source_map, ..old(self).inner }),

%fn source_coverage/mod.rs SourceCoverage::freeze
%locals map=0 branches=1 branches_t=2
  requires rec_ok(*old(self)),
  ensures frozen_ok(*final(self)), final(self).meta == old(self).meta,
    kept(old(self).inner.branch_map@, final(self).inner.branch_map@),
    final(self).inner == (FileCoverage { branch_map: final(self).inner.branch_map, b: final(self).inner.b, b_t: final(self).inner.b_t, ..old(self).inner }),
%before 0
  let ghost s0 = *old(self);
  let ghost bm = it0@;
  proof { lem_freeze_init(s0, branches@, *branches_t); }
%loop 0
    pruned(bm, it0.pos(), map@, branches@, *branches_t, s0.inner.b@, s0.inner.b_t),
%loopstart 0
  let ghost (m0, b0, t0) = (map@, branches@, *branches_t);
%loopend 0
  proof { lem_prune_step(s0, it0.pos() - 1, m0, b0, t0, map@, branches@, *branches_t); }
%end
  proof { lem_pruned_all(*old(self), *self); }
