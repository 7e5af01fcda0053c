%fn coverage_map.rs CoverageMap::new
%ret r
  ensures r.inner@.len() == 0,

%fn coverage_map.rs CoverageMap::default
%ret r
  ensures r.inner@.len() == 0,

%fn coverage_map.rs CoverageMap::get_files
%ret r
  ensures r@.len() == self.inner@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.inner@[i].0,

%fn coverage_map.rs CoverageMap::get_coverage_for_file
%params file_path
%ret r
  ensures r is Some <==> hask(self.inner@, cs(file_path@)), r is Some ==> *(r->0) == val(self.inner@, cs(file_path@)),

%fn coverage_map.rs CoverageMap::add_coverage_for_file
%params coverage
  requires
    map_wf(old(self).inner@), fc_wf(*coverage),
    hask(old(self).inner@, cs(coverage.path@)) ==> can_merge(val(old(self).inner@, cs(coverage.path@)), *coverage),
  ensures
    cm_add(old(self).inner@, *coverage, final(self).inner@),
    map_wf(final(self).inner@),
%start
  proof { if hask(self.inner@, cs(coverage.path@)) { assert(is_at(self.inner@, cs(coverage.path@), at(self.inner@, cs(coverage.path@)))); } }

%fn coverage_map.rs CoverageMap::merge
%params map
  requires
    map_wf(old(self).inner@), map_wf(map.inner@),
    forall|i: int| 0 <= i < map.inner@.len() && hask(old(self).inner@, cs((#[trigger] map.inner@[i]).0@)) ==> can_merge(val(old(self).inner@, cs(map.inner@[i].0@)), map.inner@[i].1),
  ensures
    cm_merged(old(self).inner@, map.inner@, final(self).inner@),
    map_wf(final(self).inner@),
%start
  let ghost a = self.inner@;
  let ghost b = map.inner@;
  assert(im_wf(a)); assert(im_wf(b));
  proof {
    assert(b.take(0).len() == 0);
    assert forall|k: Seq<char>| !hask(b.take(0), cs(k)) by { if hask(b.take(0), cs(k)) { assert(is_at(b.take(0), cs(k), at(b.take(0), cs(k)))); } }
  }
%loop 0
    cm_merged(a, b.take(it0.pos()), self.inner@), map_wf(self.inner@),
%loopstart 0
  let ghost r0 = self.inner@;
  let ghost n = it0.pos() - 1;
  assert(im_wf(r0));
  proof {
    lem_take_wf(b, n);
    let p = b[n].0@;
    assert(hask(r0, cs(p)) == (hask(a, cs(p)) || hask(b.take(n), cs(p))));
    if hask(a, cs(p)) { assert(val(r0, cs(p)) == val(a, cs(p))); }
  }
%loopend 0
  assert(im_wf(self.inner@));
  proof { lem_cm_step(a, b, n, r0, self.inner@); }
%after 0
  assert(b.take(b.len() as int) =~= b);

%fn coverage_map.rs CoverageMap::from_iter
%params value
%ret r
  requires
    value.vx_fresh(),
    forall|i: int| 0 <= i < value.vx_items().len() ==> fc_wf(*#[trigger] value.vx_items()[i]),
    seq_fits(value.vx_items()),
  ensures cm_from(value.vx_items(), r.inner@), map_wf(r.inner@),
%locals ret=0
%start
  let ghost v = value.vx_items();
%before 0
  proof {
    assert(v.take(0).len() == 0);
    assert forall|k: Seq<char>| !hask(ret.inner@, cs(k)) by { if hask(ret.inner@, cs(k)) { assert(is_at(ret.inner@, cs(k), at(ret.inner@, cs(k)))); } }
  }
%loop 0
    cm_from(v.take(it0.pos()), ret.inner@), map_wf(ret.inner@),
%loopstart 0
  let ghost r0 = ret.inner@;
  let ghost n = it0.pos() - 1;
  assert(im_wf(r0));
  proof { if hask(r0, cs(v[n].path@)) { assert(is_at(r0, cs(v[n].path@), at(r0, cs(v[n].path@)))); if !v[n].all && !val(r0, cs(v[n].path@)).all { lem_from_fit(v, n, r0); } } }
%loopend 0
  assert(im_wf(ret.inner@));
  proof { lem_from_step(v, n, r0, ret.inner@); }
%after 0
  assert(v.take(v.len() as int) =~= v);

%fn coverage_map.rs CoverageMap::filter
%params predicate
%locals filtered=0
  requires
    map_wf(old(self).inner@),
    forall|i: int| 0 <= i < old(self).inner@.len() ==> call_requires(predicate, (&(#[trigger] old(self).inner@[i]).1,)),
  ensures
    map_wf(final(self).inner@),
    exists|keep: Seq<bool>| keep.len() == old(self).inner@.len() && #[trigger] same_entries(final(self).inner@, kept(old(self).inner@, keep))
      && forall|i: int| 0 <= i < keep.len() ==> call_ensures(predicate, (&(#[trigger] old(self).inner@[i]).1,), keep[i]),
%start
  let ghost m = self.inner@;
  assert(im_wf(m));
  let ghost mut keep = Seq::<bool>::empty();
%before 0
  assert(m.take(0).len() == 0);
%loop 0
    keep.len() == it0.pos(), same_entries(filtered@, kept(m.take(it0.pos()), keep)),
    forall|i: int| 0 <= i < keep.len() ==> call_ensures(predicate, (&(#[trigger] m[i]).1,), keep[i]),
%loopstart 0
  let ghost f0 = filtered@;
  let ghost n = it0.pos() - 1;
  let ghost keep0 = keep;
%loopend 0
  proof {
    let p = m[n].1.path@;
    assert(im_wf(f0));
    if hask(f0, cs(p)) {
      let i = at(f0, cs(p)); assert(is_at(f0, cs(p), i));
      lem_kept_src(m.take(n), keep0, i);
      let j = choose|j: int| 0 <= j < n && #[trigger] m.take(n)[j] == kept(m.take(n), keep0)[i] && keep0[j];
      assert(m.take(n)[j] == m[j]);
      assert(key_repr(&m[j].0) != key_repr(&m[n].0));
    }
    keep = keep0.push(filtered@.len() != f0.len());
    assert(keep[n] == (filtered@.len() != f0.len()));
    assert(m[n].0@ == p);
    lem_kept_push(m, n, keep0, keep);
  }
%after 0
  assert(m.take(m.len() as int) =~= m);
%end
  proof {
    assert(same_entries(self.inner@, kept(m, keep)));
    assert forall|i: int| 0 <= i < self.inner@.len() implies (#[trigger] self.inner@[i]).0@ == self.inner@[i].1.path@ && fc_wf(self.inner@[i].1) by {
      lem_kept_src(m, keep, i);
    }
  }

%fn coverage_map.rs CoverageMap::get_coverage_summary
%ret r
  requires map_wf(self.inner@), map_fit(self.inner@), forall|i: int| 0 <= i < self.inner@.len() ==> counts_fit((#[trigger] self.inner@[i]).1),
  ensures map_summary(self.inner@, r),
%locals ret=0
%start
  let ghost m = self.inner@;
%before 0
  assert(m.take(0).len() == 0);
%loop 0
    map_summary(m.take(it0.pos()), ret),
%loopstart 0
  proof { lem_sum_step(m, it0.pos() - 1); }
%after 0
  assert(m.take(m.len() as int) =~= m);

%fn file_coverage.rs FileCoverage::empty
%params file_path, report_logic
%ret r
  ensures blank(r, file_path@, report_logic),

%fn file_coverage.rs FileCoverage::from_file_path
%params file_path, report_logic
%ret r
  ensures blank(r, file_path@, report_logic),

%fn file_coverage.rs FileCoverage::from_file_coverage
%params coverage
%ret r
  ensures r == *coverage,

%fn range.rs Range::new
%params start_line, start_column, end_line, end_column
%ret r
  ensures r.start.line == start_line, r.start.column == start_column, r.end.line == end_line, r.end.column == end_column,

%fn types.rs Branch::from_line
%params branch_type, line, locations
%ret r
  ensures r.branch_type == branch_type, r.line == Some(line), r.loc is None, r.locations == locations,

%fn types.rs Branch::from_loc
%params branch_type, loc, locations
%ret r
  ensures r.branch_type == branch_type, r.loc == Some(loc), r.line is None, r.locations == locations,
