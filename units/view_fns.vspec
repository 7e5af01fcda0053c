%fn file_coverage.rs FileCoverage::get_line_coverage
%locals line_map=2 st=f0.0 count=f0.1 line=3
%ret r
  requires covered_by(self.s@, self.statement_map@),
  ensures line_cov(r@, lev(self.s@, self.statement_map@)),
%start
  let ghost e = lev(self.s@, self.statement_map@);
%loop 0
    line_cov(line_map@, e.take(it0.pos())),
%loopstart 0
  let ghost lm0 = line_map@;
%loopend 0
  proof {
    let n = it0.pos() - 1;
    lem_line_step(lm0, e, n, e[n].0, self.s@[n].1, line_map@);
  }
%after 0
  assert(e.take(e.len() as int) =~= e);

%fn file_coverage.rs FileCoverage::get_uncovered_lines
%locals ret=1 lc=0
%ret r
  requires covered_by(self.s@, self.statement_map@),
  ensures
    forall|l: u32| #[trigger] r@.contains(l) == (ev_has(lev(self.s@, self.statement_map@), l) && ev_max(lev(self.s@, self.statement_map@), l) == 0),
    r@.no_duplicates(),
%before 0
  let ghost lcs = lc@;
  assert(im_wf(lcs));
%loop 0
    forall|l: u32| #[trigger] ret@.contains(l) == (exists|i: int| 0 <= i < it0.pos() && #[trigger] lcs[i] == (l, 0u32)),
    ret@.no_duplicates(),
%loopstart 0
  let ghost ret0 = ret@;
%loopend 0
  proof {
    let n = it0.pos() - 1;
    assert forall|l: u32| #[trigger] ret@.contains(l) == (exists|i: int| 0 <= i < it0.pos() && #[trigger] lcs[i] == (l, 0u32)) by {
      let before = ret0.contains(l);
      if ret@.contains(l) {
        let x = choose|x: int| 0 <= x < ret@.len() && ret@[x] == l;
        if x < ret0.len() { assert(ret0[x] == l); assert(ret0.contains(l)); } else { assert(lcs[n] == (l, 0u32)); }
      }
      if before { let x = choose|x: int| 0 <= x < ret0.len() && ret0[x] == l; assert(ret@[x] == l); }
      if lcs[n] == (l, 0u32) { assert(ret@[ret0.len() as int] == l); }
    }
    if lcs[n].1 == 0 {
      assert(!ret0.contains(lcs[n].0)) by {
        if ret0.contains(lcs[n].0) { let i = choose|i: int| 0 <= i < n && #[trigger] lcs[i] == (lcs[n].0, 0u32); lem_at(lcs, i); lem_at(lcs, n); assert(is_at(lcs, u(lcs[n].0), i)); assert(is_at(lcs, u(lcs[n].0), n)); }
      }
    }
  }
%end
  proof {
    assert forall|l: u32| #[trigger] r@.contains(l) == (ev_has(lev(self.s@, self.statement_map@), l) && ev_max(lev(self.s@, self.statement_map@), l) == 0) by {
      assert(hask(lcs, u(l)) == ev_has(lev(self.s@, self.statement_map@), l));
      if hask(lcs, u(l)) { let i = at(lcs, u(l)); assert(is_at(lcs, u(l), i)); assert(lcs[i].0 == l); }
      if r@.contains(l) { let i = choose|i: int| 0 <= i < lcs.len() && #[trigger] lcs[i] == (l, 0u32); lem_at(lcs, i); }
    }
  }

%fn coverage.rs Coverage::new
%params covered, total, coverage
%ret r
  ensures r.covered == covered, r.total == total, r.coverage == coverage,

%fn file_coverage.rs FileCoverage::get_branch_coverage_by_line
%locals prefilter_data=2 ret=3 k=f0.0 map=f0.1
%nloops 3
%ret r
  requires
    covered_by(self.branch_map@, self.b@),
    forall|i: int| 0 <= i < self.branch_map@.len() ==> has_line((#[trigger] self.branch_map@[i]).1),
    forall|l: u32| (#[trigger] line_paths(self.branch_map@, self.b@, l)).len() <= u32::MAX,
  ensures branch_lines(self.branch_map@, self.b@, r@),
%loop 0
    pre_ok(prefilter_data@, self.branch_map@.take(it0.pos()), self.b@),
%loopstart 0
  let ghost pre0 = prefilter_data@;
%loopend 0
  proof {
    let n = it0.pos() - 1;
    let line0 = b_line(self.branch_map@[n].1);
    let v = if hask(pre0, u(line0)) { prefilter_data@[at(pre0, u(line0))].1 } else { prefilter_data@.last().1 };
    assert(prefilter_data@ =~= put(pre0, line0, v));
    assert(v@ =~= (if hask(pre0, u(line0)) { val(pre0, u(line0))@ + val(self.b@, u(self.branch_map@[n].0))@ } else { val(self.b@, u(self.branch_map@[n].0))@ }));
    lem_pre_step(pre0, self.branch_map@, n, self.b@, line0, prefilter_data@, v);
  }
%after 0
  assert(self.branch_map@.take(self.branch_map@.len() as int) =~= self.branch_map@);
  let ghost pre = prefilter_data@;
%loop 1
    ret@.len() == it1.pos(),
    forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i]).0 == pre[i].0
       && ret@[i].1.covered == npos(pre[i].1@) && ret@[i].1.total == pre[i].1@.len() && ret@[i].1.coverage == branch_pct(npos(pre[i].1@) as int, pre[i].1@.len() as int),
%loopstart 1
  let ghost ret0 = ret@;
%loop 2
    acc@.len() == npos(data_array@.take(it2.pos())), acc@.len() <= it2.pos(),
%loopend 2
  proof { lem_npos(data_array@, it2.pos() - 1); }
%after 2
  assert(data_array@.take(data_array@.len() as int) =~= data_array@);
%loopend 1
  proof {
    let n = it1.pos() - 1;
    assert(pre[n].0 == k);
    lem_at(pre, n);
    assert(hask(pre, u(k)));
    if hask(ret0, u(k)) { let i = at(ret0, u(k)); assert(is_at(ret0, u(k), i)); assert(key_repr(&pre[i].0) != key_repr(&pre[n].0)); }
    assert(ret@ =~= ret0.push(ret@.last()));
    lem_npos_le(data_array@);
  }
%end
  proof {
    assert forall|l: u32| #[trigger] hask(r@, u(l)) == hask(pre, u(l)) by {
      if hask(r@, u(l)) { let i = at(r@, u(l)); assert(is_at(r@, u(l), i)); assert(is_at(pre, u(l), i)); }
      if hask(pre, u(l)) { let i = at(pre, u(l)); assert(is_at(pre, u(l), i)); assert(is_at(r@, u(l), i)); }
    }
    assert forall|l: u32| #[trigger] hask(r@, u(l)) implies val(r@, u(l)).covered == npos(val(pre, u(l))@) && val(r@, u(l)).total == val(pre, u(l))@.len() && val(r@, u(l)).coverage == branch_pct(npos(val(pre, u(l))@) as int, val(pre, u(l))@.len() as int) by {
      let i = at(r@, u(l)); assert(is_at(r@, u(l), i)); assert(is_at(pre, u(l), i)); lem_at(pre, i); assert(r@[i].0 == pre[i].0); lem_at(r@, i);
    }
    assert forall|l: u32| #[trigger] hask(r@, u(l)) == line_has(self.branch_map@, l) by { assert(hask(pre, u(l)) == line_has(self.branch_map@, l)); }
  }

%fn percent.rs percent
%params covered, total
%ret r
  requires true,
  ensures r == pct_spec(covered as nat, total as nat),
%start
  assert(1000 * 100 * (covered as int) <= 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires covered <= 0xffff_ffffu32;

%fn file_coverage.rs FileCoverage::compute_simple_totals
%params line_map
%nloops 1
%ret r
  requires line_map@.len() <= u32::MAX,
  ensures totals_are(r, line_map@.len(), nposv(line_map@), 0),
%loop 0
    acc == nposv(line_map@.take(it0.pos())), acc <= it0.pos(),
%loopend 0
  proof { lem_nposv(line_map@, it0.pos() - 1); }
%after 0
  assert(line_map@.take(line_map@.len() as int) =~= line_map@);

%fn file_coverage.rs FileCoverage::compute_branch_totals
%params branch_map
%locals ret=0 branches=c0.0
%nloops 2
%ret r
  requires btot(branch_map@) <= u32::MAX,
  ensures totals_are(r, btot(branch_map@), bcov(branch_map@), 0),
%loop 0
    ret.covered == bcov(branch_map@.take(it0.pos())), ret.total == btot(branch_map@.take(it0.pos())), ret.skipped == 0,
%loopstart 0
  proof { lem_btot(branch_map@, it0.pos() - 1); lem_btot_mono(branch_map@, it0.pos()); lem_btot_mono(branch_map@, it0.pos() - 1); }
%loop 1
    acc == npos(branches@.take(it1.pos())), acc <= it1.pos(),
%loopend 1
  proof { lem_npos(branches@, it1.pos() - 1); }
%after 1
  assert(branches@.take(branches@.len() as int) =~= branches@);
%after 0
  assert(branch_map@.take(branch_map@.len() as int) =~= branch_map@);

%fn file_coverage.rs FileCoverage::reset_hits
%locals val=f0.0 branches_true=i0.0
%nloops 6
  ensures
    same_but_hits(*old(self), *final(self)),
    zeroed(old(self).s@, final(self).s@), zeroed(old(self).f@, final(self).f@), vzeroed(old(self).b@, final(self).b@),
    old(self).b_t is None ==> final(self).b_t is None,
    old(self).b_t is Some ==> final(self).b_t is Some && vzeroed(old(self).b_t->0@, final(self).b_t->0@),
%start
  let ghost o = *self;
%loop 0
    same_but_hits(o, *self), self.f@ == o.f@, self.b@ == o.b@, self.b_t == o.b_t,
    ixn0 == o.s@.len(), self.s@.len() == ixn0,
    forall|i: int| 0 <= i < ixn0 ==> (#[trigger] self.s@[i]).0 == o.s@[i].0,
    forall|i: int| 0 <= i < ix0 ==> (#[trigger] self.s@[i]).1 == 0,
%loop 1
    same_but_hits(o, *self), zeroed(o.s@, self.s@), self.b@ == o.b@, self.b_t == o.b_t,
    ixn1 == o.f@.len(), self.f@.len() == ixn1,
    forall|i: int| 0 <= i < ixn1 ==> (#[trigger] self.f@[i]).0 == o.f@[i].0,
    forall|i: int| 0 <= i < ix1 ==> (#[trigger] self.f@[i]).1 == 0,
%loop 2
    same_but_hits(o, *self), zeroed(o.s@, self.s@), zeroed(o.f@, self.f@), self.b_t == o.b_t,
    ixn2 == o.b@.len(), self.b@.len() == ixn2,
    forall|i: int| 0 <= i < ixn2 ==> (#[trigger] self.b@[i]).0 == o.b@[i].0 && self.b@[i].1@.len() == o.b@[i].1@.len(),
    forall|i: int| 0 <= i < ix2 ==> vzero((#[trigger] self.b@[i]).1@),
%loop 3
    val@.len() == ixn3, forall|j: int| 0 <= j < ix3 ==> #[trigger] val@[j] == 0,
%before 4
    let ghost bt0 = branches_true@;
%loop 4
    ixn4 == bt0.len(), branches_true@.len() == ixn4,
    forall|i: int| 0 <= i < ixn4 ==> (#[trigger] branches_true@[i]).0 == bt0[i].0 && branches_true@[i].1@.len() == bt0[i].1@.len(),
    forall|i: int| 0 <= i < ix4 ==> vzero((#[trigger] branches_true@[i]).1@),
%loop 5
    val@.len() == ixn5, forall|j: int| 0 <= j < ix5 ==> #[trigger] val@[j] == 0,
