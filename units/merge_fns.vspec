%fn file_coverage.rs merge_properties
%generics T: VxKeyed
%params first_hits, first_map, second_hits, second_map, get_item_key_fn
%locals items=0 hits=5 map=6 key=f0.0 item_hits=f0.1 item=1 item_key=2 idx=f2.0 hit=f2.1
%ret r
  requires
    covered_by(first_hits@, first_map@), covered_by(second_hits@, second_map@),
    key_dom(get_item_key_fn, first_map@), key_dom(get_item_key_fn, second_map@), key_ok::<T, VxF0>(get_item_key_fn),
    forall|k: Seq<char>| #[trigger] tot(evs(first_hits@, first_map@), k) + tot(evs(second_hits@, second_map@), k) <= u32::MAX,
    first_hits@.len() + second_hits@.len() <= u32::MAX,
  ensures
    merged_counters(first_hits@, first_map@, second_hits@, second_map@, r.0@, r.1@),
%start
  let ghost e1 = evs(first_hits@, first_map@);
  let ghost e2 = evs(second_hits@, second_map@);
%loop 0
    items_ok(items@, e1.take(it0.pos())), items_src(items@, first_map@, second_map@),
%loopstart 0
  let ghost items0 = items@;
  proof {
    let n = it0.pos() - 1;
    let k = (val(first_map@, u(first_hits@[n].0))).vx_key();
    lem_tot_push(e1, n, k);
    lem_tot_mono(e1, n + 1, k);
    assert(iv(items0, k) == tot(e1.take(n), k));
    assert(tot(e1, k) + tot(e2, k) <= u32::MAX);
  }
%loopend 0
  proof {
    let n = it0.pos() - 1;
    let m = val(first_map@, u(first_hits@[n].0));
    lem_from_map(first_map@, u(first_hits@[n].0));
    lem_push_take(e1, n);
    lem_item_step(items0, e1.take(n), item_key, first_hits@[n].1, m, items@);
  }
%after 0
  assert(e1.take(e1.len() as int) =~= e1);
  assert(e1 + e2.take(0) =~= e1);
%loop 1
    items_ok(items@, e1 + e2.take(it1.pos())), items_src(items@, first_map@, second_map@),
%loopstart 1
  let ghost items0 = items@;
  proof {
    let n = it1.pos() - 1;
    let k = (val(second_map@, u(second_hits@[n].0))).vx_key();
    lem_tot_push(e2, n, k);
    lem_tot_mono(e2, n + 1, k);
    lem_tot_cat(e1, e2.take(n), k);
    assert(iv(items0, k) == tot(e1 + e2.take(n), k));
    assert(tot(e1, k) + tot(e2, k) <= u32::MAX);
  }
%loopend 1
  proof {
    let n = it1.pos() - 1;
    let m = val(second_map@, u(second_hits@[n].0));
    lem_from_map(second_map@, u(second_hits@[n].0));
    lem_cat_take(e1, e2, n);
    lem_item_step(items0, e1 + e2.take(n), item_key, second_hits@[n].1, m, items@);
  }
%after 1
  assert(e2.take(e2.len() as int) =~= e2);
%loop 2
    hits@ == ids(it2.pos(), |i: int| items@[i].1.0), map@ == ids(it2.pos(), |i: int| items@[i].1.1),
%loopstart 2
  let ghost hits0 = hits@; let ghost map0 = map@;
%loopend 2
  proof {
    let n = it2.pos() - 1;
    lem_ids_push(hits0, n, |i: int| items@[i].1.0, hits@, *hit);
    lem_ids_push(map0, n, |i: int| items@[i].1.1, map@, *item);
  }
%end
  proof { lem_items_final(items@, first_hits@, first_map@, second_hits@, second_map@, hits@, map@); }

%fn file_coverage.rs merge_properties_hits_vec
%params first_hits, first_map, second_hits, second_map, get_item_key_fn
%locals items=0 hits=5 map=6 key=f0.0 item_hits=f0.1 item=1 item_key=2
%ret r
%attrs #[verifier::rlimit(30)]
  requires
    covered_by(first_hits@, first_map@), covered_by(second_hits@, second_map@),
    key_dom(get_item_key_fn, first_map@), key_dom(get_item_key_fn, second_map@), key_ok::<Branch, VxF0>(get_item_key_fn),
    forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(first_hits@, first_map@), j), k) + tot(pj(vev(second_hits@, second_map@), j), k) <= u32::MAX,
    first_hits@.len() + second_hits@.len() <= u32::MAX,
  ensures
    vmerged_counters(first_hits@, first_map@, second_hits@, second_map@, r.0@, r.1@),
%start
  hide(tot); hide(ev_max);
  proof { lem_vitems_init(Seq::<(String, (Vec<u32>, Branch))>::empty(), vev(first_hits@, first_map@).take(0)); }
  let ghost e1 = vev(first_hits@, first_map@);
  let ghost e2 = vev(second_hits@, second_map@);
%loop 0
    vitems_ok(items@, e1.take(it0.pos())), items_src(items@, first_map@, second_map@),
%loopstart 0
  let ghost items0 = items@;
  proof {
    let n = it0.pos() - 1;
    let k = (val(first_map@, u(first_hits@[n].0))).vx_key();
    assert forall|j: int| #[trigger] ivj(items0, k, j) + nth(first_hits@[n].1@, j) <= u32::MAX by {
      lem_pj_take(e1, n, j);
      lem_tot_push(pj(e1, j), n, k);
      lem_tot_mono(pj(e1, j), n + 1, k);
      assert(ivj(items0, k, j) == tot(pj(e1.take(n), j), k));
      assert(tot(pj(e1, j), k) + tot(pj(e2, j), k) <= u32::MAX);
    }
  }
%loopend 0
  proof {
    let n = it0.pos() - 1;
    let m = val(first_map@, u(first_hits@[n].0));
    lem_from_map(first_map@, u(first_hits@[n].0));
    lem_push_take(e1, n);
    let kr = KeyRepr::Chars(item_key@);
    if hask(items0, kr) {
      lem_put(items0, item_key, items@[at(items0, kr)].1, items@);
      assert(vsum(val(items0, kr).0@, first_hits@[n].1@, val(items@, kr).0@));
    }
    lem_vitem_step(items0, e1.take(n), item_key, first_hits@[n].1, m, items@, val(items@, KeyRepr::Chars(item_key@)).0);
  }
%after 0
  assert(e1.take(e1.len() as int) =~= e1);
  assert(e1 + e2.take(0) =~= e1);
%before 1
  let ghost p0 = pair.0@; let ghost t0 = pair.1; let ghost fp = *final(pair);
  let ghost ov = val(items0, KeyRepr::Chars(item_key@)).0@;
  proof { assert forall|j: int| 0 <= j < p0.len() implies #[trigger] p0[j] + nth(item_hits@, j) <= u32::MAX by { assert(ivj(items0, item_key@, j) == nth(ov, j)); } }
%loop 1
    pair.1 == t0, pair.0@.len() == p0.len(), *final(pair) == fp,
    forall|j: int| 0 <= j < p0.len() ==> #[trigger] pair.0@[j] == p0[j] + (if j < it1.pos() { nth(item_hits@, j) } else { 0 }),
%loopstart 1
  assert(p0[it1.pos() - 1] + nth(item_hits@, it1.pos() - 1) <= u32::MAX);
%after 1
  assert(vsum(ov, item_hits@, pair.0@));
%loop 2
    vitems_ok(items@, e1 + e2.take(it2.pos())), items_src(items@, first_map@, second_map@),
%loopstart 2
  let ghost items0 = items@;
  proof {
    let n = it2.pos() - 1;
    let k = (val(second_map@, u(second_hits@[n].0))).vx_key();
    assert forall|j: int| #[trigger] ivj(items0, k, j) + nth(second_hits@[n].1@, j) <= u32::MAX by {
      lem_pj_take(e2, n, j);
      lem_pj_cat(e1, e2.take(n), j);
      lem_tot_push(pj(e2, j), n, k);
      lem_tot_mono(pj(e2, j), n + 1, k);
      lem_tot_cat(pj(e1, j), pj(e2, j).take(n), k);
      assert(ivj(items0, k, j) == tot(pj(e1 + e2.take(n), j), k));
      assert(tot(pj(e1, j), k) + tot(pj(e2, j), k) <= u32::MAX);
    }
  }
%loopend 2
  proof {
    let n = it2.pos() - 1;
    let m = val(second_map@, u(second_hits@[n].0));
    lem_from_map(second_map@, u(second_hits@[n].0));
    lem_cat_take(e1, e2, n);
    let kr = KeyRepr::Chars(item_key@);
    if hask(items0, kr) {
      lem_put(items0, item_key, items@[at(items0, kr)].1, items@);
      assert(vsum(val(items0, kr).0@, second_hits@[n].1@, val(items@, kr).0@));
    }
    lem_vitem_step(items0, e1 + e2.take(n), item_key, second_hits@[n].1, m, items@, val(items@, KeyRepr::Chars(item_key@)).0);
  }
%after 2
  assert(e2.take(e2.len() as int) =~= e2);
%before 3
  let ghost p0 = pair.0@; let ghost t0 = pair.1; let ghost fp = *final(pair);
  let ghost ov = val(items0, KeyRepr::Chars(item_key@)).0@;
  proof { assert forall|j: int| 0 <= j < p0.len() implies #[trigger] p0[j] + nth(item_hits@, j) <= u32::MAX by { assert(ivj(items0, item_key@, j) == nth(ov, j)); } }
%loop 3
    pair.1 == t0, pair.0@.len() == p0.len(), *final(pair) == fp,
    forall|j: int| 0 <= j < p0.len() ==> #[trigger] pair.0@[j] == p0[j] + (if j < it3.pos() { nth(item_hits@, j) } else { 0 }),
%loopstart 3
  assert(p0[it3.pos() - 1] + nth(item_hits@, it3.pos() - 1) <= u32::MAX);
%after 3
  assert(vsum(ov, item_hits@, pair.0@));
%loop 4
    hits@ == ids(it4.pos(), |i: int| items@[i].1.0), map@ == ids(it4.pos(), |i: int| items@[i].1.1),
%loopstart 4
  let ghost hits0 = hits@; let ghost map0 = map@;
%loopend 4
  proof {
    let n = it4.pos() - 1;
    lem_ids_push(hits0, n, |i: int| items@[i].1.0, hits@, *hit);
    lem_ids_push(map0, n, |i: int| items@[i].1.1, map@, *item);
  }
%end
  proof { lem_vitems_final(items@, first_hits@, first_map@, second_hits@, second_map@, hits@, map@); }

%fn file_coverage.rs align_hits_vec
%params hits, map, target_map, get_item_key_fn
%locals items=0 ret=2 key=f0.0 item_hits=f0.1 item=f1.1
%ret r
  requires
    covered_by(hits@, map@), key_dom(get_item_key_fn, map@), key_dom(get_item_key_fn, target_map@), key_ok::<Branch, VxF0>(get_item_key_fn),
    vdistinct(vev(hits@, map@)), map_distinct(target_map@),
    forall|k: Seq<char>| #[trigger] vhas(vev(hits@, map@), k) ==> map_has_key(target_map@, k),
  ensures
    aligned(hits@, map@, target_map@, r@),
%start
  let ghost e = vev(hits@, map@);
%loop 0
    vlook(items@, e.take(it0.pos())),
%loopstart 0
  let ghost items0 = items@;
%loopend 0
  proof {
    let n = it0.pos() - 1;
    let m = val(map@, u(hits@[n].0));
    lem_from_map(map@, u(hits@[n].0));
    lem_push_take(e, n);
    let key = items@.last().0;
    let k = m.vx_key();
    if vhas(e.take(n), k) { let i = choose|i: int| 0 <= i < n && #[trigger] e.take(n)[i].0 == k; assert(e[i].0 == k); assert(e[n].0 == k); }
    assert(hask(items0, KeyRepr::Chars(k)) == vhas(e.take(n), k));
    lem_vlook_step(items0, e.take(n), key, hits@[n].1, items@);
  }
%after 0
  assert(e.take(e.len() as int) =~= e);
%loop 1
    alg(ret@, target_map@, e, it1.pos()),
%loopstart 1
  let ghost ret0 = ret@;
%loopend 1
  proof {
    let n = it1.pos() - 1;
    let k = target_map@[n].1.vx_key();
    assert(hask(items@, KeyRepr::Chars(k)) == vhas(e, k));
    let v = val(items@, KeyRepr::Chars(k));
    if vhas(e, k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k; assert(e[i] == (k, v@)); }
    lem_alg_step(ret0, target_map@, e, n, v, ret@);
  }
%end
  proof {
    let er = vev(ret@, target_map@);
    assert forall|k: Seq<char>| vhas(e, k) implies vhas(er, k) by {
      assert(map_has_key(target_map@, k));
      let t = choose|t: int| 0 <= t < target_map@.len() && (#[trigger] target_map@[t]).1.vx_key() == k;
    }
    assert forall|k: Seq<char>, j: int| #[trigger] tot(pj(er, j), k) == tot(pj(e, j), k) by { lem_vsame(er, e, k, j); }
    assert forall|k: Seq<char>| #[trigger] vhas(er, k) == vhas(e, k) by { lem_vsame(er, e, k, 0); }
  }

%fn file_coverage.rs key_from_loc
%params range
%ret r
  ensures r@ == rkey(*range),
%end
  proof { assert(r@ =~= rkey(*range)); }

%fn file_coverage.rs FileCoverage::merge
%params coverage
  requires
    fc_wf(*old(self)), fc_wf(*coverage),
    !old(self).all && !coverage.all ==> sums_fit(*old(self), *coverage),
  ensures
    merge_spec(*old(self), *coverage, *final(self)),
    fc_wf(*final(self)),
%start
  proof {
    if coverage.b_t is Some { lem_cov_len(coverage.b_t->0@, coverage.branch_map@); }
    if self.b_t is Some { lem_cov_len(self.b_t->0@, self.branch_map@); }
    lem_cov_len(self.branch_map@, self.b@); lem_cov_len(coverage.branch_map@, coverage.b@);
  }
%closure 0 |branch: &Branch| r: String
  requires branch.locations@.len() >= 1 ensures r@ == (*branch).vx_key()
%closure 1 |range: &Range| r: String
  ensures r@ == (*range).vx_key()
%closure 2 |map: &Function| r: String
  ensures r@ == (*map).vx_key()
%callbefore align_hits_vec 0
  proof {
    let ghost bt2 = bt_seq(*coverage);
    lem_bt_keys(bt_seq(*old(self)), old(self).b@, old(self).branch_map@, bt2, coverage.b@, coverage.branch_map@,
      branches_true_hits@, branches_true_map@, self.b@, self.branch_map@);
  }
%callafter merge_properties_hits_vec 1
  proof { lem_branches_ok(self.branch_map@, old(self).branch_map@, coverage.branch_map@); }
