pub open spec fn vdistinct(e: Seq<(Seq<char>, Seq<u32>)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0 }
/// every entry of `a` is an entry of `b`
pub open spec fn vsub(a: Seq<(Seq<char>, Seq<u32>)>, b: Seq<(Seq<char>, Seq<u32>)>) -> bool { forall|i: int| 0 <= i < a.len() ==> exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == #[trigger] a[i] }
pub proof fn lem_vsame(a: Seq<(Seq<char>, Seq<u32>)>, b: Seq<(Seq<char>, Seq<u32>)>, k: Seq<char>, j: int)
  requires vdistinct(a), vdistinct(b), vsub(a, b), vhas(b, k) ==> vhas(a, k),
  ensures tot(pj(a, j), k) == tot(pj(b, j), k), ev_max(pl(a), k) == ev_max(pl(b), k), vhas(a, k) == vhas(b, k)
{
  let (aj, al, bj, bl) = (pj(a, j), pl(a), pj(b, j), pl(b));
  assert forall|x: int, y: int| 0 <= x < y < aj.len() implies (#[trigger] aj[x]).0 != (#[trigger] aj[y]).0 by { assert(a[x].0 != a[y].0); }
  assert forall|x: int, y: int| 0 <= x < y < al.len() implies (#[trigger] al[x]).0 != (#[trigger] al[y]).0 by { assert(a[x].0 != a[y].0); }
  assert forall|x: int, y: int| 0 <= x < y < bj.len() implies (#[trigger] bj[x]).0 != (#[trigger] bj[y]).0 by { assert(b[x].0 != b[y].0); }
  assert forall|x: int, y: int| 0 <= x < y < bl.len() implies (#[trigger] bl[x]).0 != (#[trigger] bl[y]).0 by { assert(b[x].0 != b[y].0); }
  lem_vhas(a, k, j); lem_vhas(b, k, j);
  if vhas(a, k) {
    let x = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].0 == k;
    let y = choose|y: int| 0 <= y < b.len() && #[trigger] b[y] == a[x];
    assert(aj[x].0 == k && al[x].0 == k && bj[y].0 == k && bl[y].0 == k);
    lem_tot_distinct(aj, x); lem_tot_distinct(al, x); lem_tot_distinct(bj, y); lem_tot_distinct(bl, y);
    assert(b[y].0 == k);
  } else {
    lem_tot_absent(aj, k); lem_tot_absent(al, k); lem_tot_absent(bj, k); lem_tot_absent(bl, k);
  }
}
pub open spec fn vlook(items: Seq<(String, Vec<u32>)>, e: Seq<(Seq<char>, Seq<u32>)>) -> bool {
  &&& forall|k: Seq<char>| #[trigger] hask(items, KeyRepr::Chars(k)) == vhas(e, k)
  &&& forall|i: int| 0 <= i < e.len() ==> val(items, KeyRepr::Chars((#[trigger] e[i]).0))@ == e[i].1
}
pub proof fn lem_vlook_step(items: Seq<(String, Vec<u32>)>, e: Seq<(Seq<char>, Seq<u32>)>, key: String, v: Vec<u32>, items2: Seq<(String, Vec<u32>)>)
  requires im_wf(items), vlook(items, e), !vhas(e, key@), items2 == put(items, key, v),
  ensures vlook(items2, e.push((key@, v@)))
{
  broadcast use vx_base;
  let e2 = e.push((key@, v@));
  lem_put(items, key, v, items2);
  assert forall|k: Seq<char>| #[trigger] hask(items2, KeyRepr::Chars(k)) == vhas(e2, k) by {
    if vhas(e, k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k; assert(e2[i] == e[i]); }
    if vhas(e2, k) { let i = choose|i: int| 0 <= i < e2.len() && #[trigger] e2[i].0 == k; if i < e.len() { assert(e[i] == e2[i]); } }
    if k == key@ { assert(e2[e.len() as int].0 == k); }
  }
  assert forall|i: int| 0 <= i < e2.len() implies val(items2, KeyRepr::Chars((#[trigger] e2[i]).0))@ == e2[i].1 by {
    if i < e.len() { assert(e[i] == e2[i]); assert(e[i].0 != key@); assert(hask(items, KeyRepr::Chars(e[i].0)) == vhas(e, e[i].0)); }
    else { assert(hask(items2, KeyRepr::Chars(key@))); }
  }
}
/// hits re-keyed from the ids of `map` to the ids of `target`
pub open spec fn aligned(hits: Seq<(u32, Vec<u32>)>, map: Seq<(u32, Branch)>, target: Seq<(u32, Branch)>, r: Seq<(u32, Vec<u32>)>) -> bool {
  &&& covered_by(r, target)
  &&& forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(r, target), j), k) == tot(pj(vev(hits, map), j), k)
  &&& forall|k: Seq<char>| #[trigger] vhas(vev(r, target), k) == vhas(vev(hits, map), k)
}
pub open spec fn map_has_key(target: Seq<(u32, Branch)>, k: Seq<char>) -> bool { exists|t: int| 0 <= t < target.len() && (#[trigger] target[t]).1.vx_key() == k }
pub open spec fn map_distinct(target: Seq<(u32, Branch)>) -> bool { forall|i: int, j: int| 0 <= i < j < target.len() ==> (#[trigger] target[i]).1.vx_key() != (#[trigger] target[j]).1.vx_key() }
/// progress of the second loop: `r` holds the wanted entries of `target[..n]`
pub open spec fn alg(r: Seq<(u32, Vec<u32>)>, target: Seq<(u32, Branch)>, e: Seq<(Seq<char>, Seq<u32>)>, n: int) -> bool {
  &&& forall|i: int| 0 <= i < r.len() ==> exists|t: int| 0 <= t < n && (#[trigger] target[t]).0 == (#[trigger] r[i]).0
  &&& covered_by(r, target)
  &&& vdistinct(vev(r, target))
  &&& vsub(vev(r, target), e)
  &&& forall|t: int| 0 <= t < n && vhas(e, (#[trigger] target[t]).1.vx_key()) ==> vhas(vev(r, target), target[t].1.vx_key())
}
pub proof fn lem_alg_step(r: Seq<(u32, Vec<u32>)>, target: Seq<(u32, Branch)>, e: Seq<(Seq<char>, Seq<u32>)>, n: int, v: Vec<u32>, r2: Seq<(u32, Vec<u32>)>)
  requires im_wf(r), im_wf(target), map_distinct(target), alg(r, target, e, n), 0 <= n < target.len(),
    vhas(e, target[n].1.vx_key()) ==> (exists|i: int| 0 <= i < e.len() && #[trigger] e[i] == (target[n].1.vx_key(), v@)) && r2 == put(r, target[n].0, v),
    !vhas(e, target[n].1.vx_key()) ==> r2 == r,
  ensures alg(r2, target, e, n + 1)
{
  broadcast use vx_base;
  let k = target[n].1.vx_key();
  let id = target[n].0;
  let er = vev(r, target);
  lem_at(target, n);
  if vhas(e, k) {
    if hask(r, u(id)) {
      let i = at(r, u(id)); assert(is_at(r, u(id), i));
      let t = choose|t: int| 0 <= t < n && (#[trigger] target[t]).0 == r[i].0;
      assert(key_repr(&target[t].0) != key_repr(&target[n].0));
      assert(false);
    }
    assert(r2 =~= r.push((id, v)));
    let er2 = vev(r2, target);
    assert(er2 =~= er.push((k, v@)));
    assert forall|i: int| 0 <= i < er.len() implies (#[trigger] er[i]).0 != k by {
      let t = choose|t: int| 0 <= t < n && (#[trigger] target[t]).0 == r[i].0;
      lem_at(target, t);
      assert(er[i].0 == target[t].1.vx_key());
    }
    assert(vdistinct(er2));
    assert forall|i: int| 0 <= i < er2.len() implies exists|j: int| 0 <= j < e.len() && #[trigger] e[j] == #[trigger] er2[i] by { if i < er.len() { assert(er2[i] == er[i]); } }
    assert forall|i: int| 0 <= i < r2.len() implies exists|t: int| 0 <= t < n + 1 && (#[trigger] target[t]).0 == (#[trigger] r2[i]).0 by { if i < r.len() { assert(r2[i] == r[i]); let t = choose|t: int| 0 <= t < n && (#[trigger] target[t]).0 == r[i].0; assert(target[t].0 == r2[i].0); } else { assert(target[n].0 == r2[i].0); } }
    assert forall|i: int| 0 <= i < r2.len() implies hask(target, u((#[trigger] r2[i]).0)) by { if i < r.len() { assert(r2[i] == r[i]); } }
    assert forall|t: int| 0 <= t < n + 1 && vhas(e, (#[trigger] target[t]).1.vx_key()) implies vhas(er2, target[t].1.vx_key()) by {
      if t < n { let kk = target[t].1.vx_key(); assert(vhas(er, kk)); let i = choose|i: int| 0 <= i < er.len() && #[trigger] er[i].0 == kk; assert(er2[i] == er[i]); }
      else { assert(er2[er.len() as int].0 == k); }
    }
  } else {
    assert forall|i: int| 0 <= i < r2.len() implies exists|t: int| 0 <= t < n + 1 && (#[trigger] target[t]).0 == (#[trigger] r2[i]).0 by { let t = choose|t: int| 0 <= t < n && (#[trigger] target[t]).0 == r[i].0; assert(target[t].0 == r2[i].0); }
  }
}

/// a key with a truthiness counter has a branch
pub proof fn lem_bt_key(bt: Seq<(u32, Vec<u32>)>, b: Seq<(u32, Vec<u32>)>, m: Seq<(u32, Branch)>, k: Seq<char>)
  requires im_wf(b), im_wf(m), covered_by(bt, m), covered_by(m, b), covered_by(b, m), vhas(vev(bt, m), k)
  ensures vhas(vev(b, m), k), map_has_key(m, k)
{
  broadcast use vx_base;
  let i = choose|i: int| 0 <= i < bt.len() && #[trigger] vev(bt, m)[i].0 == k;
  let id = bt[i].0;
  let t = at(m, u(id)); assert(is_at(m, u(id), t));
  assert(m[t].1.vx_key() == k);
  let x = at(b, u(m[t].0)); assert(is_at(b, u(m[t].0), x));
  assert(b[x].0 == id);
  assert(vev(b, m)[x].0 == k);
}
pub proof fn lem_bt_keys(bt1: Seq<(u32, Vec<u32>)>, b1: Seq<(u32, Vec<u32>)>, m1: Seq<(u32, Branch)>, bt2: Seq<(u32, Vec<u32>)>, b2: Seq<(u32, Vec<u32>)>, m2: Seq<(u32, Branch)>,
    th: Seq<(u32, Vec<u32>)>, tm: Seq<(u32, Branch)>, b: Seq<(u32, Vec<u32>)>, m: Seq<(u32, Branch)>)
  requires im_wf(b1), im_wf(m1), im_wf(b2), im_wf(m2), im_wf(b), im_wf(m),
    covered_by(bt1, m1), covered_by(m1, b1), covered_by(b1, m1), covered_by(bt2, m2), covered_by(m2, b2), covered_by(b2, m2),
    vmerged_counters(bt1, m1, bt2, m2, th, tm), vmerged_counters(b1, m1, b2, m2, b, m),
  ensures forall|k: Seq<char>| #[trigger] vhas(vev(th, tm), k) ==> map_has_key(m, k), vdistinct(vev(th, tm)), map_distinct(m),
{
  broadcast use vx_base;
  assert forall|k: Seq<char>| #[trigger] vhas(vev(th, tm), k) implies map_has_key(m, k) by {
    if vhas(vev(bt1, m1), k) { lem_bt_key(bt1, b1, m1, k); } else { lem_bt_key(bt2, b2, m2, k); }
    assert(vhas(vev(b, m), k));
    lem_bt_key(b, b, m, k);
  }
  let e = vev(th, tm);
  assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by {
    lem_dense_val(th, tm, i); lem_dense_val(th, tm, j);
    assert(tm[i].1.vx_key() != tm[j].1.vx_key());
  }
}
pub proof fn lem_dense_val<A, T>(hits: Seq<(u32, A)>, map: Seq<(u32, T)>, i: int)
  requires dense(hits, map), 0 <= i < hits.len(), im_wf(map),
  ensures val(map, u(hits[i].0)) == map[i].1
{ broadcast use vx_base; assert(hits[i].0 == i); assert(map[i].0 == i); lem_at(map, i); }
