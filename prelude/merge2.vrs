// --------------------------------------------------------- merge of counters
pub open spec fn iv<T: VxKeyed>(items: Seq<(String, (u32, T))>, k: Seq<char>) -> nat { if hask(items, KeyRepr::Chars(k)) { val(items, KeyRepr::Chars(k)).0 as nat } else { 0 } }
pub open spec fn items_ok<T: VxKeyed>(items: Seq<(String, (u32, T))>, e: Seq<(Seq<char>, nat)>) -> bool {
  &&& forall|k: Seq<char>| #[trigger] hask(items, KeyRepr::Chars(k)) == ev_has(e, k)
  &&& forall|k: Seq<char>| #[trigger] iv(items, k) == tot(e, k)
  &&& forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).0@ == (items[i].1.1).vx_key()
  &&& items.len() <= e.len()
}
pub open spec fn vsplit(a: Seq<(Seq<char>, nat)>, n: int, b: Seq<(Seq<char>, nat)>, m: int) -> Seq<(Seq<char>, nat)> { a.take(n) + b.take(m) }

pub proof fn lem_item_step<T: VxKeyed>(items: Seq<(String, (u32, T))>, e: Seq<(Seq<char>, nat)>, key: String, h: u32, t: T, items2: Seq<(String, (u32, T))>)
  requires im_wf(items), items_ok(items, e), t.vx_key() == key@,
    hask(items, KeyRepr::Chars(key@)) ==> val(items, KeyRepr::Chars(key@)).0 + h <= u32::MAX,
    items2 == (if hask(items, KeyRepr::Chars(key@)) { put(items, key, ((val(items, KeyRepr::Chars(key@)).0 + h) as u32, val(items, KeyRepr::Chars(key@)).1)) } else { put(items, key, (h, t)) }),
  ensures items_ok(items2, e.push((key@, h as nat))), im_wf(items2),
    forall|i: int| 0 <= i < items2.len() ==> (#[trigger] items2[i]).1.1 == t || (i < items.len() && items2[i].1.1 == items[i].1.1),
{
  broadcast use ax_key_string;
  let kr = KeyRepr::Chars(key@);
  assert(key_repr(&key) == kr);
  let e2 = e.push((key@, h as nat));
  if hask(items, kr) { lem_put(items, key, ((val(items, kr).0 + h) as u32, val(items, kr).1), items2); } else { lem_put(items, key, (h, t), items2); }
  assert(e2.drop_last() =~= e);
  assert forall|k: Seq<char>| ev_has(e2, k) == (ev_has(e, k) || k == key@) by {
    if ev_has(e, k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k; assert(e2[i] == e[i]); }
    if ev_has(e2, k) { let i = choose|i: int| 0 <= i < e2.len() && #[trigger] e2[i].0 == k; if i < e.len() { assert(e[i] == e2[i]); } }
    if k == key@ { assert(e2[e.len() as int].0 == k); }
  }
  assert forall|k: Seq<char>| #[trigger] iv(items2, k) == tot(e2, k) by {
    let o = iv(items, k);
  }
  assert forall|i: int| 0 <= i < items2.len() implies (#[trigger] items2[i]).0@ == (items2[i].1.1).vx_key() by {
    assert(key_repr(&items2[i].0) == KeyRepr::Chars(items2[i].0@));
    if i < items.len() { assert(items2[i].0 == items[i].0); lem_at(items, i); }
  }
}
pub proof fn lem_push_take<A>(s: Seq<A>, n: int) requires 0 <= n < s.len() ensures s.take(n + 1) == s.take(n).push(s[n]) { assert(s.take(n + 1) =~= s.take(n).push(s[n])); }
pub proof fn lem_cat_take<A>(a: Seq<A>, b: Seq<A>, n: int) requires 0 <= n < b.len() ensures a + b.take(n + 1) == (a + b.take(n)).push(b[n]) { assert(a + b.take(n + 1) =~= (a + b.take(n)).push(b[n])); }
pub proof fn lem_tot_cat(a: Seq<(Seq<char>, nat)>, b: Seq<(Seq<char>, nat)>, k: Seq<char>)
  ensures tot(a + b, k) == tot(a, k) + tot(b, k), ev_has(a + b, k) == (ev_has(a, k) || ev_has(b, k)),
    ev_max(a + b, k) == (if ev_max(a, k) > ev_max(b, k) { ev_max(a, k) } else { ev_max(b, k) }),
  decreases b.len()
{
  let c = a + b;
  if b.len() == 0 { assert(c =~= a); } else {
    assert(c.drop_last() =~= a + b.drop_last());
    lem_tot_cat(a, b.drop_last(), k);
  }
  if ev_has(a, k) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].0 == k; assert(c[i] == a[i]); }
  if ev_has(b, k) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].0 == k; assert(c[a.len() + i] == b[i]); }
  if ev_has(c, k) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i].0 == k; if i < a.len() { assert(a[i] == c[i]); } else { assert(b[i - a.len()] == c[i]); } }
}
/// the counters and metadata `(hits, map)` are the per-key sums of the two inputs
pub open spec fn merged_counters<T: VxKeyed>(h1: Seq<(u32, u32)>, m1: Seq<(u32, T)>, h2: Seq<(u32, u32)>, m2: Seq<(u32, T)>, hits: Seq<(u32, u32)>, map: Seq<(u32, T)>) -> bool {
  &&& dense(hits, map) && covered_by(hits, map) && covered_by(map, hits) && hits.len() <= h1.len() + h2.len()
  &&& forall|i: int, j: int| 0 <= i < j < map.len() ==> ((#[trigger] map[i]).1).vx_key() != ((#[trigger] map[j]).1).vx_key()
  &&& forall|k: Seq<char>| #[trigger] tot(evs(hits, map), k) == tot(evs(h1, m1), k) + tot(evs(h2, m2), k)
  &&& forall|k: Seq<char>| #[trigger] ev_has(evs(hits, map), k) == (ev_has(evs(h1, m1), k) || ev_has(evs(h2, m2), k))
  &&& forall|i: int| 0 <= i < map.len() ==> from_map((#[trigger] map[i]).1, m1) || from_map(map[i].1, m2)
}
pub proof fn lem_dense<A, T>(hits: Seq<(u32, A)>, map: Seq<(u32, T)>)
  requires dense(hits, map), hits.len() <= u32::MAX
  ensures covered_by(hits, map), covered_by(map, hits)
{
  broadcast use vx_base;
  assert forall|i: int| 0 <= i < hits.len() implies hask(map, u((#[trigger] hits[i]).0)) by { assert(map[i].0 == i); assert(is_at(map, u(hits[i].0), i)); }
  assert forall|i: int| 0 <= i < map.len() implies hask(hits, u((#[trigger] map[i]).0)) by { assert(hits[i].0 == i); assert(is_at(hits, u(map[i].0), i)); }
}
pub open spec fn items_src<A, T>(items: Seq<(String, (A, T))>, m1: Seq<(u32, T)>, m2: Seq<(u32, T)>) -> bool {
  forall|i: int| 0 <= i < items.len() ==> from_map((#[trigger] items[i]).1.1, m1) || from_map(items[i].1.1, m2)
}
pub proof fn lem_from_map<T>(map: Seq<(u32, T)>, k: KeyRepr) requires hask(map, k) ensures from_map(val(map, k), map) { assert(is_at(map, k, at(map, k))); }
/// the map built from `items[..n]`, with ids `0..n`
pub open spec fn ids<A>(n: int, f: spec_fn(int) -> A) -> Seq<(u32, A)> { Seq::new(n as nat, |i: int| (i as u32, f(i))) }
pub proof fn lem_ids_push<A>(s: Seq<(u32, A)>, n: int, f: spec_fn(int) -> A, s2: Seq<(u32, A)>, v: A)
  requires 0 <= n <= u32::MAX, s == ids(n, f), s2 == put(s, n as u32, v), v == f(n),
  ensures s2 == ids(n + 1, f)
{
  broadcast use ax_key_u32;
  let k = key_repr(&(n as u32));
  if hask(s, k) { let i = at(s, k); assert(is_at(s, k, i)); assert(s[i].0 == i as u32); }
  assert(s2 =~= ids(n + 1, f));
}
pub proof fn lem_ids_val<A>(n: int, f: spec_fn(int) -> A, i: int)
  requires 0 <= i < n <= u32::MAX + 1,
  ensures hask(ids(n, f), u(i as u32)), val(ids(n, f), u(i as u32)) == f(i)
{
  broadcast use ax_key_u32;
  let s = ids(n, f);
  assert forall|a: int, b: int| 0 <= a < b < s.len() implies key_repr(&#[trigger] s[a].0) != key_repr(&#[trigger] s[b].0) by {
    assert(s[a].0 == a as u32 && s[b].0 == b as u32);
  }
  lem_at(s, i);
  assert(s[i].0 == i as u32);
}
pub proof fn lem_items_final<T: VxKeyed>(items: Seq<(String, (u32, T))>, h1: Seq<(u32, u32)>, m1: Seq<(u32, T)>, h2: Seq<(u32, u32)>, m2: Seq<(u32, T)>, hits: Seq<(u32, u32)>, map: Seq<(u32, T)>)
  requires im_wf(items), items_ok(items, evs(h1, m1) + evs(h2, m2)), items_src(items, m1, m2), items.len() <= u32::MAX,
    hits == ids(items.len() as int, |i: int| items[i].1.0), map == ids(items.len() as int, |i: int| items[i].1.1),
  ensures merged_counters(h1, m1, h2, m2, hits, map)
{
  broadcast use ax_key_string;
  let e = evs(hits, map);
  let n = items.len() as int;
  lem_dense(hits, map);
  assert forall|i: int| 0 <= i < n implies (#[trigger] e[i]).0 == items[i].0@ && e[i].1 == items[i].1.0 by {
    lem_ids_val(n, |i: int| items[i].1.1, i);
    assert(hits[i].0 == i as u32);
  }
  assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by {
    assert(key_repr(&items[i].0) != key_repr(&items[j].0));
  }
  assert forall|i: int, j: int| 0 <= i < j < map.len() implies ((#[trigger] map[i]).1).vx_key() != ((#[trigger] map[j]).1).vx_key() by {
    assert(e[i].0 != e[j].0);
    assert(items[i].0@ == (items[i].1.1).vx_key() && items[j].0@ == (items[j].1.1).vx_key());
  }
  assert forall|k: Seq<char>| true implies #[trigger] ev_has(e, k) == hask(items, KeyRepr::Chars(k)) && tot(e, k) == iv(items, k) by {
    if ev_has(e, k) {
      let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k;
      lem_at(items, i);
      lem_tot_distinct(e, i);
    } else {
      lem_tot_absent(e, k);
      if hask(items, KeyRepr::Chars(k)) { let i = at(items, KeyRepr::Chars(k)); assert(is_at(items, KeyRepr::Chars(k), i)); assert(e[i].0 == k); }
    }
  }
  assert forall|k: Seq<char>| #[trigger] tot(e, k) == tot(evs(h1, m1), k) + tot(evs(h2, m2), k) by {
    lem_tot_cat(evs(h1, m1), evs(h2, m2), k);
    assert(iv(items, k) == tot(evs(h1, m1) + evs(h2, m2), k));
    let x = ev_has(e, k);
  }
  assert forall|k: Seq<char>| #[trigger] ev_has(e, k) == (ev_has(evs(h1, m1), k) || ev_has(evs(h2, m2), k)) by {
    lem_tot_cat(evs(h1, m1), evs(h2, m2), k);
  }
}
// ------------------------------------------------- merge of branch counters
pub open spec fn vev<T: VxKeyed>(hits: Seq<(u32, Vec<u32>)>, map: Seq<(u32, T)>) -> Seq<(Seq<char>, Seq<u32>)> {
  Seq::new(hits.len(), |i: int| ((val(map, u(hits[i].0))).vx_key(), hits[i].1@))
}
pub open spec fn pj(e: Seq<(Seq<char>, Seq<u32>)>, j: int) -> Seq<(Seq<char>, nat)> { Seq::new(e.len(), |i: int| (e[i].0, nth(e[i].1, j))) }
pub open spec fn pl(e: Seq<(Seq<char>, Seq<u32>)>) -> Seq<(Seq<char>, nat)> { Seq::new(e.len(), |i: int| (e[i].0, e[i].1.len())) }
pub open spec fn ivj<T: VxKeyed>(items: Seq<(String, (Vec<u32>, T))>, k: Seq<char>, j: int) -> nat { if hask(items, KeyRepr::Chars(k)) { nth(val(items, KeyRepr::Chars(k)).0@, j) } else { 0 } }
pub open spec fn ivl<T: VxKeyed>(items: Seq<(String, (Vec<u32>, T))>, k: Seq<char>) -> nat { if hask(items, KeyRepr::Chars(k)) { val(items, KeyRepr::Chars(k)).0@.len() } else { 0 } }
pub open spec fn vhas(e: Seq<(Seq<char>, Seq<u32>)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k }
pub open spec fn vitems_ok<T: VxKeyed>(items: Seq<(String, (Vec<u32>, T))>, e: Seq<(Seq<char>, Seq<u32>)>) -> bool {
  &&& forall|k: Seq<char>| #[trigger] hask(items, KeyRepr::Chars(k)) == vhas(e, k)
  &&& forall|k: Seq<char>| #[trigger] ivl(items, k) == ev_max(pl(e), k)
  &&& forall|k: Seq<char>, j: int| #[trigger] ivj(items, k, j) == tot(pj(e, j), k)
  &&& forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).0@ == (items[i].1.1).vx_key()
  &&& items.len() <= e.len()
}
pub proof fn lem_vitems_init<T: VxKeyed>(items: Seq<(String, (Vec<u32>, T))>, e: Seq<(Seq<char>, Seq<u32>)>)
  requires items.len() == 0, e.len() == 0
  ensures vitems_ok(items, e)
{
  assert forall|k: Seq<char>| #[trigger] hask(items, KeyRepr::Chars(k)) == vhas(e, k) by { if hask(items, KeyRepr::Chars(k)) { assert(is_at(items, KeyRepr::Chars(k), at(items, KeyRepr::Chars(k)))); } }
  assert forall|k: Seq<char>| #[trigger] ivl(items, k) == ev_max(pl(e), k) by { assert(hask(items, KeyRepr::Chars(k)) == vhas(e, k)); }
  assert forall|k: Seq<char>, j: int| #[trigger] ivj(items, k, j) == tot(pj(e, j), k) by { assert(hask(items, KeyRepr::Chars(k)) == vhas(e, k)); }
}
/// `v` is the pointwise sum of `a` and `b`, the shorter one padded with zeros
pub open spec fn vsum(a: Seq<u32>, b: Seq<u32>, v: Seq<u32>) -> bool {
  &&& v.len() == (if a.len() > b.len() { a.len() } else { b.len() })
  &&& forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == nth(a, j) + nth(b, j)
}
pub proof fn lem_vitem_step<T: VxKeyed>(items: Seq<(String, (Vec<u32>, T))>, e: Seq<(Seq<char>, Seq<u32>)>, key: String, h: Vec<u32>, t: T, items2: Seq<(String, (Vec<u32>, T))>, nv: Vec<u32>)
  requires im_wf(items), vitems_ok(items, e), t.vx_key() == key@,
    hask(items, KeyRepr::Chars(key@)) ==> vsum(val(items, KeyRepr::Chars(key@)).0@, h@, nv@),
    items2 == (if hask(items, KeyRepr::Chars(key@)) { put(items, key, (nv, val(items, KeyRepr::Chars(key@)).1)) } else { put(items, key, (h, t)) }),
  ensures vitems_ok(items2, e.push((key@, h@))), im_wf(items2),
    forall|i: int| 0 <= i < items2.len() ==> (#[trigger] items2[i]).1.1 == t || (i < items.len() && items2[i].1.1 == items[i].1.1),
{
  broadcast use vx_base;
  let kr = KeyRepr::Chars(key@);
  assert(key_repr(&key) == kr);
  let e2 = e.push((key@, h@));
  if hask(items, kr) { lem_put(items, key, (nv, val(items, kr).1), items2); } else { lem_put(items, key, (h, t), items2); }
  assert forall|k: Seq<char>| #[trigger] vhas(e2, k) == (vhas(e, k) || k == key@) by {
    if vhas(e, k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k; assert(e2[i] == e[i]); }
    if vhas(e2, k) { let i = choose|i: int| 0 <= i < e2.len() && #[trigger] e2[i].0 == k; if i < e.len() { assert(e[i] == e2[i]); } }
    if k == key@ { assert(e2[e.len() as int].0 == k); }
  }
  assert forall|k: Seq<char>| #[trigger] ivl(items2, k) == ev_max(pl(e2), k) by {
    assert(pl(e2) =~= pl(e).push((key@, h@.len())));
    assert(pl(e2).drop_last() =~= pl(e));
    let o = ivl(items, k);
    let o2 = vhas(e, k);
  }
  assert forall|k: Seq<char>, j: int| #[trigger] ivj(items2, k, j) == tot(pj(e2, j), k) by {
    assert(pj(e2, j) =~= pj(e, j).push((key@, nth(h@, j))));
    assert(pj(e2, j).drop_last() =~= pj(e, j));
    let o = ivj(items, k, j);
    assert(ivj(items, k, j) == tot(pj(e, j), k));
    if k == key@ && hask(items, kr) {
      let v = nv@;
      if 0 <= j < v.len() { assert(v[j] == nth(val(items, kr).0@, j) + nth(h@, j)); }
    }
  }
  assert forall|i: int| 0 <= i < items2.len() implies (#[trigger] items2[i]).0@ == (items2[i].1.1).vx_key() by {
    assert(key_repr(&items2[i].0) == KeyRepr::Chars(items2[i].0@));
    if i < items.len() { assert(items2[i].0 == items[i].0); lem_at(items, i); }
  }
}
pub proof fn lem_pj_take(e1: Seq<(Seq<char>, Seq<u32>)>, n: int, j: int) requires 0 <= n <= e1.len() ensures pj(e1.take(n), j) == pj(e1, j).take(n), pl(e1.take(n)) == pl(e1).take(n) { assert(pj(e1.take(n), j) =~= pj(e1, j).take(n)); assert(pl(e1.take(n)) =~= pl(e1).take(n)); }
pub proof fn lem_pj_cat(e1: Seq<(Seq<char>, Seq<u32>)>, e2: Seq<(Seq<char>, Seq<u32>)>, j: int) ensures pj(e1 + e2, j) == pj(e1, j) + pj(e2, j), pl(e1 + e2) == pl(e1) + pl(e2) { assert(pj(e1 + e2, j) =~= pj(e1, j) + pj(e2, j)); assert(pl(e1 + e2) =~= pl(e1) + pl(e2)); }
pub open spec fn vmerged_counters<T: VxKeyed>(h1: Seq<(u32, Vec<u32>)>, m1: Seq<(u32, T)>, h2: Seq<(u32, Vec<u32>)>, m2: Seq<(u32, T)>, hits: Seq<(u32, Vec<u32>)>, map: Seq<(u32, T)>) -> bool {
  &&& dense(hits, map) && covered_by(hits, map) && covered_by(map, hits) && hits.len() <= h1.len() + h2.len()
  &&& forall|i: int, j: int| 0 <= i < j < map.len() ==> ((#[trigger] map[i]).1).vx_key() != ((#[trigger] map[j]).1).vx_key()
  &&& forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(hits, map), j), k) == tot(pj(vev(h1, m1), j), k) + tot(pj(vev(h2, m2), j), k)
  &&& forall|k: Seq<char>| #[trigger] ev_max(pl(vev(hits, map)), k) == (if ev_max(pl(vev(h1, m1)), k) > ev_max(pl(vev(h2, m2)), k) { ev_max(pl(vev(h1, m1)), k) } else { ev_max(pl(vev(h2, m2)), k) })
  &&& forall|k: Seq<char>| #[trigger] vhas(vev(hits, map), k) == (vhas(vev(h1, m1), k) || vhas(vev(h2, m2), k))
  &&& forall|i: int| 0 <= i < map.len() ==> from_map((#[trigger] map[i]).1, m1) || from_map(map[i].1, m2)
}
pub proof fn lem_vhas(e: Seq<(Seq<char>, Seq<u32>)>, k: Seq<char>, j: int) ensures vhas(e, k) == ev_has(pj(e, j), k), vhas(e, k) == ev_has(pl(e), k)
{
  if vhas(e, k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k; assert(pj(e, j)[i].0 == k); assert(pl(e)[i].0 == k); }
  if ev_has(pj(e, j), k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] pj(e, j)[i].0 == k; assert(e[i].0 == k); }
  if ev_has(pl(e), k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] pl(e)[i].0 == k; assert(e[i].0 == k); }
}
pub proof fn lem_vitems_final<T: VxKeyed>(items: Seq<(String, (Vec<u32>, T))>, h1: Seq<(u32, Vec<u32>)>, m1: Seq<(u32, T)>, h2: Seq<(u32, Vec<u32>)>, m2: Seq<(u32, T)>, hits: Seq<(u32, Vec<u32>)>, map: Seq<(u32, T)>)
  requires im_wf(items), vitems_ok(items, vev(h1, m1) + vev(h2, m2)), items_src(items, m1, m2), items.len() <= u32::MAX,
    hits == ids(items.len() as int, |i: int| items[i].1.0), map == ids(items.len() as int, |i: int| items[i].1.1),
  ensures vmerged_counters(h1, m1, h2, m2, hits, map)
{
  broadcast use vx_base;
  let e = vev(hits, map);
  let n = items.len() as int;
  lem_dense(hits, map);
  assert forall|i: int| 0 <= i < n implies (#[trigger] e[i]).0 == items[i].0@ && e[i].1 == items[i].1.0@ by {
    lem_ids_val(n, |i: int| items[i].1.1, i);
    assert(hits[i].0 == i as u32);
  }
  assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by {
    assert(key_repr(&items[i].0) != key_repr(&items[j].0));
  }
  assert forall|i: int, j: int| 0 <= i < j < map.len() implies ((#[trigger] map[i]).1).vx_key() != ((#[trigger] map[j]).1).vx_key() by {
    assert(e[i].0 != e[j].0);
    assert(items[i].0@ == (items[i].1.1).vx_key() && items[j].0@ == (items[j].1.1).vx_key());
  }
  assert forall|k: Seq<char>, j: int| true implies #[trigger] tot(pj(e, j), k) == ivj(items, k, j) && ev_max(pl(e), k) == ivl(items, k) && vhas(e, k) == hask(items, KeyRepr::Chars(k)) by {
    let ej = pj(e, j); let el = pl(e);
    lem_vhas(e, k, j);
    assert forall|a: int, b: int| 0 <= a < b < ej.len() implies (#[trigger] ej[a]).0 != (#[trigger] ej[b]).0 by { assert(e[a].0 != e[b].0); }
    assert forall|a: int, b: int| 0 <= a < b < el.len() implies (#[trigger] el[a]).0 != (#[trigger] el[b]).0 by { assert(e[a].0 != e[b].0); }
    if vhas(e, k) {
      let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i].0 == k;
      lem_at(items, i);
      assert(ej[i].0 == k && el[i].0 == k);
      lem_tot_distinct(ej, i);
      lem_tot_distinct(el, i);
    } else {
      lem_tot_absent(ej, k);
      lem_tot_absent(el, k);
      if hask(items, KeyRepr::Chars(k)) { let i = at(items, KeyRepr::Chars(k)); assert(is_at(items, KeyRepr::Chars(k), i)); assert(e[i].0 == k); }
    }
  }
  let a = vev(h1, m1); let b = vev(h2, m2);
  assert forall|k: Seq<char>, j: int| #[trigger] tot(pj(e, j), k) == tot(pj(a, j), k) + tot(pj(b, j), k) by {
    lem_pj_cat(a, b, j);
    lem_tot_cat(pj(a, j), pj(b, j), k);
    assert(ivj(items, k, j) == tot(pj(a + b, j), k));
  }
  assert forall|k: Seq<char>| #[trigger] ev_max(pl(e), k) == (if ev_max(pl(a), k) > ev_max(pl(b), k) { ev_max(pl(a), k) } else { ev_max(pl(b), k) }) by {
    lem_pj_cat(a, b, 0);
    lem_tot_cat(pl(a), pl(b), k);
    assert(tot(pj(e, 0), k) == ivj(items, k, 0));
    assert(ivl(items, k) == ev_max(pl(a + b), k));
  }
  assert forall|k: Seq<char>| #[trigger] vhas(e, k) == (vhas(a, k) || vhas(b, k)) by {
    lem_pj_cat(a, b, 0);
    lem_tot_cat(pl(a), pl(b), k);
    lem_vhas(a, k, 0); lem_vhas(b, k, 0); lem_vhas(a + b, k, 0);
    assert(tot(pj(e, 0), k) == ivj(items, k, 0));
  }
}
