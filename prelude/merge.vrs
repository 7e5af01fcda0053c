// ------------------------------------------------------------- event sums
pub open spec fn tot<K>(ev: Seq<(K, nat)>, k: K) -> nat decreases ev.len() {
  if ev.len() == 0 { 0 } else { tot(ev.drop_last(), k) + (if ev.last().0 == k { ev.last().1 } else { 0 }) }
}
pub open spec fn ev_has<K>(ev: Seq<(K, nat)>, k: K) -> bool { exists|i: int| 0 <= i < ev.len() && #[trigger] ev[i].0 == k }
pub open spec fn ev_max<K>(ev: Seq<(K, nat)>, k: K) -> nat decreases ev.len() {
  if ev.len() == 0 { 0 } else { let m = ev_max(ev.drop_last(), k); if ev.last().0 == k && ev.last().1 > m { ev.last().1 } else { m } }
}
pub proof fn lem_tot_push<K>(ev: Seq<(K, nat)>, n: int, k: K)
  requires 0 <= n < ev.len(),
  ensures tot(ev.take(n + 1), k) == tot(ev.take(n), k) + (if ev[n].0 == k { ev[n].1 } else { 0 }),
    ev_max(ev.take(n + 1), k) == (if ev[n].0 == k && ev[n].1 > ev_max(ev.take(n), k) { ev[n].1 } else { ev_max(ev.take(n), k) }),
{ assert(ev.take(n + 1).drop_last() =~= ev.take(n)); }
pub proof fn lem_tot_mono<K>(ev: Seq<(K, nat)>, n: int, k: K)
  requires 0 <= n <= ev.len(),
  ensures tot(ev.take(n), k) <= tot(ev, k)
  decreases ev.len() - n
{ if n < ev.len() { lem_tot_push(ev, n, k); lem_tot_mono(ev, n + 1, k); } else { assert(ev.take(n) =~= ev); } }
pub proof fn lem_tot_absent<K>(ev: Seq<(K, nat)>, k: K)
  requires !ev_has(ev, k),
  ensures tot(ev, k) == 0, ev_max(ev, k) == 0
  decreases ev.len()
{ if ev.len() > 0 {
    let e = ev.drop_last();
    assert(ev.last() == ev[ev.len() - 1]);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i].0 != k by { assert(e[i] == ev[i]); }
    lem_tot_absent(e, k);
} }
pub open spec fn ev_distinct<K>(ev: Seq<(K, nat)>) -> bool { forall|i: int, j: int| 0 <= i < j < ev.len() ==> (#[trigger] ev[i]).0 != (#[trigger] ev[j]).0 }
pub proof fn lem_tot_distinct<K>(ev: Seq<(K, nat)>, i: int)
  requires ev_distinct(ev), 0 <= i < ev.len(),
  ensures tot(ev, ev[i].0) == ev[i].1, ev_max(ev, ev[i].0) == ev[i].1,
  decreases ev.len()
{
  let e = ev.drop_last();
  assert forall|a: int, b: int| 0 <= a < b < e.len() implies (#[trigger] e[a]).0 != (#[trigger] e[b]).0 by { assert(e[a] == ev[a] && e[b] == ev[b]); }
  if i == ev.len() - 1 {
    assert forall|a: int| 0 <= a < e.len() implies #[trigger] e[a].0 != ev[i].0 by { assert(e[a] == ev[a]); assert(ev[a].0 != ev[i].0); }
    lem_tot_absent(e, ev[i].0);
  } else {
    assert(ev[i].0 != ev[ev.len() - 1].0);
    assert(e[i] == ev[i]);
    lem_tot_distinct(e, i);
  }
}
// ------------------------------------------------- keys given by a function
/// items identified by a source location
pub trait VxKeyed { spec fn vx_key(&self) -> Seq<char>; }
/// `f` computes the key of the items of `m`
pub open spec fn key_dom<T: VxKeyed, F: Fn(&T) -> String>(f: F, m: Seq<(u32, T)>) -> bool {
  forall|i: int| 0 <= i < m.len() ==> call_requires(f, (&(#[trigger] m[i]).1,))
}
pub open spec fn key_ok<T: VxKeyed, F: Fn(&T) -> String>(f: F) -> bool {
  forall|t: &T, a: String| #[trigger] call_ensures(f, (t,), a) ==> a@ == (*t).vx_key()
}
pub open spec fn u(k: u32) -> KeyRepr { KeyRepr::Nat(k as nat) }
/// hit events of a counter map: (source key, hits)
pub open spec fn evs<T: VxKeyed>(hits: Seq<(u32, u32)>, map: Seq<(u32, T)>) -> Seq<(Seq<char>, nat)> {
  Seq::new(hits.len(), |i: int| ((val(map, u(hits[i].0))).vx_key(), hits[i].1 as nat))
}
pub open spec fn nth(v: Seq<u32>, j: int) -> nat { if 0 <= j < v.len() { v[j] as nat } else { 0 } }
/// every counter has metadata
pub open spec fn covered_by<A, T>(hits: Seq<(u32, A)>, map: Seq<(u32, T)>) -> bool { forall|i: int| 0 <= i < hits.len() ==> hask(map, u((#[trigger] hits[i]).0)) }
pub open spec fn from_map<T>(t: T, map: Seq<(u32, T)>) -> bool { exists|i: int| 0 <= i < map.len() && (#[trigger] map[i]).1 == t }
/// ids are 0..n in both maps
pub open spec fn dense<A, T>(hits: Seq<(u32, A)>, map: Seq<(u32, T)>) -> bool {
  hits.len() == map.len() && (forall|i: int| 0 <= i < hits.len() ==> (#[trigger] hits[i]).0 == i) && (forall|i: int| 0 <= i < map.len() ==> (#[trigger] map[i]).0 == i)
}
