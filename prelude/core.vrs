pub mod vxcore {
use vstd::prelude::*;
// ---------------------------------------------------------------------------
// Trusted contracts on dependencies (indexmap, std iterators, Display for u32).
// ---------------------------------------------------------------------------
pub enum KeyRepr { Nat(nat), Chars(Seq<char>), Other(int) }
/// the equivalence class of a key under the map's Borrow/Hash/Eq
pub uninterp spec fn key_repr<K: ?Sized>(k: &K) -> KeyRepr;
pub broadcast axiom fn ax_key_u32(k: u32) ensures #[trigger] key_repr::<u32>(&k) == KeyRepr::Nat(k as nat);
pub broadcast axiom fn ax_key_string(k: String) ensures #[trigger] key_repr::<String>(&k) == KeyRepr::Chars(k@);
pub broadcast axiom fn ax_key_str(k: &str) ensures #[trigger] key_repr::<str>(k) == KeyRepr::Chars(k@);

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }

impl<K, V> View for IndexMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K,V)>; }

pub open spec fn im_wf<K,V>(s: Seq<(K,V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> key_repr(&#[trigger] s[i].0) != key_repr(&#[trigger] s[j].0)
}
pub broadcast axiom fn ax_im_wf<K,V>(m: IndexMap<K,V>) ensures #[trigger] im_wf(m@), m@.len() <= usize::MAX;

pub open spec fn is_at<K,V>(s: Seq<(K,V)>, k: KeyRepr, i: int) -> bool { 0 <= i < s.len() && key_repr(&s[i].0) == k }
pub open spec fn hask<K,V>(s: Seq<(K,V)>, k: KeyRepr) -> bool { exists|i: int| #[trigger] is_at(s, k, i) }
pub open spec fn at<K,V>(s: Seq<(K,V)>, k: KeyRepr) -> int { choose|i: int| #[trigger] is_at(s, k, i) }
pub open spec fn val<K,V>(s: Seq<(K,V)>, k: KeyRepr) -> V { s[at(s, k)].1 }

pub proof fn lem_at<K,V>(s: Seq<(K,V)>, i: int)
  requires im_wf(s), 0 <= i < s.len(),
  ensures hask(s, key_repr(&s[i].0)), at(s, key_repr(&s[i].0)) == i, val(s, key_repr(&s[i].0)) == s[i].1,
{
  let k = key_repr(&s[i].0);
  assert(is_at(s, k, i));
  let j = at(s, k);
  assert(is_at(s, k, j));
  if i < j { assert(key_repr(&s[i].0) != key_repr(&s[j].0)); }
  if j < i { assert(key_repr(&s[j].0) != key_repr(&s[i].0)); }
}

impl<K,V> Default for IndexMap<K,V> {
  #[verifier::external_body]
  fn default() -> (r: Self) ensures r@ == Seq::<(K,V)>::empty() { unimplemented!() }
}
impl<K, V> Clone for IndexMap<K,V> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn put<K,V>(s: Seq<(K,V)>, k: K, v: V) -> Seq<(K,V)> {
  if hask(s, key_repr(&k)) { s.update(at(s, key_repr(&k)), (s[at(s, key_repr(&k))].0, v)) } else { s.push((k, v)) }
}
/// swap_remove: the last entry takes the place of the removed one
pub open spec fn taken_out<K,V>(s: Seq<(K,V)>, k: KeyRepr) -> Seq<(K,V)> {
  if hask(s, k) { s.update(at(s, k), s.last()).drop_last() } else { s }
}
pub proof fn lem_taken_out<K,V>(s: Seq<(K,V)>, k: KeyRepr, s2: Seq<(K, V)>)
  requires im_wf(s), s2 == taken_out(s, k)
  ensures im_wf(s2), forall|kk: KeyRepr| #[trigger] hask(s2, kk) == (hask(s, kk) && kk != k), forall|kk: KeyRepr| hask(s2, kk) ==> #[trigger] val(s2, kk) == val(s, kk),
{
  if hask(s, k) {
    let p = at(s, k); assert(is_at(s, k, p));
    let z = s.len() - 1;
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] s2[i] == (if i == p { s[z] } else { s[i] }) by {}
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies key_repr(&#[trigger] s2[i].0) != key_repr(&#[trigger] s2[j].0) by {
      assert(key_repr(&s[i].0) != key_repr(&s[j].0));
      if i == p { assert(key_repr(&s[j].0) != key_repr(&s[z].0)); }
      if j == p { assert(key_repr(&s[i].0) != key_repr(&s[z].0)); }
    }
    assert forall|kk: KeyRepr| #[trigger] hask(s2, kk) == (hask(s, kk) && kk != k) by {
      if hask(s2, kk) {
        let i = at(s2, kk); assert(is_at(s2, kk, i));
        if i == p { assert(is_at(s, kk, z)); if z != p { assert(key_repr(&s[p].0) != key_repr(&s[z].0)); } } else { assert(is_at(s, kk, i)); lem_at(s, i); lem_at(s, p); }
      }
      if hask(s, kk) && kk != k {
        let i = at(s, kk); assert(is_at(s, kk, i));
        if i == z { assert(is_at(s2, kk, p)); } else { assert(is_at(s2, kk, i)); }
      }
    }
    assert forall|kk: KeyRepr| hask(s2, kk) implies #[trigger] val(s2, kk) == val(s, kk) by {
      assert(hask(s, kk) && kk != k);
      let i = at(s, kk); assert(is_at(s, kk, i)); lem_at(s, i);
      if i == z { assert(is_at(s2, kk, p)); lem_at(s2, p); } else { assert(is_at(s2, kk, i)); lem_at(s2, i); }
    }
  }
}
impl<K,V> IndexMap<K,V> {
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Seq::<(K,V)>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool) ensures r == hask(self@, key_repr(k)) { unimplemented!() }
  #[verifier::external_body]
  pub fn get<Q: ?Sized>(&self, k: &Q) -> (r: Option<&V>)
    ensures r is Some <==> hask(self@, key_repr(k)), r is Some ==> *(r->0) == val(self@, key_repr(k)) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
    ensures r is Some <==> hask(old(self)@, key_repr(k)),
      r is None ==> final(self)@ == old(self)@,
      r is Some ==> *(r->0) == val(old(self)@, key_repr(k)) && final(self)@ == old(self)@.update(at(old(self)@, key_repr(k)), (old(self)@[at(old(self)@, key_repr(k))].0, *final(r->0)))
   { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_get_mut(&mut self, k: &K) -> (r: &mut V)
    requires hask(old(self)@, key_repr(k)),
    ensures *r == val(old(self)@, key_repr(k)), final(self)@ == old(self)@.update(at(old(self)@, key_repr(k)), (old(self)@[at(old(self)@, key_repr(k))].0, *final(r)))
   { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self)@ == put(old(self)@, k, v), r is Some <==> hask(old(self)@, key_repr(&k)), r is Some ==> r->0 == val(old(self)@, key_repr(&k))
   { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
    ensures *r == (if hask(old(self)@, key_repr(&k)) { val(old(self)@, key_repr(&k)) } else { v }),
      final(self)@ == (if hask(old(self)@, key_repr(&k)) { old(self)@.update(at(old(self)@, key_repr(&k)), (old(self)@[at(old(self)@, key_repr(&k))].0, *final(r))) } else { old(self)@.push((k, *final(r))) })
   { unimplemented!() }
  // iteration, in insertion order
  #[verifier::external_body]
  pub fn vx_iter(&self) -> (r: VxIt<(&K, &V)>) ensures r.pos() == 0, r@ == im_refs(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_values(&self) -> (r: VxIt<&V>) ensures r.pos() == 0, r@ == im_vals(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_keys(&self) -> (r: VxIt<&K>) ensures r.pos() == 0, r@ == im_keys(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_drain(&mut self) -> (r: VxIt<(K, V)>) ensures r.pos() == 0, r@ == old(self)@, final(self)@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_take(&mut self) -> (r: Self) ensures r@ == old(self)@, final(self)@ == Seq::<(K, V)>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn swap_remove_entry<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<(K, V)>)
    ensures final(self)@ == taken_out(old(self)@, key_repr(k)), r is Some <==> hask(old(self)@, key_repr(k)), r is Some ==> r->0 == old(self)@[at(old(self)@, key_repr(k))] { unimplemented!() }
  #[verifier::external_body]
  pub fn swap_remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
    ensures final(self)@ == taken_out(old(self)@, key_repr(k)), r is Some <==> hask(old(self)@, key_repr(k)), r is Some ==> r->0 == val(old(self)@, key_repr(k)) { unimplemented!() }
  #[verifier::external_body]
  pub fn shift_remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
    ensures final(self)@ == (if hask(old(self)@, key_repr(k)) { old(self)@.remove(at(old(self)@, key_repr(k))) } else { old(self)@ }), r is Some <==> hask(old(self)@, key_repr(k)), r is Some ==> r->0 == val(old(self)@, key_repr(k)) { unimplemented!() }
  // mutable iteration over the values, in insertion order
  #[verifier::external_body]
  pub fn vx_mlen(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_mut_at(&mut self, i: usize) -> (r: &mut V)
    requires i < old(self)@.len(),
    ensures *r == old(self)@[i as int].1, final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, *final(r))) { unimplemented!() }
}
pub open spec fn im_refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
pub open spec fn im_vals<'a, K, V>(s: Seq<(K, V)>) -> Seq<&'a V> { Seq::new(s.len(), |i: int| &s[i].1) }
pub open spec fn im_keys<'a, K, V>(s: Seq<(K, V)>) -> Seq<&'a K> { Seq::new(s.len(), |i: int| &s[i].0) }
pub open spec fn vec_refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn seq_enum<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }

/// an iterator with a ghost sequence of all its items
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIt<T> { t: core::marker::PhantomData<T> }
impl<T> View for VxIt<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VxIt<T> {
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn vx_has_next(&self) -> (r: bool) requires 0 <= self.pos() <= self@.len(), ensures r == (self.pos() < self@.len()) { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_next(&mut self) -> (r: T)
    requires 0 <= old(self).pos() < old(self)@.len(),
    ensures r == old(self)@[old(self).pos()], final(self)@ == old(self)@, final(self).pos() == old(self).pos() + 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_enumerate(self) -> (r: VxIt<(usize, T)>) requires self.pos() == 0, ensures r.pos() == 0, r@ == seq_enum(self@), r@.len() <= usize::MAX { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_collect(self) -> (r: Vec<T>) requires self.pos() == 0, ensures r@ == self@ { unimplemented!() }
  pub fn vx_iter(self) -> (r: VxIt<T>) ensures r == self { self }
}
pub trait VxIntoIt: Sized {
  type Item;
  spec fn vx_items(self) -> Seq<Self::Item>;
  spec fn vx_fresh(self) -> bool;
  fn vx_into_it(self) -> (r: VxIt<Self::Item>) requires self.vx_fresh(), ensures r.pos() == 0, r@ == self.vx_items();
  fn vx_into_iter(self) -> (r: VxIt<Self::Item>) requires self.vx_fresh(), ensures r.pos() == 0, r@ == self.vx_items() { self.vx_into_it() }
}
impl<T> VxIntoIt for VxIt<T> { type Item = T;
  open spec fn vx_items(self) -> Seq<T> { self@ }
  open spec fn vx_fresh(self) -> bool { self.pos() == 0 }
  fn vx_into_it(self) -> (r: VxIt<T>) { self } }
impl<'a, K, V> VxIntoIt for &'a IndexMap<K, V> { type Item = (&'a K, &'a V);
  open spec fn vx_items(self) -> Seq<(&'a K, &'a V)> { im_refs(self@) }
  open spec fn vx_fresh(self) -> bool { true }
  #[verifier::external_body]
  fn vx_into_it(self) -> (r: VxIt<(&'a K, &'a V)>) { unimplemented!() } }
impl<K, V> VxIntoIt for IndexMap<K, V> { type Item = (K, V);
  open spec fn vx_items(self) -> Seq<(K, V)> { self@ }
  open spec fn vx_fresh(self) -> bool { true }
  #[verifier::external_body]
  fn vx_into_it(self) -> (r: VxIt<(K, V)>) { unimplemented!() } }
impl<'a, T> VxIntoIt for &'a Vec<T> { type Item = &'a T;
  open spec fn vx_items(self) -> Seq<&'a T> { vec_refs(self@) }
  open spec fn vx_fresh(self) -> bool { true }
  #[verifier::external_body]
  fn vx_into_it(self) -> (r: VxIt<&'a T>) { unimplemented!() } }
impl<'a, T> VxIntoIt for &'a [T] { type Item = &'a T;
  open spec fn vx_items(self) -> Seq<&'a T> { vec_refs(self@) }
  open spec fn vx_fresh(self) -> bool { true }
  #[verifier::external_body]
  fn vx_into_it(self) -> (r: VxIt<&'a T>) { unimplemented!() } }
impl<T> VxIntoIt for Vec<T> { type Item = T;
  open spec fn vx_items(self) -> Seq<T> { self@ }
  open spec fn vx_fresh(self) -> bool { true }
  #[verifier::external_body]
  fn vx_into_it(self) -> (r: VxIt<T>) { unimplemented!() } }
impl VxIntoIt for core::ops::Range<usize> { type Item = usize;
  open spec fn vx_items(self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
  open spec fn vx_fresh(self) -> bool { true }
  #[verifier::external_body]
  fn vx_into_it(self) -> (r: VxIt<usize>) { unimplemented!() } }
impl VxIntoIt for core::ops::Range<u32> { type Item = u32;
  open spec fn vx_items(self) -> Seq<u32> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u32) }
  open spec fn vx_fresh(self) -> bool { true }
  #[verifier::external_body]
  fn vx_into_it(self) -> (r: VxIt<u32>) { unimplemented!() } }

pub trait VxVec<T> {
  spec fn vx_s(&self) -> Seq<T>;
  fn vx_iter(&self) -> (r: VxIt<&T>) ensures r.pos() == 0, r@ == vec_refs(self.vx_s());
  fn vx_mlen(&self) -> (r: usize) ensures r == self.vx_s().len();
  fn vx_mut_at(&mut self, i: usize) -> (r: &mut T)
    requires i < old(self).vx_s().len(),
    ensures *r == old(self).vx_s()[i as int], final(self).vx_s() == old(self).vx_s().update(i as int, *final(r));
  fn vx_append(&mut self, o: &mut Self) ensures final(self).vx_s() == old(self).vx_s() + old(o).vx_s(), final(o).vx_s().len() == 0;
}
impl<T> VxVec<T> for Vec<T> {
  open spec fn vx_s(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn vx_iter(&self) -> (r: VxIt<&T>) { unimplemented!() }
  fn vx_mlen(&self) -> (r: usize) { self.len() }
  #[verifier::external_body]
  fn vx_mut_at(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
  #[verifier::external_body]
  fn vx_append(&mut self, o: &mut Self) { unimplemented!() }
}
pub trait VxSlice<T> { spec fn vx_sl(&self) -> Seq<T>; fn vx_iter(&self) -> (r: VxIt<&T>) ensures r.pos() == 0, r@ == vec_refs(self.vx_sl()); }
impl<T> VxSlice<T> for [T] { open spec fn vx_sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> (r: VxIt<&T>) { unimplemented!() } }
impl<T> VxVecIns<T> for Vec<T> { open spec fn vx_is(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_insert_front(&mut self, x: T) { unimplemented!() } }
pub trait VxVecIns<T> { spec fn vx_is(&self) -> Seq<T>; fn vx_insert_front(&mut self, x: T) ensures final(self).vx_is() == seq![x] + old(self).vx_is(); }
#[verifier::external_body] pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// text that a trusted function reads
pub trait VxText { spec fn chars(&self) -> Seq<char>; }
impl VxText for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a str { open spec fn chars(&self) -> Seq<char> { self@ } }
/// the dereferencing coercion of an argument to `&str`
#[verifier::external_body] pub fn vx_str<A: VxText + ?Sized>(a: &A) -> (r: &str) ensures r@ == a.chars() { unimplemented!() }
pub trait VxVecC<T: Clone> {
  spec fn vx_sc(&self) -> Seq<T>;
  fn vx_resize(&mut self, n: usize, v: T)
    ensures final(self).vx_sc().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self).vx_sc()[i] == (if i < old(self).vx_sc().len() { old(self).vx_sc()[i] } else { v });
}
impl<T: Clone> VxVecC<T> for Vec<T> {
  open spec fn vx_sc(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn vx_resize(&mut self, n: usize, v: T) { unimplemented!() }
}
/// derived / std `Clone` is structural
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T {
  #[verifier::external_body]
  fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VxV { spec fn vx_sv(self) -> u32; fn vx_v(self) -> (r: u32) ensures r == self.vx_sv(); }
impl VxV for u32 { open spec fn vx_sv(self) -> u32 { self } fn vx_v(self) -> (r: u32) { self } }
impl<'a> VxV for &'a u32 { open spec fn vx_sv(self) -> u32 { *self } fn vx_v(self) -> (r: u32) { *self } }
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }

// Display --------------------------------------------------------------------
pub open spec fn digit(n: nat) -> char { ('0' as u32 + (n % 10) as u32) as char }
/// decimal digits, as written by `Display for u32`
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
#[verifier::external_body]
pub fn vx_str_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub trait VxStr { 
  spec fn vx_chars(&self) -> Seq<char>;
  fn vx_push_lit(&mut self, s: &str) ensures final(self).vx_chars() == old(self).vx_chars() + s@;
}
impl VxStr for String { open spec fn vx_chars(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_push_lit(&mut self, s: &str) { unimplemented!() } }
pub trait VxDisplay { spec fn vx_disp(&self) -> Seq<char>; fn vx_display(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.vx_disp(); }
impl VxDisplay for u32 { open spec fn vx_disp(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn vx_display(&self, s: &mut String) { unimplemented!() } }
impl VxDisplay for u64 { open spec fn vx_disp(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn vx_display(&self, s: &mut String) { unimplemented!() } }
impl VxDisplay for usize { open spec fn vx_disp(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn vx_display(&self, s: &mut String) { unimplemented!() } }
impl VxDisplay for String { open spec fn vx_disp(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_display(&self, s: &mut String) { unimplemented!() } }
impl<'a> VxDisplay for &'a str { open spec fn vx_disp(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_display(&self, s: &mut String) { unimplemented!() } }
pub trait VxStrX { fn vx_as_str(&self) -> (r: &str) ensures r@ == self.vx_cs(); spec fn vx_cs(&self) -> Seq<char>; }
impl VxStrX for String { open spec fn vx_cs(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() } }

// floats: uninterpreted, only the shape of the computation is compared ---------
pub uninterp spec fn int_to_f32(i: int) -> f32;
pub uninterp spec fn int_to_f64(i: int) -> f64;
pub uninterp spec fn f64_to_f32(i: f64) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub uninterp spec fn ffloor(a: f32) -> f32;
pub uninterp spec fn fceil(a: f32) -> f32;
pub uninterp spec fn fround(a: f32) -> f32;
#[verifier::external_body] pub fn vx_fdiv(a: f32, b: f32) -> (r: f32) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fmul(a: f32, b: f32) -> (r: f32) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fadd(a: f32, b: f32) -> (r: f32) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fsub(a: f32, b: f32) -> (r: f32) ensures r == fsub(a, b) { unimplemented!() }
pub trait VxF { spec fn s32(self) -> f32; fn vx_to_f32(self) -> (r: f32) ensures r == self.s32(); }
pub trait VxF6 { spec fn s64(self) -> f64; fn vx_to_f64(self) -> (r: f64) ensures r == self.s64(); }
impl VxF for u8 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for u8 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for u16 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for u16 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for u32 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for u32 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for u64 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for u64 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for usize { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for usize { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for i8 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for i8 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for i16 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for i16 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for i32 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for i32 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for i64 { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for i64 { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for isize { open spec fn s32(self) -> f32 { int_to_f32(self as int) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
impl VxF6 for isize { open spec fn s64(self) -> f64 { int_to_f64(self as int) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
pub uninterp spec fn f32_to_f64(x: f32) -> f64;
impl VxF6 for f32 { open spec fn s64(self) -> f64 { f32_to_f64(self) } #[verifier::external_body] fn vx_to_f64(self) -> (r: f64) { unimplemented!() } }
impl VxF for f64 { open spec fn s32(self) -> f32 { f64_to_f32(self) } #[verifier::external_body] fn vx_to_f32(self) -> (r: f32) { unimplemented!() } }
pub trait VxFf: Sized { fn vx_floor(self) -> (r: f32) ensures r == ffloor(self.vx_f()); fn vx_ceil(self) -> (r: f32) ensures r == fceil(self.vx_f()); fn vx_round(self) -> (r: f32) ensures r == fround(self.vx_f()); spec fn vx_f(self) -> f32; }
impl VxFf for f32 { open spec fn vx_f(self) -> f32 { self }
  #[verifier::external_body] fn vx_floor(self) -> (r: f32) { unimplemented!() }
  #[verifier::external_body] fn vx_ceil(self) -> (r: f32) { unimplemented!() }
  #[verifier::external_body] fn vx_round(self) -> (r: f32) { unimplemented!() } }

pub broadcast group vx_base { ax_key_u32, ax_key_string, ax_key_str, ax_im_wf }
pub proof fn lem_put<K, V>(s: Seq<(K, V)>, k: K, v: V, s2: Seq<(K, V)>)
  requires im_wf(s), s2 == put(s, k, v),
  ensures im_wf(s2),
    forall|kk: KeyRepr| #[trigger] hask(s2, kk) == (hask(s, kk) || kk == key_repr(&k)),
    forall|kk: KeyRepr| hask(s2, kk) ==> #[trigger] val(s2, kk) == (if kk == key_repr(&k) { v } else { val(s, kk) }),
    forall|kk: KeyRepr| hask(s, kk) ==> #[trigger] at(s2, kk) == at(s, kk),
    !hask(s, key_repr(&k)) ==> at(s2, key_repr(&k)) == s.len(),
    s2.len() == s.len() + (if hask(s, key_repr(&k)) { 0int } else { 1 }),
    s2.len() >= s.len(),
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s2[i]).0 == s[i].0,
    forall|i: int| 0 <= i < s2.len() ==> (#[trigger] s2[i]).1 == (if key_repr(&s2[i].0) == key_repr(&k) { v } else { s[i].1 }),
{
  let kr = key_repr(&k);
  if hask(s, kr) {
    let p = at(s, kr);
    assert(is_at(s, kr, p));
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies key_repr(&#[trigger] s2[i].0) != key_repr(&#[trigger] s2[j].0) by { assert(s2[i].0 == s[i].0 && s2[j].0 == s[j].0); }
  } else {
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies key_repr(&#[trigger] s2[i].0) != key_repr(&#[trigger] s2[j].0) by {
      assert(s2[i] == s[i]);
      if j < s.len() { assert(s2[j] == s[j]); } else { if key_repr(&s[i].0) == kr { assert(is_at(s, kr, i)); } }
    }
  }
  assert forall|kk: KeyRepr| #[trigger] hask(s2, kk) == (hask(s, kk) || kk == kr) by {
    if hask(s2, kk) { let i = at(s2, kk); assert(is_at(s2, kk, i)); if i < s.len() { assert(is_at(s, kk, i)); } }
    if hask(s, kk) { let i = at(s, kk); assert(is_at(s, kk, i)); assert(is_at(s2, kk, i)); }
    if kk == kr { if hask(s, kr) { let i = at(s, kr); assert(is_at(s, kr, i)); assert(is_at(s2, kr, i)); } else { assert(is_at(s2, kr, s.len() as int)); } }
  }
  assert forall|kk: KeyRepr| hask(s, kk) implies #[trigger] at(s2, kk) == at(s, kk) by {
    let i = at(s, kk); assert(is_at(s, kk, i)); lem_at(s2, i); assert(s2[i].0 == s[i].0);
  }
  assert forall|kk: KeyRepr| hask(s2, kk) implies #[trigger] val(s2, kk) == (if kk == kr { v } else { val(s, kk) }) by {
    if hask(s, kk) { let i = at(s, kk); assert(is_at(s, kk, i)); lem_at(s2, i); assert(s2[i].0 == s[i].0); if kk != kr && hask(s, kr) { assert(is_at(s, kr, at(s, kr))); assert(i != at(s, kr)); } }
    else { assert(kk == kr); lem_at(s2, s.len() as int); }
  }
  if !hask(s, kr) { lem_at(s2, s.len() as int); }
  assert forall|i: int| 0 <= i < s2.len() implies (#[trigger] s2[i]).1 == (if key_repr(&s2[i].0) == kr { v } else { s[i].1 }) by {
    lem_at(s2, i);
    if i < s.len() { lem_at(s, i); assert(s2[i].0 == s[i].0); }
  }
}
/// in-place modification of the entry of `k` is `put`
pub proof fn lem_upd<K, V>(s: Seq<(K, V)>, k: K, v: V, s2: Seq<(K, V)>)
  requires hask(s, key_repr(&k)), s2 == s.update(at(s, key_repr(&k)), (s[at(s, key_repr(&k))].0, v)),
  ensures s2 == put(s, k, v)
{ }
} // mod vxcore
use vxcore::*;
broadcast use vxcore::vx_base;
