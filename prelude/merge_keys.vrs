// ------------------------------------------------- the textual location key
pub open spec fn rkey(r: Range) -> Seq<char> {
  dec(r.start.line as nat) + "|"@ + dec(r.start.column as nat) + "|"@ + dec(r.end.line as nat) + "|"@ + dec(r.end.column as nat)
}
impl VxKeyed for Range { open spec fn vx_key(&self) -> Seq<char> { rkey(*self) } }
impl VxKeyed for Function { open spec fn vx_key(&self) -> Seq<char> { rkey(self.loc) } }
impl VxKeyed for Branch { open spec fn vx_key(&self) -> Seq<char> { rkey(self.locations@[0]) } }

pub proof fn lem_digit(n: nat, m: nat) ensures digit(n) != '|', digit(n) == digit(m) ==> n % 10 == m % 10
{
  let a = (n % 10) as u32; let b = (m % 10) as u32;
  assert(a < 10 && b < 10);
  assert((48u32 + a) as char as u32 == 48u32 + a);
  assert((48u32 + b) as char as u32 == 48u32 + b);
}
pub open spec fn nobar(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '|' }
pub proof fn lem_dec(n: nat) ensures nobar(dec(n)), dec(n).len() >= 1 decreases n
{ lem_digit(n, n); if n >= 10 { lem_dec(n / 10); lem_digit(n % 10, 0); } }
pub proof fn lem_dec_inj(n: nat, m: nat) requires dec(n) == dec(m) ensures n == m decreases n
{
  lem_digit(n, m); lem_digit(n % 10, m % 10); lem_digit(n % 10, m); lem_digit(n, m % 10);
  lem_dec(n / 10); lem_dec(m / 10);
  let ln = dec(n).last(); let lm = dec(m).last();
  assert(ln == lm);
  assert(n < 10 ==> dec(n) == seq![digit(n)] && ln == digit(n));
  assert(m < 10 ==> dec(m) == seq![digit(m)] && lm == digit(m));
  assert(n >= 10 ==> ln == digit(n % 10));
  assert(m >= 10 ==> lm == digit(m % 10));
  assert(n % 10 == m % 10);
  if n >= 10 && m >= 10 {
    assert(dec(n).drop_last() =~= dec(n / 10)); assert(dec(m).drop_last() =~= dec(m / 10));
    lem_dec_inj(n / 10, m / 10);
  } else if n >= 10 { assert(dec(n).len() == dec(n / 10).len() + 1); assert(dec(m).len() == 1); }
  else if m >= 10 { assert(dec(m).len() == dec(m / 10).len() + 1); assert(dec(n).len() == 1); }
}
pub proof fn lem_split(a: Seq<char>, x: Seq<char>, b: Seq<char>, y: Seq<char>)
  requires nobar(a), nobar(b), a + "|"@ + x == b + "|"@ + y,
  ensures a == b, x == y
{
  reveal_strlit("|");
  let s = a + "|"@ + x; let t = b + "|"@ + y;
  assert(s[a.len() as int] == '|'); assert(t[b.len() as int] == '|');
  if a.len() < b.len() { assert(t[a.len() as int] == b[a.len() as int]); }
  if b.len() < a.len() { assert(s[b.len() as int] == a[b.len() as int]); }
  assert(a =~= s.take(a.len() as int)); assert(b =~= t.take(b.len() as int));
  assert(x =~= s.skip(a.len() as int + 1)); assert(y =~= t.skip(b.len() as int + 1));
}
/// distinct locations have distinct keys
pub proof fn lem_rkey_inj(p: Range, q: Range)
  requires rkey(p) == rkey(q)
  ensures p == q
{
  let (a, b, c, d) = (p.start.line as nat, p.start.column as nat, p.end.line as nat, p.end.column as nat);
  let (e, f, g, h) = (q.start.line as nat, q.start.column as nat, q.end.line as nat, q.end.column as nat);
  lem_dec(a); lem_dec(b); lem_dec(c); lem_dec(d); lem_dec(e); lem_dec(f); lem_dec(g); lem_dec(h);
  let p3 = dec(c) + "|"@ + dec(d); let q3 = dec(g) + "|"@ + dec(h);
  let p2 = dec(b) + "|"@ + p3; let q2 = dec(f) + "|"@ + q3;
  assert(rkey(p) =~= dec(a) + "|"@ + p2); assert(rkey(q) =~= dec(e) + "|"@ + q2);
  lem_split(dec(a), p2, dec(e), q2);
  lem_split(dec(b), p3, dec(f), q3);
  lem_split(dec(c), dec(d), dec(g), dec(h));
  lem_dec_inj(a, e); lem_dec_inj(b, f); lem_dec_inj(c, g); lem_dec_inj(d, h);
}
// ----------------------------------------------------- file level vocabulary
pub open spec fn branches_ok(m: Seq<(u32, Branch)>) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).1.locations@.len() >= 1 }
pub open spec fn bt_seq(f: FileCoverage) -> Seq<(u32, Vec<u32>)> { if f.b_t is Some { f.b_t->0@ } else { Seq::empty() } }
pub proof fn lem_branches_ok(m: Seq<(u32, Branch)>, m1: Seq<(u32, Branch)>, m2: Seq<(u32, Branch)>)
  requires branches_ok(m1), branches_ok(m2), forall|i: int| 0 <= i < m.len() ==> from_map((#[trigger] m[i]).1, m1) || from_map(m[i].1, m2)
  ensures branches_ok(m)
{
  assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).1.locations@.len() >= 1 by {
    if from_map(m[i].1, m1) { let j = choose|j: int| 0 <= j < m1.len() && (#[trigger] m1[j]).1 == m[i].1; }
    else { let j = choose|j: int| 0 <= j < m2.len() && (#[trigger] m2[j]).1 == m[i].1; }
  }
}
/// every counter has metadata and every piece of metadata has a counter
pub open spec fn fc_wf(f: FileCoverage) -> bool {
  &&& covered_by(f.s@, f.statement_map@) &&& covered_by(f.statement_map@, f.s@)
  &&& covered_by(f.f@, f.fn_map@) &&& covered_by(f.fn_map@, f.f@)
  &&& covered_by(f.b@, f.branch_map@) &&& covered_by(f.branch_map@, f.b@)
  &&& covered_by(bt_seq(f), f.branch_map@)
  &&& branches_ok(f.branch_map@)
}
/// hits of the statement / function at a location, hits of path `j` of the branch at a location
pub open spec fn stmt_hits(f: FileCoverage, loc: Range) -> nat { tot(evs(f.s@, f.statement_map@), rkey(loc)) }
pub open spec fn fn_hits(f: FileCoverage, loc: Range) -> nat { tot(evs(f.f@, f.fn_map@), rkey(loc)) }
pub open spec fn path_hits(f: FileCoverage, loc: Range, j: int) -> nat { tot(pj(vev(f.b@, f.branch_map@), j), rkey(loc)) }
pub open spec fn truthy_hits(f: FileCoverage, loc: Range, j: int) -> nat { tot(pj(vev(bt_seq(f), f.branch_map@), j), rkey(loc)) }
pub open spec fn n_paths(f: FileCoverage, loc: Range) -> nat { ev_max(pl(vev(f.b@, f.branch_map@)), rkey(loc)) }
pub open spec fn has_stmt(f: FileCoverage, loc: Range) -> bool { ev_has(evs(f.s@, f.statement_map@), rkey(loc)) }
pub open spec fn has_fn(f: FileCoverage, loc: Range) -> bool { ev_has(evs(f.f@, f.fn_map@), rkey(loc)) }
pub open spec fn has_branch(f: FileCoverage, loc: Range) -> bool { vhas(vev(f.b@, f.branch_map@), rkey(loc)) }
pub open spec fn has_truthy(f: FileCoverage, loc: Range) -> bool { vhas(vev(bt_seq(f), f.branch_map@), rkey(loc)) }
pub open spec fn kset<A>(s: Seq<(u32, A)>) -> Set<u32> decreases s.len() { if s.len() == 0 { Set::empty() } else { kset(s.drop_last()).insert(s.last().0) } }
pub proof fn lem_kset<A>(s: Seq<(u32, A)>)
  requires im_wf(s),
  ensures kset(s).len() == s.len(), forall|k: u32| #[trigger] kset(s).contains(k) == hask(s, u(k))
  decreases s.len()
{
  broadcast use vx_base;
  if s.len() > 0 {
    let d = s.drop_last(); let x = s.last();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies key_repr(&#[trigger] d[i].0) != key_repr(&#[trigger] d[j].0) by { assert(d[i] == s[i] && d[j] == s[j]); assert(key_repr(&s[i].0) != key_repr(&s[j].0)); }
    lem_kset(d);
    assert(x == s[s.len() - 1]);
    if hask(d, u(x.0)) { let i = at(d, u(x.0)); assert(is_at(d, u(x.0), i)); assert(d[i] == s[i]); assert(key_repr(&s[i].0) != key_repr(&s[s.len() - 1].0)); }
    assert forall|k: u32| #[trigger] kset(s).contains(k) == hask(s, u(k)) by {
      if hask(s, u(k)) { let i = at(s, u(k)); assert(is_at(s, u(k), i)); if i < d.len() { assert(d[i] == s[i]); assert(is_at(d, u(k), i)); } }
      if hask(d, u(k)) { let i = at(d, u(k)); assert(is_at(d, u(k), i)); assert(d[i] == s[i]); assert(is_at(s, u(k), i)); }
      if k == x.0 { assert(is_at(s, u(k), s.len() - 1)); }
    }
  } else {
    assert forall|k: u32| #[trigger] kset(s).contains(k) == hask(s, u(k)) by { if hask(s, u(k)) { assert(is_at(s, u(k), at(s, u(k)))); } }
  }
}
pub proof fn lem_cov_len<A, T>(h: Seq<(u32, A)>, m: Seq<(u32, T)>)
  requires im_wf(h), im_wf(m), covered_by(h, m), ensures h.len() <= m.len()
{
  broadcast use vx_base;
  lem_kset(h); lem_kset(m);
  assert forall|k: u32| kset(h).contains(k) implies kset(m).contains(k) by { assert(is_at(h, u(k), at(h, u(k)))); assert(h[at(h, u(k))].0 == k); }
  vstd::set_lib::lemma_len_subset(kset(h), kset(m));
}
/// no 32 bit counter overflows when the two are added
pub open spec fn sums_fit(a: FileCoverage, b: FileCoverage) -> bool {
  &&& forall|k: Seq<char>| #[trigger] tot(evs(a.s@, a.statement_map@), k) + tot(evs(b.s@, b.statement_map@), k) <= u32::MAX
  &&& forall|k: Seq<char>| #[trigger] tot(evs(a.f@, a.fn_map@), k) + tot(evs(b.f@, b.fn_map@), k) <= u32::MAX
  &&& forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(a.b@, a.branch_map@), j), k) + tot(pj(vev(b.b@, b.branch_map@), j), k) <= u32::MAX
  &&& forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(bt_seq(a), a.branch_map@), j), k) + tot(pj(vev(bt_seq(b), b.branch_map@), j), k) <= u32::MAX
  &&& a.s@.len() + b.s@.len() <= u32::MAX &&& a.f@.len() + b.f@.len() <= u32::MAX &&& a.b@.len() + b.b@.len() <= u32::MAX
}
pub open spec fn merge_bt_spec(a: FileCoverage, b: FileCoverage, r: FileCoverage) -> bool {
  if a.b_t is None { r.b_t is None } else {
    &&& r.b_t is Some
    &&& covered_by(r.b_t->0@, r.branch_map@)
    &&& forall|k: Seq<char>, j: int| #[trigger] tot(pj(vev(bt_seq(r), r.branch_map@), j), k) == tot(pj(vev(bt_seq(a), a.branch_map@), j), k) + tot(pj(vev(bt_seq(b), b.branch_map@), j), k)
    &&& forall|k: Seq<char>| #[trigger] vhas(vev(bt_seq(r), r.branch_map@), k) == (vhas(vev(bt_seq(a), a.branch_map@), k) || vhas(vev(bt_seq(b), b.branch_map@), k))
  }
}
pub open spec fn merge_spec(a: FileCoverage, b: FileCoverage, r: FileCoverage) -> bool {
  if b.all { r == a } else if a.all { r == b } else {
    &&& !r.all &&& r.path == a.path &&& r.input_source_map == a.input_source_map
    &&& merged_counters(a.s@, a.statement_map@, b.s@, b.statement_map@, r.s@, r.statement_map@)
    &&& merged_counters(a.f@, a.fn_map@, b.f@, b.fn_map@, r.f@, r.fn_map@)
    &&& vmerged_counters(a.b@, a.branch_map@, b.b@, b.branch_map@, r.b@, r.branch_map@)
    &&& merge_bt_spec(a, b, r)
  }
}
