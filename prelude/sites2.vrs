impl BytePos { pub open spec fn dummy(self) -> bool { self.0 == 0 } #[verifier::external_body] pub fn is_dummy(self) -> (r: bool) ensures r == (self.0 == 0) { unimplemented!() } }
pub open spec fn scope_of(h: Option<Seq<char>>) -> Option<IgnoreScope> {
  match h { Some(t) => if t == "next"@ { Some(IgnoreScope::Next) } else if t == "if"@ { Some(IgnoreScope::If) } else if t == "else"@ { Some(IgnoreScope::Else) } else { None }, None => None }
}
pub open spec fn lc(l: Loc) -> Location { Location { line: l.line as u32, column: l.col.0 as u32 } }
pub open spec fn no_range(r: Range) -> bool { r.start.line == 0 && r.start.column == 0 && r.end.line == 0 && r.end.column == 0 }
/// the range of the text of a span: empty if there is none
pub open spec fn range_of<S: SourceMapper>(m: S, sp: Span) -> Range {
  if sp.lo.dummy() || sp.hi.dummy() { Range { start: Location { line: 0, column: 0 }, end: Location { line: 0, column: 0 } } } else { Range { start: lc(m.loc(sp.lo)), end: lc(m.loc(sp.hi)) } }
}
pub open spec fn co(o: Option<Vec<Comment>>) -> Option<Seq<Comment>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn any_opt(s: Seq<&Option<Vec<Comment>>>, n: int) -> bool { exists|i: int| 0 <= i < n && any_says(texts(co(*#[trigger] s[i])), "file"@) }
pub open spec fn any_comment(s: Seq<&Comment>, n: int) -> bool { exists|i: int| 0 <= i < n && says((#[trigger] s[i]).text@, "file"@) }
pub open spec fn crefs(s: Seq<&Comment>) -> Seq<Seq<char>> { s.map_values(|c: &Comment| c.text@) }
pub proof fn lem_any_comment(s: Seq<Comment>) ensures any_comment(vec_refs(s), s.len() as int) == any_says(texts(Some(s)), "file"@) {
  let r = vec_refs(s); let t = texts(Some(s));
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] t[i] == (#[trigger] r[i]).text@ by { }
  if any_comment(r, s.len() as int) { let i = choose|i: int| 0 <= i < s.len() && says((#[trigger] r[i]).text@, "file"@); assert(says(t[i], "file"@)); }
  if any_says(t, "file"@) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] says(t[i], "file"@); assert(says(r[i].text@, "file"@)); }
}
pub proof fn lem_crefs(s: Seq<Comment>) ensures crefs(vec_refs(s)) == texts(Some(s)) { assert(crefs(vec_refs(s)) =~= texts(Some(s))); }
pub proof fn lem_any_step(s: Seq<&Comment>, n: int) requires 0 <= n < s.len() ensures any_comment(s, n + 1) == (any_comment(s, n) || says(s[n].text@, "file"@)) {
  if says(s[n].text@, "file"@) { assert(0 <= n < n + 1); }
}
pub proof fn lem_any_opt(s: Seq<&Option<Vec<Comment>>>, n: int) requires 0 <= n < s.len() ensures any_opt(s, n + 1) == (any_opt(s, n) || any_says(texts(co(*s[n])), "file"@)) {
  if any_says(texts(co(*s[n])), "file"@) { assert(0 <= n < n + 1); }
}
