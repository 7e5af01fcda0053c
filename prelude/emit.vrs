// -------------------------------------------------- the coverage object in the generated code
pub uninterp spec fn magic_key() -> Seq<char>;
pub uninterp spec fn magic_value() -> Seq<char>;
/// written by the build script: an identifier and a decimal number
#[verifier::external_body] pub fn COVERAGE_MAGIC_KEY() -> (r: &'static str) ensures r@ == magic_key() { unimplemented!() }
#[verifier::external_body] pub fn COVERAGE_MAGIC_VALUE() -> (r: &'static str) ensures r@ == magic_value(), plain(magic_value()) { unimplemented!() }
pub open spec fn bt_name(b: BranchType) -> Seq<char> {
  match b { BranchType::BinaryExpr => "binary-expr"@, BranchType::DefaultArg => "default-arg"@, BranchType::If => "if"@, BranchType::Switch => "switch"@, BranchType::CondExpr => "cond-expr"@ }
}
pub open spec fn jstr(s: Seq<char>) -> J { J::L(K::Str(s)) }
pub open spec fn jpos(l: Location) -> J { jobj(seq![("line"@, jnum(l.line)), ("column"@, jnum(l.column))]) }
pub open spec fn range_kv(r: Range) -> Seq<(Seq<char>, J)> { seq![("start"@, jpos(r.start)), ("end"@, jpos(r.end))] }
pub open spec fn jrange(r: Range) -> J { jobj(range_kv(r)) }
pub open spec fn fn_kv(f: Function) -> Seq<(Seq<char>, J)> { seq![("name"@, jstr(f.name@)), ("decl"@, jrange(f.decl)), ("loc"@, jrange(f.loc)), ("line"@, jnum(f.line))] }
pub open spec fn jfn(f: Function) -> J { jobj(fn_kv(f)) }
pub open spec fn jnums_n(v: Seq<u32>, n: nat) -> Seq<J> { Seq::new(n, |i: int| jnum(v[i])) }
pub open spec fn jnums(v: Seq<u32>) -> J { J::N(K::Arr, jnums_n(v, v.len())) }
pub open spec fn jranges_n(v: Seq<Range>, n: nat) -> Seq<J> { Seq::new(n, |i: int| jrange(v[i])) }
pub open spec fn branch_kv(b: Branch) -> Seq<(Seq<char>, J)> {
  let a: Seq<(Seq<char>, J)> = Seq::empty();
  let a = match b.loc { Some(l) => a.push(("loc"@, jrange(l))), None => a };
  let a = a.push(("type"@, jstr(bt_name(b.branch_type))));
  let a = if b.locations@.len() > 0 { a.push(("locations"@, J::N(K::Arr, jranges_n(b.locations@, b.locations@.len())))) } else { a };
  match b.line { Some(l) => a.push(("line"@, jnum(l))), None => a }
}
pub open spec fn jbranch(b: Branch) -> J { jobj(branch_kv(b)) }
/// the first `n` entries of a map, `g` of the values under the decimal ids
pub open spec fn ents_n<V>(m: Seq<(u32, V)>, g: spec_fn(V) -> J, n: nat) -> Seq<(Seq<char>, J)> { Seq::new(n, |i: int| (dec(m[i].0 as nat), g(m[i].1))) }
pub open spec fn ents<V>(m: Seq<(u32, V)>, g: spec_fn(V) -> J) -> J { jobj(ents_n(m, g, m.len())) }
pub open spec fn jstrs_n(v: Seq<String>, n: nat) -> Seq<J> { Seq::new(n, |i: int| jstr(v[i]@)) }
pub open spec fn jstrs(v: Seq<String>) -> J { J::N(K::Arr, jstrs_n(v, v.len())) }
pub open spec fn jostr(s: Option<String>) -> J { match s { Some(s) => jstr(s@), None => J::L(K::Null) } }
pub open spec fn jostrs_n(v: Seq<Option<String>>, n: nat) -> Seq<J> { Seq::new(n, |i: int| jostr(v[i])) }
pub open spec fn sourcemap_kv(m: SourceMap) -> Seq<(Seq<char>, J)> {
  let a: Seq<(Seq<char>, J)> = seq![("version"@, jnum(m.version))];
  let a = match m.file { Some(f) => a.push(("file"@, jstr(f@))), None => a };
  let a = match m.source_root { Some(f) => a.push(("sourceRoot"@, jstr(f@))), None => a };
  let a = a.push(("sources"@, jstrs(m.sources@)));
  let a = match m.sources_content { Some(c) => a.push(("sourcesContent"@, J::N(K::Arr, jostrs_n(c@, c@.len())))), None => a };
  a.push(("names"@, jstrs(m.names@))).push(("mappings"@, jstr(m.mappings@)))
}
/// the whole object, as istanbul's readers expect it
pub open spec fn cov_kv(c: FileCoverage, hash: Seq<char>) -> Seq<(Seq<char>, J)> {
  let num = |v: u32| jnum(v);
  let nums = |v: Vec<u32>| jnums(v@);
  let a: Seq<(Seq<char>, J)> = Seq::empty();
  let a = a.push(("all"@, J::L(K::Bool(c.all)))).push(("path"@, jstr(c.path@)));
  let a = a.push(("statementMap"@, ents(c.statement_map@, |v: Range| jrange(v))));
  let a = a.push(("fnMap"@, ents(c.fn_map@, |v: Function| jfn(v))));
  let a = a.push(("branchMap"@, ents(c.branch_map@, |v: Branch| jbranch(v))));
  let a = a.push(("s"@, ents(c.s@, num))).push(("f"@, ents(c.f@, num))).push(("b"@, ents(c.b@, nums)));
  let a = match c.b_t { Some(t) => a.push(("bT"@, ents(t@, nums))), None => a };
  let a = match c.input_source_map { Some(m) => a.push(("inputSourceMap"@, jobj(sourcemap_kv(m)))), None => a };
  a.push((magic_key(), jstr(magic_value()))).push(("hash"@, jstr(hash)))
}
pub open spec fn plain_names(c: FileCoverage) -> bool { forall|i: int| 0 <= i < c.fn_map@.len() ==> plain((#[trigger] c.fn_map@[i]).1.name@) }
pub broadcast proof fn lem_plain_dec(n: nat) ensures #[trigger] plain(dec(n)) decreases n {
  if n >= 10 { lem_plain_dec(n / 10); }
  assert forall|i: int| 0 <= i < dec(n).len() implies plain_char(#[trigger] dec(n)[i]) by {
    if n >= 10 && i < dec(n / 10).len() { assert(dec(n)[i] == dec(n / 10)[i]); } else { lem_digit(n); }
  }
}
pub proof fn lem_digit(n: nat) ensures plain_char(digit(n)), digit(n) == digit(n % 10) {
  let d = (n % 10) as u32;
  assert(d < 10);
  let c = ('0' as u32 + d) as u32;
  assert(48 <= c <= 57);
  assert(plain_char(c as char));
}
pub broadcast proof fn lem_plain_bt(b: BranchType) ensures #[trigger] plain(bt_name(b)) {
  reveal_strlit("binary-expr"); reveal_strlit("default-arg"); reveal_strlit("if"); reveal_strlit("switch"); reveal_strlit("cond-expr");
}
pub proof fn lem_hash_kv(c: FileCoverage, h: Seq<char>) ensures hash_of(jobj(cov_kv(c, h))) == Some(h) {}
