// -------------------------------------------------- the coverage function of a file
#[verifier::external_body] pub struct FileCoverage { x: u8 }
pub uninterp spec fn plain_names(c: FileCoverage) -> bool;
pub open spec fn data_of(c: FileCoverage, h: Seq<char>) -> J { jobj(cov_kv(c, h)) }
pub open spec fn is_data(c: FileCoverage, h: Seq<char>) -> bool { data_of(c, h) is N }
pub uninterp spec fn cov_kv(c: FileCoverage, hash: Seq<char>) -> Seq<(Seq<char>, J)>;
/// proved in unit emit
pub broadcast axiom fn lem_hash_kv(c: FileCoverage, h: Seq<char>) ensures hash_of(#[trigger] jobj(cov_kv(c, h))) == Some(h);
pub enum CommentKind { Line, Block }
pub struct Comment { pub kind: CommentKind, pub span: Span, pub text: Atom }
pub trait Comments { fn add_trailing(&self, pos: BytePos, cmt: Comment); }
impl Span { #[verifier::external_body] pub fn dummy_with_cmt() -> (r: Span) { unimplemented!() } }
impl BlockStmt { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.ctxt == no_ctxt(), r.stmts@.len() == 0 { unimplemented!() } }
impl ast::Function { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.params@.len() == 0, r.decorators@.len() == 0, r.body is None, !r.is_async, !r.is_generator { unimplemented!() } }
impl NewExpr { #[verifier::external_body] pub fn dummy() -> (r: Self) ensures r.ctxt == no_ctxt(), r.args is None, r.type_args is None { unimplemented!() } }

// --- names
pub broadcast axiom fn ax_atom(a: Atom) ensures #[trigger] atom_of(a@) == a;
/// atoms are equal iff their texts are
pub uninterp spec fn atom_of(t: Seq<char>) -> Atom;
pub open spec fn path_hash(path: Seq<char>) -> Seq<char> { dec(hash_bits(hash_add(hash_new(), path)) as nat) }
pub open spec fn cov_name(path: Seq<char>) -> Seq<char> { "cov_"@ + path_hash(path) }
pub open spec fn fn_ident(path: Seq<char>) -> Ident { Ident { span: DUMMY_SP, ctxt: no_ctxt(), sym: atom_of(cov_name(path)), optional: false } }
pub open spec fn temp_ident(path: Seq<char>) -> Ident { Ident { span: DUMMY_SP, ctxt: no_ctxt(), sym: atom_of(cov_name(path) + "_temp"@), optional: false } }

// --- running the generated statements (assumed: what JavaScript does with them)
/// a variable of the generated code
pub type Var = (Seq<char>, SyntaxContext);
pub open spec fn var(i: Ident) -> Var { (i.sym@, i.ctxt) }
/// a value: an object literal that was evaluated has an identity and its initial contents
pub enum JV { Undef, Text(Seq<char>), Glob(Seq<char>), Cov(Key), Obj(int, J) }
/// the coverage variable of a global object
pub struct Key { pub scope: Seq<char>, pub name: Seq<char> }
pub type Entries = Map<Seq<char>, (int, J)>;
pub struct Js {
  pub vars: Map<Var, JV>,
  /// the global coverage variables: per path, the entry object
  pub glob: Map<Key, Entries>,
  /// identities below are taken
  pub fresh: int,
  /// functions `function () { return v }` given to a variable: what they return
  pub fns: Map<Var, JV>,
  pub ret: Option<JV>,
}
pub open spec fn look(st: Js, x: Var) -> JV { if st.vars.contains_key(x) { st.vars[x] } else { JV::Undef } }
pub open spec fn entries(st: Js, k: Key) -> Entries { if st.glob.contains_key(k) { st.glob[k] } else { Map::empty() } }
/// `new ((function(){}).constructor)("return SCOPE")()`
pub open spec fn scope_call(e: Expr, scope: Seq<char>) -> bool {
  match e { Expr::New(n) => (match *n.callee { Expr::Ident(i) => i.sym@ == "((function(){}).constructor)"@, _ => false }) && (match n.args { Some(a) => a@.len() == 1 && a@[0].spread is None && view_e(*a@[0].expr) == J::L(K::Str("return "@ + scope)), None => false }), _ => false }
}
pub open spec fn is_scope(e: Expr, scope: Seq<char>) -> bool { exists|x: Expr| view_e(e) == J::N(K::Call, seq![J::L(K::Other(x))]) && #[trigger] scope_call(x, scope) }
pub broadcast proof fn lem_new(n: NewExpr) ensures #[trigger] view_e(Expr::New(n)) == J::L(K::Other(Expr::New(n))) { reveal(view_e); }
pub broadcast proof fn lem_call0(c: CallExpr) requires c.callee is Expr, c.type_args is None, c.args@.len() == 0 ensures #[trigger] view_e(Expr::Call(c)) == J::N(K::Call, seq![view_e(*(c.callee->Expr_0))]) { reveal(view_e); reveal(view_args); let x = view_e(*(c.callee->Expr_0)); assert(view_args(c.args@, 0) =~= Seq::<J>::empty()); assert(seq![x] + Seq::<J>::empty() =~= seq![x]); }
/// what an expression evaluates to
pub uninterp spec fn ev(e: Expr, st: Js) -> JV;
pub broadcast axiom fn ax_ev_str(e: Expr, st: Js) ensures view_e(e) is L && view_e(e)->L_0 is Str ==> #[trigger] ev(e, st) == JV::Text(view_e(e)->L_0->Str_0);
pub broadcast axiom fn ax_ev_obj(e: Expr, st: Js) ensures view_e(e) is N && view_e(e)->N_0 is Obj ==> #[trigger] ev(e, st) == JV::Obj(st.fresh, view_e(e));
pub broadcast axiom fn ax_ev_scope(e: Expr, scope: Seq<char>, st: Js) requires #[trigger] is_scope(e, scope) ensures #[trigger] ev(e, st) == JV::Glob(scope);
pub uninterp spec fn exec(s: Stmt, st: Js) -> Js;
pub open spec fn run(s: Seq<Stmt>, st: Js) -> Js decreases s.len() { if s.len() == 0 { st } else { exec(s.last(), run(s.drop_last(), st)) } }
pub broadcast proof fn lem_run_push(s: Seq<Stmt>, x: Stmt, st: Js) ensures #[trigger] run(s.push(x), st) == exec(x, run(s, st)) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lem_run_none(s: Seq<Stmt>, st: Js) requires s.len() == 0 ensures #[trigger] run(s, st) == st {}
pub proof fn lem_var_names()
  ensures "path"@.len() == 4, "hash"@.len() == 4, "path"@ != "hash"@, "global"@.len() == 6, "gcv"@.len() == 3, "coverageData"@.len() == 12, "coverage"@.len() == 8, "actualCoverage"@.len() == 14, "cov_"@.len() == 4,
    !"cov_"@.is_prefix_of("path"@), !"cov_"@.is_prefix_of("hash"@), !"cov_"@.is_prefix_of("global"@), !"cov_"@.is_prefix_of("gcv"@), !"cov_"@.is_prefix_of("coverageData"@), !"cov_"@.is_prefix_of("coverage"@), !"cov_"@.is_prefix_of("actualCoverage"@),
{
  reveal_strlit("path"); reveal_strlit("hash"); reveal_strlit("global"); reveal_strlit("gcv"); reveal_strlit("coverageData"); reveal_strlit("coverage"); reveal_strlit("actualCoverage"); reveal_strlit("cov_");
  assert("path"@[0] != "hash"@[0]);
  assert("path"@[0] != "cov_"@[0] && "hash"@[0] != "cov_"@[0] && "global"@[0] != "cov_"@[0] && "gcv"@[0] != "cov_"@[0] && "coverageData"@[3] != "cov_"@[3] && "coverage"@[3] != "cov_"@[3] && "actualCoverage"@[0] != "cov_"@[0]);
}
pub broadcast axiom fn ax_var(s: Stmt, n: Ident, e: Expr, st: Js) requires #[trigger] is_var(s, n, e)
  ensures #[trigger] exec(s, st) == (Js { vars: st.vars.insert(var(n), ev(e, st)), fresh: st.fresh + 1, ..st });
pub broadcast axiom fn ax_block(b: BlockStmt, st: Js) ensures #[trigger] exec(Stmt::Block(b), st) == run(b.stmts@, st);
pub broadcast axiom fn ax_return(r: ReturnStmt, st: Js)
  ensures r.arg is Some && *(r.arg->0) is Ident ==> #[trigger] exec(Stmt::Return(r), st) == (Js { ret: Some(look(st, var((*(r.arg->0))->Ident_0))), ..st });
/// `f = function () { return v }`
pub open spec fn gives(e: Expr, f: Ident, v: Ident) -> bool {
  match e { Expr::Assign(a) => a.op == AssignOp::Assign && (match a.left { AssignTarget::Simple(SimpleAssignTarget::Ident(b)) => b.id == f, _ => false }) && (match *a.right { Expr::Fn(g) => g.ident is None && returns(*g.function, v), _ => false }), _ => false }
}
pub open spec fn plain_fn(g: ast::Function) -> bool { g.params@.len() == 0 && g.decorators@.len() == 0 && !g.is_async && !g.is_generator && g.body is Some }
pub open spec fn returns(g: ast::Function, v: Ident) -> bool {
  plain_fn(g) && (g.body->0).stmts@.len() == 1 && match (g.body->0).stmts@[0] { Stmt::Return(r) => match r.arg { Some(x) => *x == Expr::Ident(v), None => false }, _ => false }
}
pub open spec fn given(e: Expr) -> Ident { e->Assign_0.left->Simple_0->Ident_0.id }
pub open spec fn giving(e: Expr) -> Ident { (*(((*(e->Assign_0.right))->Fn_0.function.body->0).stmts@[0]->Return_0.arg->0))->Ident_0 }
pub broadcast axiom fn ax_gives(s: ExprStmt, st: Js)
  ensures gives(*s.expr, given(*s.expr), giving(*s.expr)) ==> #[trigger] exec(Stmt::Expr(s), st) == (Js { fns: st.fns.insert(var(given(*s.expr)), look(st, var(giving(*s.expr)))), ..st });
/// the templates (variables numbered in the order of their first use)
pub uninterp spec fn quoted_stmt(text: Seq<char>, a: Seq<Ident>) -> Stmt;
#[verifier::external_body] pub fn vx_quote_stmt(text: &str, a: Vec<Ident>) -> (r: Stmt) ensures r == quoted_stmt(text@, a@) { unimplemented!() }
pub broadcast axiom fn ax_t_lookup(a: Seq<Ident>, st: Js)
  ensures a.len() == 3 && look(st, var(a[1])) is Glob && look(st, var(a[2])) is Text ==> {
    let k = Key { scope: look(st, var(a[1]))->Glob_0, name: look(st, var(a[2]))->Text_0 };
    #[trigger] exec(quoted_stmt("var $0 = $1[$2] || ($1[$2] = {})"@, a), st) == (Js { vars: st.vars.insert(var(a[0]), JV::Cov(k)), glob: st.glob.insert(k, entries(st, k)), ..st })
  };
pub open spec fn keeps(m: Entries, p: Seq<char>, h: Seq<char>) -> bool { m.contains_key(p) && hash_of(m[p].1) == Some(h) }
pub broadcast axiom fn ax_t_keep(a: Seq<Ident>, st: Js)
  ensures a.len() == 4 && look(st, var(a[0])) is Cov && look(st, var(a[1])) is Text && look(st, var(a[2])) is Text && look(st, var(a[3])) is Obj ==> {
    let (k, p, h, o) = (look(st, var(a[0]))->Cov_0, look(st, var(a[1]))->Text_0, look(st, var(a[2]))->Text_0, look(st, var(a[3])));
    #[trigger] exec(quoted_stmt("if (!$0[$1] || $0[$1].hash !== $2) { $0[$1] = $3; }"@, a), st)
      == (if keeps(entries(st, k), p, h) { st } else { Js { glob: st.glob.insert(k, entries(st, k).insert(p, (o->Obj_0, o->Obj_1))), ..st } })
  };
pub broadcast axiom fn ax_t_entry(a: Seq<Ident>, st: Js)
  ensures a.len() == 3 && look(st, var(a[1])) is Cov && look(st, var(a[2])) is Text ==> {
    let (k, p) = (look(st, var(a[1]))->Cov_0, look(st, var(a[2]))->Text_0);
    #[trigger] exec(quoted_stmt("var $0 = $1[$2]"@, a), st)
      == (Js { vars: st.vars.insert(var(a[0]), if entries(st, k).contains_key(p) { JV::Obj(entries(st, k)[p].0, entries(st, k)[p].1) } else { JV::Undef }), ..st })
  };
pub broadcast group js_run { ax_ev_str, ax_ev_obj, ax_ev_scope, lem_run_push, lem_run_none, ax_var, ax_block, ax_return, ax_gives, ax_t_lookup, ax_t_keep, ax_t_entry, lem_hash_kv }

// --- what calling the function does
pub open spec fn enter(st: Js) -> Js { Js { vars: Map::empty(), ret: None, ..st } }
/// `s1`: after the first call of the coverage function of a file with this path, hash and data, in `s0`
pub open spec fn loaded(s0: Js, s1: Js, k: Key, p: Seq<char>, h: Seq<char>, d: J, f: Ident) -> bool {
  let (m0, m1) = (entries(s0, k), entries(s1, k));
  // every other coverage variable, and every other path's entry, is untouched
  &&& forall|k2: Key| k2 != k ==> entries(s1, k2) == #[trigger] entries(s0, k2)
  &&& forall|p2: Seq<char>| #![trigger m1.contains_key(p2)] #![trigger m0.contains_key(p2)] p2 != p ==> m1.contains_key(p2) == m0.contains_key(p2) && (m0.contains_key(p2) ==> m1[p2] == m0[p2])
  // an entry with the same hash is kept, else there is a new one
  &&& m1.contains_key(p)
  &&& keeps(m0, p, h) ==> m1[p] == m0[p]
  &&& !keeps(m0, p, h) ==> m1[p].1 == d && s0.fresh <= m1[p].0 < s1.fresh
  &&& s1.fresh >= s0.fresh
  // the call, and all later ones, give that entry
  &&& s1.ret == Some(JV::Obj(m1[p].0, m1[p].1))
  &&& s1.fns.contains_key(var(f)) && s1.fns[var(f)] == JV::Obj(m1[p].0, m1[p].1)
  // (the assignment reaches the function's own name: no variable of its body has it)
  &&& "cov_"@.is_prefix_of(f.sym@) ==> !s1.vars.contains_key(var(f))
}
pub open spec fn body_of(s: Stmt) -> Seq<Stmt> { s->Decl_0->Fn_0.function.body->0.stmts@ }
pub open spec fn cov_fn(s: Stmt, k: Key, p: Seq<char>, h: Seq<char>, d: J, f: Ident) -> bool {
  &&& s is Decl && s->Decl_0 is Fn && s->Decl_0->Fn_0.ident == f && !s->Decl_0->Fn_0.declare && plain_fn(*s->Decl_0->Fn_0.function)
  &&& forall|s0: Js| loaded(s0, #[trigger] run(body_of(s), enter(s0)), k, p, h, d, f)
}
/// the first time a path is loaded, its entry starts as this data
pub open spec fn cov_data(s: Stmt, k: Key, p: Seq<char>, d: J) -> bool {
  &&& s is Decl && s->Decl_0 is Fn && plain_fn(*s->Decl_0->Fn_0.function)
  &&& forall|s0: Js| !entries(s0, k).contains_key(p) ==> { let m = entries(#[trigger] run(body_of(s), enter(s0)), k); m.contains_key(p) && m[p].1 == d }
}
pub open spec fn sets_global(s: Stmt, scope: Seq<char>) -> bool { exists|n: Ident, e: Expr| #[trigger] is_var(s, n, e) && var(n) == ("global"@, no_ctxt()) && is_scope(e, scope) }

// --- histories: files are loaded one after another
pub struct Load { pub p: Seq<char>, pub h: Seq<char>, pub d: J, pub f: Ident }
pub open spec fn history(ls: Seq<Load>, st: Seq<Js>, k: Key) -> bool { st.len() == ls.len() + 1 && forall|i: int| 0 <= i < ls.len() ==> loaded(#[trigger] st[i], st[i + 1], k, ls[i].p, ls[i].h, ls[i].d, ls[i].f) }
/// one file per path: the same path always comes with the same contents
pub open spec fn same_files(ls: Seq<Load>) -> bool { forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls.len() && (#[trigger] ls[i]).p == (#[trigger] ls[j]).p ==> ls[i].h == ls[j].h }
pub open spec fn data_ok(ls: Seq<Load>) -> bool { forall|i: int| 0 <= i < ls.len() ==> hash_of((#[trigger] ls[i]).d) == Some(ls[i].h) }
/// from the first load of a file on, its entry stays the same object, whatever else is loaded
pub proof fn thm_entry_stays(ls: Seq<Load>, st: Seq<Js>, k: Key, i: int, j: int)
  requires history(ls, st, k), same_files(ls), data_ok(ls), 0 <= i < j <= ls.len(),
  ensures entries(st[j], k).contains_key(ls[i].p), entries(st[j], k)[ls[i].p] == entries(st[i + 1], k)[ls[i].p], hash_of(entries(st[j], k)[ls[i].p].1) == Some(ls[i].h)
  decreases j - i
{
  assert(data_ok(ls) && hash_of(ls[i].d) == Some(ls[i].h));
  assert(loaded(st[i], st[i + 1], k, ls[i].p, ls[i].h, ls[i].d, ls[i].f));
  if j > i + 1 {
    thm_entry_stays(ls, st, k, i, j - 1);
    assert(loaded(st[j - 1], st[j - 1 + 1], k, ls[j - 1].p, ls[j - 1].h, ls[j - 1].d, ls[j - 1].f));
    assert(ls[i].p == ls[j - 1].p ==> ls[i].h == ls[j - 1].h);
    if ls[i].p != ls[j - 1].p { assert(entries(st[j - 1], k).contains_key(ls[i].p)); assert(entries(st[j], k).contains_key(ls[i].p)); }
  }
}
/// two files' counters go to two objects
pub open spec fn taken(st: Js, k: Key) -> bool {
  &&& forall|p: Seq<char>| entries(st, k).contains_key(p) ==> (#[trigger] entries(st, k)[p]).0 < st.fresh
  &&& forall|p: Seq<char>, q: Seq<char>| entries(st, k).contains_key(p) && entries(st, k).contains_key(q) && p != q ==> (#[trigger] entries(st, k)[p]).0 != (#[trigger] entries(st, k)[q]).0
}
pub proof fn thm_entries_apart(s0: Js, s1: Js, k: Key, l: Load)
  requires taken(s0, k), loaded(s0, s1, k, l.p, l.h, l.d, l.f), ensures taken(s1, k)
{
  let (m0, m1) = (entries(s0, k), entries(s1, k));
  assert forall|p: Seq<char>| m1.contains_key(p) implies (#[trigger] m1[p]).0 < s1.fresh by { if p != l.p { assert(m0.contains_key(p)); assert(m0[p].0 < s0.fresh); } else if keeps(m0, p, l.h) { assert(m0[p].0 < s0.fresh); } }
  assert forall|p: Seq<char>, q: Seq<char>| m1.contains_key(p) && m1.contains_key(q) && p != q implies (#[trigger] m1[p]).0 != (#[trigger] m1[q]).0 by {
    if p != l.p { assert(m0.contains_key(p)); assert(m0[p].0 < s0.fresh); }
    if q != l.p { assert(m0.contains_key(q)); assert(m0[q].0 < s0.fresh); }
    if p == l.p && keeps(m0, p, l.h) { assert(m0[p].0 != m0[q].0); }
    if q == l.p && keeps(m0, q, l.h) { assert(m0[p].0 != m0[q].0); }
  }
}
/// the functions of two files have two names unless the hashes of their paths are the same
pub proof fn thm_names_apart(p: Seq<char>, q: Seq<char>)
  requires cov_name(p) == cov_name(q) ensures path_hash(p) == path_hash(q)
{
  assert(path_hash(p) =~= cov_name(p).subrange(4, cov_name(p).len() as int)) by { reveal_strlit("cov_"); }
  assert(path_hash(q) =~= cov_name(q).subrange(4, cov_name(q).len() as int)) by { reveal_strlit("cov_"); }
}
