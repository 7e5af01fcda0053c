// -------------------------------------------------- instrumented code does what the code does (C18)
/// `n` without what counts with `f`: what is left of a node when the counters are taken out, the pieces that stand around them
/// included. Known by its rules only; two nodes with the same `bare` do the same apart from counting.
pub uninterp spec fn bare<N>(n: N, f: Ident) -> N;
/// a list of statements: the counters are left out
pub open spec fn bare_list(s: Seq<Stmt>, f: Ident) -> Seq<Stmt> decreases s.len() {
  if s.len() == 0 { s } else { let a = bare_list(s.drop_last(), f); if injected_s(f, s.last()) { a } else { a.push(bare(s.last(), f)) } }
}
pub open spec fn bare_items(s: Seq<ModuleItem>, f: Ident) -> Seq<ModuleItem> decreases s.len() {
  if s.len() == 0 { s } else { let a = bare_items(s.drop_last(), f); if injected_i(f, s.last()) { a } else { a.push(bare(s.last(), f)) } }
}
pub open spec fn injected_i(f: Ident, i: ModuleItem) -> bool { match i { ModuleItem::Stmt(s) => injected_s(f, s), _ => false } }
/// nothing but counters
pub open spec fn counters(s: Seq<Stmt>, f: Ident) -> bool { forall|i: int| 0 <= i < s.len() ==> injected_s(f, #[trigger] s[i]) }
/// what came to the statements to be put in front is counters
pub open spec fn came(b: Seq<Stmt>, a: Seq<Stmt>, f: Ident) -> bool { b.len() >= a.len() && (forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i]) && forall|i: int| a.len() <= i < b.len() ==> injected_s(f, #[trigger] b[i]) }
/// where one statement is expected: a block does what its statements do
pub open spec fn bare_body(s: Stmt, f: Ident) -> Seq<Stmt> { match s { Stmt::Block(b) => bare_list(b.stmts@, f), _ => bare_list(seq![s], f) } }
pub open spec fn bare_alt(s: Option<Box<Stmt>>, f: Ident) -> Seq<Stmt> { match s { Some(s) => bare_body(*s, f), None => Seq::empty() } }
pub open spec fn bare_fn(b: Option<BlockStmt>, f: Ident) -> Option<Seq<Stmt>> { match b { Some(b) => Some(bare_list(b.stmts@, f)), None => None } }
/// `=> e` is `=> { return e; }`
pub open spec fn bare_arrow(b: BlockStmtOrExpr, f: Ident) -> Seq<Stmt> {
  match b { BlockStmtOrExpr::BlockStmt(b) => bare_list(b.stmts@, f), BlockStmtOrExpr::Expr(e) => bare_list(seq![Stmt::Return(ReturnStmt { span: span_of(*e), arg: Some(e) })], f) }
}
pub open spec fn bare_value(v: Option<Box<Expr>>, f: Ident) -> Option<Expr> { match v { Some(e) => Some(bare(*e, f)), None => None } }
// --- rules: a counter evaluated before an expression; the value of an operand, handed through and counted if it is truthy (unit counters: C13)
pub broadcast axiom fn ax_like_wrapped(k: Expr, e: Expr, f: Ident) ensures injected(f, k) ==> #[trigger] bare(wrapped(k, e), f) == bare(e, f);
pub broadcast axiom fn ax_like_truthy(kind: Seq<char>, id: u32, k: Option<u32>, t: Ident, i: u32, j: u32, e: Expr, f: Ident)
  ensures bare(Expr::Seq(SeqExpr { span: DUMMY_SP, exprs: mkvec(seq![Box::new(#[trigger] z_ctr(f, kind, id, k)), Box::new(#[trigger] tctr(f, t, i, j, e))]) }), f) == bare(e, f);
// --- rules: a node does what its parts do
pub broadcast axiom fn cg_function(n: Function, m: Function, f: Ident) requires n == (Function { body: n.body, ..m }), bare_fn(n.body, f) == bare_fn(m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_fn_decl(n: FnDecl, m: FnDecl, f: Ident) requires n == (FnDecl { function: n.function, ..m }), bare(*n.function, f) == bare(*m.function, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_fn_expr(n: FnExpr, m: FnExpr, f: Ident) requires n == (FnExpr { function: n.function, ..m }), bare(*n.function, f) == bare(*m.function, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_class_method(n: ClassMethod, m: ClassMethod, f: Ident) requires n == (ClassMethod { function: n.function, ..m }), bare(*n.function, f) == bare(*m.function, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_private_method(n: PrivateMethod, m: PrivateMethod, f: Ident) requires n == (PrivateMethod { function: n.function, ..m }), bare(*n.function, f) == bare(*m.function, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_method_prop(n: MethodProp, m: MethodProp, f: Ident) requires n == (MethodProp { function: n.function, ..m }), bare(*n.function, f) == bare(*m.function, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_constructor(n: Constructor, m: Constructor, f: Ident) requires n == (Constructor { body: n.body, ..m }), bare_fn(n.body, f) == bare_fn(m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_getter(n: GetterProp, m: GetterProp, f: Ident) requires n == (GetterProp { body: n.body, ..m }), bare_fn(n.body, f) == bare_fn(m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_setter(n: SetterProp, m: SetterProp, f: Ident) requires n == (SetterProp { body: n.body, ..m }), bare_fn(n.body, f) == bare_fn(m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_arrow(n: ArrowExpr, m: ArrowExpr, f: Ident) requires n == (ArrowExpr { params: n.params, body: n.body, ..m }), bare(n.params, f) == bare(m.params, f), bare_arrow(*n.body, f) == bare_arrow(*m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_cond(n: CondExpr, m: CondExpr, f: Ident) requires n == (CondExpr { cons: n.cons, alt: n.alt, ..m }), bare(*n.cons, f) == bare(*m.cons, f), bare(*n.alt, f) == bare(*m.alt, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_if(n: IfStmt, m: IfStmt, f: Ident) requires n == (IfStmt { test: n.test, cons: n.cons, alt: n.alt, ..m }), bare(n.test, f) == bare(m.test, f), bare_body(*n.cons, f) == bare_body(*m.cons, f), bare_alt(n.alt, f) == bare_alt(m.alt, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_case(n: SwitchCase, m: SwitchCase, f: Ident) requires n == (SwitchCase { cons: n.cons, ..m }), bare_list(n.cons@, f) == bare_list(m.cons@, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_bin(n: BinExpr, m: BinExpr, f: Ident) requires n == (BinExpr { left: n.left, right: n.right, ..m }), bare(*n.left, f) == bare(*m.left, f), bare(*n.right, f) == bare(*m.right, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_assign_pat(n: AssignPat, m: AssignPat, f: Ident) requires n == (AssignPat { left: n.left, right: n.right, ..m }), bare(n.left, f) == bare(m.left, f), bare(*n.right, f) == bare(*m.right, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_assign_pat_prop(n: AssignPatProp, m: AssignPatProp, f: Ident) requires n == (AssignPatProp { value: n.value, ..m }), bare_value(n.value, f) == bare_value(m.value, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_declarator(n: VarDeclarator, m: VarDeclarator, f: Ident) requires n == (VarDeclarator { init: n.init, ..m }), bare_value(n.init, f) == bare_value(m.init, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_class_prop(n: ClassProp, m: ClassProp, f: Ident) requires n == (ClassProp { value: n.value, ..m }), bare_value(n.value, f) == bare_value(m.value, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_private_prop(n: PrivateProp, m: PrivateProp, f: Ident) requires n == (PrivateProp { value: n.value, ..m }), bare_value(n.value, f) == bare_value(m.value, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_with(n: WithStmt, m: WithStmt, f: Ident) requires n == (WithStmt { body: n.body, ..m }), bare_body(*n.body, f) == bare_body(*m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_for(n: ForStmt, m: ForStmt, f: Ident) requires n == (ForStmt { body: n.body, ..m }), bare_body(*n.body, f) == bare_body(*m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_for_in(n: ForInStmt, m: ForInStmt, f: Ident) requires n == (ForInStmt { body: n.body, ..m }), bare_body(*n.body, f) == bare_body(*m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_for_of(n: ForOfStmt, m: ForOfStmt, f: Ident) requires n == (ForOfStmt { body: n.body, ..m }), bare_body(*n.body, f) == bare_body(*m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_while(n: WhileStmt, m: WhileStmt, f: Ident) requires n == (WhileStmt { body: n.body, ..m }), bare_body(*n.body, f) == bare_body(*m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
pub broadcast axiom fn cg_do_while(n: DoWhileStmt, m: DoWhileStmt, f: Ident) requires n == (DoWhileStmt { body: n.body, ..m }), bare_body(*n.body, f) == bare_body(*m.body, f) ensures #[trigger] bare(n, f) == #[trigger] bare(m, f);
// --- the step of the induction over the tree that is swc's traversal: what is inside of a node does what it did, and only counters are to be put in front
pub broadcast axiom fn ax_kids_bare<N>(n: N, x: Ctx, c: Rec) ensures bare((#[trigger] z_kids(n, x, c)).n, x.f) == bare(n, x.f), counters(z_kids(n, x, c).q, x.f);
pub broadcast axiom fn ax_visit_bare<N>(n: N, x: Ctx, c: Rec) ensures bare((#[trigger] z_visit(n, x, c)).n, x.f) == bare(n, x.f), counters(z_visit(n, x, c).q, x.f);
/// the traversal keeps the kind of a statement: it makes no counter of one
pub broadcast axiom fn ax_kids_kind(s: Stmt, x: Ctx, c: Rec) ensures injected_s(x.f, (#[trigger] z_kids(s, x, c)).n) == injected_s(x.f, s);
pub broadcast axiom fn ax_visit_kind(s: Stmt, x: Ctx, c: Rec) ensures injected_s(x.f, (#[trigger] z_visit(s, x, c)).n) == injected_s(x.f, s);
pub broadcast axiom fn ax_visit_kind_box(s: Box<Stmt>, x: Ctx, c: Rec) ensures injected_s(x.f, *(#[trigger] z_visit(s, x, c)).n) == injected_s(x.f, *s), (*z_visit(s, x, c).n) is Block == (*s) is Block, bare(*z_visit(s, x, c).n, x.f) == bare(*s, x.f);
pub broadcast axiom fn ax_visit_box(e: Box<Expr>, x: Ctx, c: Rec) ensures bare(*(#[trigger] z_visit(e, x, c)).n, x.f) == bare(*e, x.f);
pub broadcast axiom fn ax_kids_kind_item(s: ModuleItem, x: Ctx, c: Rec) ensures injected_i(x.f, (#[trigger] z_kids(s, x, c)).n) == injected_i(x.f, s);
pub broadcast group congruence { ax_like_wrapped, ax_like_truthy, cg_function, cg_fn_decl, cg_fn_expr, cg_class_method, cg_private_method, cg_method_prop, cg_constructor, cg_getter, cg_setter, cg_arrow, cg_cond, cg_if, cg_case, cg_bin, cg_assign_pat, cg_assign_pat_prop, cg_declarator, cg_class_prop, cg_private_prop, cg_with, cg_for, cg_for_in, cg_for_of, cg_while, cg_do_while }
pub broadcast group induction { ax_kids_bare, ax_visit_bare, ax_kids_kind, ax_visit_kind, ax_visit_kind_box, ax_visit_box, ax_kids_kind_item }
// --- lists
pub broadcast proof fn lem_bare_push(s: Seq<Stmt>, y: Stmt, f: Ident) ensures #[trigger] bare_list(s.push(y), f) == if injected_s(f, y) { bare_list(s, f) } else { bare_list(s, f).push(bare(y, f)) } { assert(s.push(y).drop_last() =~= s); }
pub broadcast proof fn lem_bare_add(s: Seq<Stmt>, t: Seq<Stmt>, f: Ident) ensures #[trigger] bare_list(s + t, f) == bare_list(s, f) + bare_list(t, f) decreases t.len()
{
  if t.len() == 0 { assert(s + t =~= s); assert(bare_list(s, f) + bare_list(t, f) =~= bare_list(s, f)); } else {
    lem_bare_add(s, t.drop_last(), f); assert(s + t =~= (s + t.drop_last()).push(t.last())); lem_bare_push(s + t.drop_last(), t.last(), f);
    assert(bare_list(s, f) + bare_list(t, f) =~= if injected_s(f, t.last()) { bare_list(s, f) + bare_list(t.drop_last(), f) } else { (bare_list(s, f) + bare_list(t.drop_last(), f)).push(bare(t.last(), f)) });
  }
}
pub broadcast proof fn lem_bare_none(s: Seq<Stmt>, f: Ident) requires #[trigger] counters(s, f) ensures bare_list(s, f) == Seq::<Stmt>::empty() decreases s.len()
{ if s.len() > 0 { assert(counters(s.drop_last(), f)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies injected_s(f, #[trigger] s.drop_last()[i]) by { assert(injected_s(f, s[i])); } } lem_bare_none(s.drop_last(), f); assert(injected_s(f, s[s.len() - 1])); } else { assert(s =~= Seq::empty()); } }
pub broadcast proof fn lem_bare_insert(s: Seq<Stmt>, i: int, y: Stmt, f: Ident) requires 0 <= i <= s.len(), injected_s(f, y) ensures #[trigger] bare_list(s.insert(i, y), f) == bare_list(s, f)
{
  let (a, b) = (s.take(i), s.skip(i));
  assert(s =~= a + b); assert(s.insert(i, y) =~= a.push(y) + b);
  lem_bare_add(a, b, f); lem_bare_add(a.push(y), b, f); lem_bare_push(a, y, f);
}
pub broadcast proof fn lem_bare_one(y: Stmt, f: Ident) ensures #[trigger] bare_list(seq![y], f) == if injected_s(f, y) { Seq::<Stmt>::empty() } else { seq![bare(y, f)] }
{ assert(seq![y] =~= Seq::<Stmt>::empty().push(y)); lem_bare_push(Seq::empty(), y, f); assert(seq![bare(y, f)] =~= Seq::<Stmt>::empty().push(bare(y, f))); }
pub broadcast proof fn lem_marked(x: Ctx, sp: Span, c: Rec) ensures counters(#[trigger] z_marked(x, sp, c), x.f) { broadcast use ax_ctr_form; }
pub broadcast proof fn lem_counters_add(a: Seq<Stmt>, b: Seq<Stmt>, f: Ident) requires counters(a, f), counters(b, f) ensures #[trigger] counters(a + b, f)
{ assert forall|i: int| 0 <= i < (a + b).len() implies injected_s(f, #[trigger] (a + b)[i]) by { if i < a.len() { assert(injected_s(f, a[i])); } else { assert(injected_s(f, b[i - a.len()])); } } }
pub broadcast group lists { lem_bare_push, lem_bare_add, lem_bare_none, lem_bare_insert, lem_bare_one, lem_marked, lem_counters_add, ax_ctr_form, vecs }
pub broadcast proof fn thm_like_stmts(s: Seq<Stmt>, x: Ctx, c: Rec) ensures bare_list((#[trigger] z_stmts(s, x, c)).n, x.f) == bare_list(s, x.f) decreases s.len()
{
  broadcast use induction, lists;
  if s.len() > 0 {
    let a = z_stmts(s.drop_last(), x, c);
    thm_like_stmts(s.drop_last(), x, c);
    let y = sub(x, Node::Stmt, span_of(s.last()));
    let o = z_kids(s.last(), stmts_x(y), a.c);
    let b = one(s.last(), x, a.c);
    assert(s.drop_last().push(s.last()) =~= s);
    lem_bare_add(a.n, b.n, x.f);
    if injected_s(x.f, s.last()) || off(y) { assert(b.n =~= seq![s.last()]); assert(a.n + b.n =~= a.n.push(s.last())); } else { assert(a.n + b.n =~= (a.n + o.q).push(o.n)); assert(bare_list(a.n + o.q, x.f) =~= bare_list(a.n, x.f)); }
  }
}
pub open spec fn like<N>(o: Out<N>, n: N, f: Ident) -> bool { bare(o.n, f) == bare(n, f) && counters(o.q, f) }
pub broadcast proof fn lem_like_body(b: BlockStmt, k: Expr, f: Ident) requires injected(f, k) ensures #[trigger] bare_list(fn_body(b, k).stmts@, f) == bare_list(b.stmts@, f)
{ broadcast use vecs; lem_prologue_end(b.stmts@); lem_bare_insert(b.stmts@, prologue(b.stmts@) as int, stmt_of(k), f); }
pub proof fn lem_like_function(n: Function, name: Option<Seq<char>>, decl: Span, x: Ctx, c: Rec) ensures bare(z_function(n, name, decl, x, c).0, x.f) == bare(n, x.f)
{ broadcast use congruence, ax_ctr_form; match n.body { None => {}, Some(b) => { lem_like_body(b, fctr(x, c), x.f); cg_function(z_function(n, name, decl, x, c).0, n, x.f); } } }
pub proof fn lem_like_body_of(b: Option<BlockStmt>, name: Seq<char>, decl: Span, x: Ctx, c: Rec) ensures bare_fn(body_of(b, name, decl, x, c).0, x.f) == bare_fn(b, x.f)
{ broadcast use ax_ctr_form; match b { None => {}, Some(b) => { lem_like_body(b, fctr(x, c), x.f); } } }
pub broadcast proof fn thm_like_instr(n: Function, i: Option<&Ident>, x: Ctx, c: Rec) ensures like(#[trigger] z_instr(n, i, x, c), n, x.f)
{ match i { Some(i) => { lem_like_function(n, Some(i.sym@), i.span, x, c); }, None => { lem_like_function(n, None, n.span, x, c); } } }
pub broadcast proof fn thm_like_fn_decl(n: FnDecl, x: Ctx, c: Rec) ensures like(#[trigger] do_fn_decl(n, x, c), n, x.f)
{ broadcast use congruence, induction; lem_like_function(*n.function, Some(n.ident.sym@), n.ident.span, x, c);
  cg_fn_decl(FnDecl { function: Box::new(z_function(*n.function, Some(n.ident.sym@), n.ident.span, x, c).0), ..n }, n, x.f); }
pub broadcast proof fn thm_like_fn_expr(n: FnExpr, x: Ctx, c: Rec) ensures like(#[trigger] do_fn_expr(n, x, c), n, x.f)
{ broadcast use congruence, induction;
  let (g, d) = match n.ident { Some(i) => z_function(*n.function, Some(i.sym@), i.span, x, c), None => z_function(*n.function, None, n.function.span, x, c) };
  match n.ident { Some(i) => { lem_like_function(*n.function, Some(i.sym@), i.span, x, c); }, None => { lem_like_function(*n.function, None, n.function.span, x, c); } }
  cg_fn_expr(FnExpr { function: Box::new(g), ..n }, n, x.f); }
pub broadcast proof fn thm_like_class_method(n: ClassMethod, x: Ctx, c: Rec) ensures like(#[trigger] do_class_method(n, x, c), n, x.f)
{ broadcast use congruence, induction;
  let (g, d) = match n.key { PropName::Ident(i) => z_function(*n.function, Some(i.sym@), i.span, x, c), _ => z_function(*n.function, None::<Seq<char>>, n.function.span, x, c) };
  match n.key { PropName::Ident(i) => { lem_like_function(*n.function, Some(i.sym@), i.span, x, c); }, _ => { lem_like_function(*n.function, None, n.function.span, x, c); } }
  cg_class_method(ClassMethod { function: Box::new(g), ..n }, n, x.f); }
pub broadcast proof fn thm_like_private_method(n: PrivateMethod, x: Ctx, c: Rec) ensures like(#[trigger] do_private_method(n, x, c), n, x.f)
{ broadcast use congruence, induction;
  lem_like_function(*n.function, Some("#"@ + n.key.name@), n.key.span, x, c);
  cg_private_method(PrivateMethod { function: Box::new(z_function(*n.function, Some("#"@ + n.key.name@), n.key.span, x, c).0), ..n }, n, x.f); }
pub broadcast proof fn thm_like_method_prop(n: MethodProp, x: Ctx, c: Rec) ensures like(#[trigger] do_method_prop(n, x, c), n, x.f)
{ broadcast use congruence, induction;
  let (g, d) = match n.key { PropName::Ident(i) => z_function(*n.function, Some(i.sym@), i.span, x, c), _ => z_function(*n.function, Some("anonymous"@), DUMMY_SP, x, c) };
  match n.key { PropName::Ident(i) => { lem_like_function(*n.function, Some(i.sym@), i.span, x, c); }, _ => { lem_like_function(*n.function, Some("anonymous"@), DUMMY_SP, x, c); } }
  cg_method_prop(MethodProp { function: Box::new(g), ..n }, n, x.f); }
pub broadcast proof fn thm_like_constructor(n: Constructor, x: Ctx, c: Rec) ensures like(#[trigger] do_constructor(n, x, c), n, x.f)
{ broadcast use congruence, induction; lem_like_body_of(n.body, "constructor"@, span_of(n.key), x, c);
  cg_constructor(Constructor { body: body_of(n.body, "constructor"@, span_of(n.key), x, c).0, ..n }, n, x.f); }
pub broadcast proof fn thm_like_getter(n: GetterProp, x: Ctx, c: Rec) ensures like(#[trigger] do_getter(n, x, c), n, x.f)
{ broadcast use congruence, induction;
  let (b, d) = match n.key { PropName::Ident(i) => body_of(n.body, i.sym@, i.span, x, c), _ => body_of(n.body, "anonymous"@, n.span, x, c) };
  match n.key { PropName::Ident(i) => { lem_like_body_of(n.body, i.sym@, i.span, x, c); }, _ => { lem_like_body_of(n.body, "anonymous"@, n.span, x, c); } }
  cg_getter(GetterProp { body: b, ..n }, n, x.f); }
pub broadcast proof fn thm_like_setter(n: SetterProp, x: Ctx, c: Rec) ensures like(#[trigger] do_setter(n, x, c), n, x.f)
{ broadcast use congruence, induction;
  let (b, d) = match n.key { PropName::Ident(i) => body_of(n.body, i.sym@, i.span, x, c), _ => body_of(n.body, "anonymous"@, n.span, x, c) };
  match n.key { PropName::Ident(i) => { lem_like_body_of(n.body, i.sym@, i.span, x, c); }, _ => { lem_like_body_of(n.body, "anonymous"@, n.span, x, c); } }
  cg_setter(SetterProp { body: b, ..n }, n, x.f); }
pub broadcast proof fn thm_like_arrow(n: ArrowExpr, x: Ctx, c: Rec) ensures like(#[trigger] do_arrow(n, x, c), n, x.f)
{ broadcast use induction, vecs, ax_ctr_form;
  let o = do_arrow(n, x, c);
  if !off(x) { match *n.body {
    BlockStmtOrExpr::BlockStmt(b) => {
      let p = z_visit(n.params, x, rf(x, None, n.span, b.span, c));
      let s = z_stmts(b.stmts@, x, p.c);
      thm_like_stmts(b.stmts@, x, p.c);
      lem_like_body(BlockStmt { stmts: mkvec(s.n), ..b }, fctr(x, c), x.f);
      cg_arrow(o.n, n, x.f);
    },
    BlockStmtOrExpr::Expr(e) => {
      let r = Stmt::Return(ReturnStmt { span: span_of(*e), arg: Some(e) });
      let p = z_visit(n.params, x, rf(x, None, n.span, span_of(*e), c));
      let k = seq![stmt_of(fctr(x, c))].push(r);
      thm_like_stmts(k, x, p.c);
      lem_bare_push(seq![stmt_of(fctr(x, c))], r, x.f); lem_bare_one(stmt_of(fctr(x, c)), x.f); lem_bare_one(r, x.f);
      assert(Seq::<Stmt>::empty().push(bare(r, x.f)) =~= seq![bare(r, x.f)]);
      cg_arrow(o.n, n, x.f);
    } } } }
pub broadcast proof fn lem_like_arm(e: Expr, b: int, x: Ctx, c: Rec) ensures like(#[trigger] z_arm(e, b, x, c), e, x.f) { broadcast use ax_like_wrapped, ax_ctr_form; }
pub broadcast proof fn lem_like_counted(e: Expr, x: Ctx, c: Rec) ensures like(#[trigger] expr_counted(e, x, c), e, x.f) { broadcast use ax_like_wrapped, ax_ctr_form; }
pub broadcast proof fn thm_like_cond(n: CondExpr, x: Ctx, c: Rec) ensures like(#[trigger] do_cond(n, x, c), n, x.f)
{ broadcast use induction;
  let b = c.b.len() as int;
  let o1 = hinted_arm(*n.cons, b, x, rb(x, BranchType::CondExpr, n.span, c)); let o2 = hinted_arm(*n.alt, b, x, o1.c);
  lem_like_arm(*n.cons, b, x, rb(x, BranchType::CondExpr, n.span, c)); lem_like_arm(*n.alt, b, x, o1.c);
  cg_cond(CondExpr { cons: Box::new(o1.n), alt: Box::new(o2.n), ..n }, n, x.f); }
pub proof fn lem_like_path(s: Stmt, b: int, sp: Span, x: Ctx, c: Rec) ensures bare_body(z_path(s, b, sp, x, c).n, x.f) == bare_body(s, x.f), z_path(s, b, sp, x, c).q.len() == 0
{ broadcast use induction, ax_ctr_form, vecs;
  let k = seq![stmt_of(bctr(x, b, c))]; let d = rec_path(c, b, rng(x, sp));
  lem_bare_one(stmt_of(bctr(x, b, c)), x.f);
  match s {
    Stmt::Block(l) => { let o = z_stmts(l.stmts@, x, d); thm_like_stmts(l.stmts@, x, d); lem_bare_add(k, o.n, x.f); assert(Seq::<Stmt>::empty() + bare_list(o.n, x.f) =~= bare_list(o.n, x.f)); },
    _ => { let o = z_visit(s, stmts_x(x), d); lem_bare_push(k + o.q, o.n, x.f); lem_bare_add(k, o.q, x.f); lem_bare_none(o.q, x.f); lem_bare_one(s, x.f);
      assert(Seq::<Stmt>::empty() + Seq::<Stmt>::empty() =~= Seq::<Stmt>::empty()); assert(Seq::<Stmt>::empty().push(bare(s, x.f)) =~= seq![bare(s, x.f)]); },
  } }
pub broadcast proof fn thm_like_if(n: IfStmt, x: Ctx, c: Rec) ensures like(#[trigger] do_if(n, x, c), n, x.f)
{ broadcast use induction, vecs;
  let b = c.b.len() as int;
  let d = rb(x, BranchType::If, n.span, rs(x, n.span, c));
  let o1 = if x.ign == Some(IgnoreScope::If) { keep(*n.cons, d) } else { z_path(*n.cons, b, n.span, x, d) };
  let a = match n.alt { Some(a) => *a, None => Stmt::Block(blank_block()) };
  lem_like_path(*n.cons, b, n.span, x, d); lem_like_path(a, b, n.span, x, o1.c);
  assert(bare_alt(n.alt, x.f) == bare_body(a, x.f));
  lem_marked(x, n.span, c);
  let o2 = z_path(a, b, n.span, x, o1.c);
  let (alt, e) = if x.ign == Some(IgnoreScope::Else) { (n.alt, o1.c) } else { (Some(Box::new(o2.n)), o2.c) };
  let o3 = z_visit(n.test, x, e);
  lem_counters_add(z_marked(x, n.span, c), o3.q, x.f);
  if !off(x) { cg_if(IfStmt { test: o3.n, cons: Box::new(o1.n), alt, ..n }, n, x.f); } }
pub broadcast proof fn thm_like_then<N>(q: Seq<Stmt>, o: Out<N>, f: Ident) requires counters(q, f), counters(o.q, f) ensures #[trigger] counters(then(q, o).q, f) { lem_counters_add(q, o.q, f); }
pub broadcast proof fn thm_like_switch(n: SwitchStmt, x: Ctx, c: Rec) ensures like(#[trigger] do_switch(n, x, c), n, x.f)
{ broadcast use induction; lem_marked(x, n.span, c); if !off(x) { lem_counters_add(z_marked(x, n.span, c), z_kids(n, Ctx { kind: Kind::Switch(c.b.len() as u32), ..x }, rb(x, BranchType::Switch, n.span, rs(x, n.span, c))).q, x.f); assert((Ctx { kind: Kind::Switch(c.b.len() as u32), ..x }).f == x.f); } }
pub broadcast proof fn thm_like_case(n: SwitchCase, b: int, x: Ctx, c: Rec) ensures like(#[trigger] do_case(n, b, x, c), n, x.f)
{ broadcast use induction, vecs, ax_ctr_form;
  if !off(x) {
    let o = z_kids(n, x, rec_path(c, b, rng(x, n.span)));
    lem_bare_add(seq![stmt_of(bctr(x, b, c))], o.n.cons@, x.f); lem_bare_one(stmt_of(bctr(x, b, c)), x.f);
    assert(Seq::<Stmt>::empty() + bare_list(o.n.cons@, x.f) =~= bare_list(o.n.cons@, x.f));
    cg_case(SwitchCase { cons: mkvec(seq![stmt_of(bctr(x, b, c))] + o.n.cons@), ..o.n }, o.n, x.f);
  } }
pub broadcast proof fn thm_like_operand(e: Expr, b: int, x: Ctx, c: Rec) ensures like(#[trigger] z_operand(e, b, x, c), e, x.f)
{ broadcast use induction, ax_ctr_form, ax_like_truthy; let o = z_kids(e, x, c); lem_like_arm(o.n, b, x, o.c); lem_counters_add(o.q, Seq::empty(), x.f); }
pub proof fn lem_like_operands(n: BinExpr, b: int, x: Ctx, c: Rec) ensures like(operands(n, b, x, c), n, x.f)
{ let o1 = z_operand(*n.left, b, x, c); let o2 = z_operand(*n.right, b, x, o1.c);
  thm_like_operand(*n.left, b, x, c); thm_like_operand(*n.right, b, x, o1.c); lem_counters_add(o1.q, o2.q, x.f);
  cg_bin(operands(n, b, x, c).n, n, x.f); }
pub broadcast proof fn thm_like_bin(n: BinExpr, x: Ctx, c: Rec) ensures like(#[trigger] do_bin(n, x, c), n, x.f)
{ broadcast use induction; let y = bin_x(n, x); lem_like_operands(n, c.b.len() as int, y, rb(x, BranchType::BinaryExpr, n.span, c)); }
pub broadcast proof fn thm_like_inner_bin(n: BinExpr, b: int, x: Ctx, c: Rec) ensures like(#[trigger] do_inner_bin(n, b, x, c), n, x.f)
{ broadcast use induction; let y = bin_x(n, x); lem_like_operands(n, b, y, c); }
pub proof fn lem_like_default(e: Box<Expr>, b: int, x: Ctx, c: Rec) ensures bare(*z_default(e, b, x, c).n, x.f) == bare(*e, x.f), counters(z_default(e, b, x, c).q, x.f)
{ broadcast use induction; let o = z_visit(e, x, c); lem_like_arm(*o.n, b, x, o.c); }
pub broadcast proof fn thm_like_assign_pat(n: AssignPat, x: Ctx, c: Rec) ensures like(#[trigger] do_assign_pat(n, x, c), n, x.f)
{ broadcast use induction;
  let l = z_visit(n.left, x, rb(x, BranchType::DefaultArg, n.span, c)); let r = z_default(n.right, c.b.len() as int, x, l.c);
  lem_like_default(n.right, c.b.len() as int, x, l.c); lem_counters_add(l.q, r.q, x.f);
  if !off(x) { cg_assign_pat(AssignPat { left: l.n, right: r.n, ..n }, n, x.f); } }
pub broadcast proof fn thm_like_assign_pat_prop(n: AssignPatProp, x: Ctx, c: Rec) ensures like(#[trigger] do_assign_pat_prop(n, x, c), n, x.f)
{ if !off(x) && n.value is Some {
    let d = rb(x, BranchType::DefaultArg, n.span, c); let r = z_default(n.value->0, c.b.len() as int, x, d);
    lem_like_default(n.value->0, c.b.len() as int, x, d);
    cg_assign_pat_prop(AssignPatProp { value: Some(r.n), ..n }, n, x.f); } }
pub broadcast proof fn thm_like_cover(e: Expr, x: Ctx, c: Rec) ensures like(#[trigger] z_cover(e, x, c), e, x.f)
{ broadcast use induction, lem_marked, lem_like_counted, lem_counters_add; }
pub proof fn lem_like_value(v: Option<Box<Expr>>, x: Ctx, c: Rec) ensures bare_value(do_value(v, x, c).n, x.f) == bare_value(v, x.f), counters(do_value(v, x, c).q, x.f)
{ match v { Some(e) => { thm_like_cover(*e, x, c); }, None => {} } }
pub broadcast proof fn thm_like_declarator(n: VarDeclarator, x: Ctx, c: Rec) ensures like(#[trigger] do_declarator(n, x, c), n, x.f)
{ broadcast use induction, lem_counters_add; let o = do_value(n.init, x, c); lem_like_value(n.init, x, c); cg_declarator(VarDeclarator { init: o.n, ..n }, n, x.f); }
pub broadcast proof fn thm_like_class_prop(n: ClassProp, x: Ctx, c: Rec) ensures like(#[trigger] do_class_prop(n, x, c), n, x.f)
{ broadcast use induction, lem_counters_add; let o = do_value(n.value, x, c); lem_like_value(n.value, x, c); cg_class_prop(ClassProp { value: o.n, ..n }, n, x.f); }
pub broadcast proof fn thm_like_private_prop(n: PrivateProp, x: Ctx, c: Rec) ensures like(#[trigger] do_private_prop(n, x, c), n, x.f)
{ broadcast use induction, lem_counters_add; let o = do_value(n.value, x, c); lem_like_value(n.value, x, c); cg_private_prop(PrivateProp { value: o.n, ..n }, n, x.f); }
pub broadcast proof fn thm_like_expr_stmt(n: ExprStmt, x: Ctx, c: Rec) ensures like(#[trigger] do_expr_stmt(n, x, c), n, x.f)
{ broadcast use induction, lem_marked, lem_counters_add; }
pub broadcast proof fn thm_like_with(n: WithStmt, x: Ctx, c: Rec) ensures like(#[trigger] do_with(n, x, c), n, x.f)
{ broadcast use induction, vecs;
  let d = rs(x, n.span, c);
  lem_marked(x, n.span, c);
  if !off(x) { match *n.body {
    Stmt::Block(l) => { thm_like_stmts(l.stmts@, x, d); cg_with(do_with(n, x, c).n, n, x.f); },
    _ => { let o = z_visit(n.body, stmts_x(x), d); lem_bare_push(o.q, *o.n, x.f); lem_bare_none(o.q, x.f); lem_bare_one(*n.body, x.f);
      assert(Seq::<Stmt>::empty().push(bare(*n.body, x.f)) =~= seq![bare(*n.body, x.f)]); cg_with(do_with(n, x, c).n, n, x.f); },
  } } }
pub broadcast proof fn thm_like_counted<N>(n: N, sp: Span, x: Ctx, c: Rec) ensures like(#[trigger] counted(n, sp, x, c), n, x.f) { broadcast use induction, lem_marked, lem_counters_add; }
pub broadcast proof fn thm_like_entered<N>(n: N, x: Ctx, c: Rec) ensures like(#[trigger] entered(n, x, c), n, x.f) { broadcast use induction; }
pub broadcast proof fn thm_like_guarded<N>(n: N, m: N, sp: Span, x: Ctx, c: Rec) requires bare(m, x.f) == bare(n, x.f) ensures like(#[trigger] guarded(n, m, sp, x, c), n, x.f) { broadcast use induction, lem_marked, lem_counters_add; }
pub proof fn lem_like_block(s: Stmt, f: Ident) ensures bare_body(z_block(s), f) == bare_body(s, f) { broadcast use vecs; }
pub broadcast proof fn thm_like_for(n: ForStmt, m: ForStmt, sp: Span, x: Ctx, c: Rec) requires m == (ForStmt { body: Box::new(z_block(*n.body)), ..n }) ensures like(#[trigger] guarded(n, m, sp, x, c), n, x.f)
{ lem_like_block(*n.body, x.f); cg_for(m, n, x.f); thm_like_guarded(n, m, sp, x, c); }
pub broadcast proof fn thm_like_for_in(n: ForInStmt, m: ForInStmt, sp: Span, x: Ctx, c: Rec) requires m == (ForInStmt { body: Box::new(z_block(*n.body)), ..n }) ensures like(#[trigger] guarded(n, m, sp, x, c), n, x.f)
{ lem_like_block(*n.body, x.f); cg_for_in(m, n, x.f); thm_like_guarded(n, m, sp, x, c); }
pub broadcast proof fn thm_like_for_of(n: ForOfStmt, m: ForOfStmt, sp: Span, x: Ctx, c: Rec) requires m == (ForOfStmt { body: Box::new(z_block(*n.body)), ..n }) ensures like(#[trigger] guarded(n, m, sp, x, c), n, x.f)
{ lem_like_block(*n.body, x.f); cg_for_of(m, n, x.f); thm_like_guarded(n, m, sp, x, c); }
pub broadcast proof fn thm_like_while(n: WhileStmt, m: WhileStmt, sp: Span, x: Ctx, c: Rec) requires m == (WhileStmt { body: Box::new(z_block(*n.body)), ..n }) ensures like(#[trigger] guarded(n, m, sp, x, c), n, x.f)
{ lem_like_block(*n.body, x.f); cg_while(m, n, x.f); thm_like_guarded(n, m, sp, x, c); }
pub broadcast proof fn thm_like_do_while(n: DoWhileStmt, m: DoWhileStmt, sp: Span, x: Ctx, c: Rec) requires m == (DoWhileStmt { body: Box::new(z_block(*n.body)), ..n }) ensures like(#[trigger] guarded(n, m, sp, x, c), n, x.f)
{ lem_like_block(*n.body, x.f); cg_do_while(m, n, x.f); thm_like_guarded(n, m, sp, x, c); }
/// the statements put in front of an item
pub proof fn lem_items_push(s: Seq<ModuleItem>, y: ModuleItem, f: Ident) ensures bare_items(s.push(y), f) == if injected_i(f, y) { bare_items(s, f) } else { bare_items(s, f).push(bare(y, f)) } { assert(s.push(y).drop_last() =~= s); }
pub proof fn lem_items_counters(s: Seq<ModuleItem>, q: Seq<Stmt>, f: Ident) requires counters(q, f) ensures bare_items(s + as_items(q), f) == bare_items(s, f) decreases q.len()
{
  if q.len() == 0 { assert(s + as_items(q) =~= s); } else {
    assert forall|i: int| 0 <= i < q.len() - 1 implies injected_s(f, #[trigger] q.drop_last()[i]) by { assert(injected_s(f, q[i])); }
    lem_items_counters(s, q.drop_last(), f);
    assert(s + as_items(q) =~= (s + as_items(q.drop_last())).push(ModuleItem::Stmt(q.last())));
    assert(injected_s(f, q[q.len() - 1]));
    lem_items_push(s + as_items(q.drop_last()), ModuleItem::Stmt(q.last()), f);
  }
}
pub broadcast proof fn thm_like_items(s: Seq<ModuleItem>, x: Ctx, c: Rec) ensures bare_items((#[trigger] z_items(s, x, c)).n, x.f) == bare_items(s, x.f) decreases s.len()
{
  broadcast use induction, ax_ctr_form;
  if s.len() > 0 {
    let (p, i) = (s.drop_last(), s.last());
    let a = z_items(p, x, c);
    thm_like_items(p, x, c);
    let b = one_item(i, x, a.c);
    assert(p.push(i) =~= s);
    if i.dir() { assert(b.n =~= seq![i]); assert(a.n + b.n =~= a.n.push(i)); lem_items_push(a.n, i, x.f); } else {
      let y = sub(x, item_node(i), item_span(i));
      let e = const_export(i);
      let m = e is Some && !off(y);
      let o = z_kids(i, y, if m { rs(y, e->0, a.c) } else { a.c });
      let q = if m { z_marked(y, e->0, a.c) + o.q } else { o.q };
      lem_marked(y, if e is Some { e->0 } else { DUMMY_SP }, a.c);
      lem_counters_add(z_marked(y, if e is Some { e->0 } else { DUMMY_SP }, a.c), o.q, x.f);
      assert(counters(q, x.f));
      lem_items_counters(a.n, q, x.f);
      assert(a.n + b.n =~= (a.n + as_items(q)).push(o.n));
      lem_items_push(a.n + as_items(q), o.n, x.f);
    }
  }
}
pub broadcast proof fn thm_like_lines(s: Seq<Stmt>, x: Ctx, c: Rec) ensures bare_list((#[trigger] z_lines(s, x, c)).n, x.f) == bare_list(s, x.f) decreases s.len()
{
  broadcast use induction, lists;
  if s.len() > 0 {
    let a = z_lines(s.drop_last(), x, c);
    thm_like_lines(s.drop_last(), x, c);
    let o = z_kids(s.last(), x, a.c);
    let b = one_line(s.last(), x, a.c);
    assert(s.drop_last().push(s.last()) =~= s);
    assert(a.n + b.n =~= (a.n + o.q).push(o.n)); assert(bare_list(a.n + o.q, x.f) =~= bare_list(a.n, x.f));
  }
}
pub broadcast group likes { ax_kids_bare, ax_visit_bare, lem_marked, lem_like_arm, lem_like_counted, thm_like_stmts, thm_like_items, thm_like_lines, thm_like_instr, thm_like_fn_decl, thm_like_fn_expr, thm_like_class_method, thm_like_private_method, thm_like_method_prop, thm_like_constructor, thm_like_getter, thm_like_setter, thm_like_arrow, thm_like_cond, thm_like_if, thm_like_switch, thm_like_case, thm_like_operand, thm_like_bin, thm_like_inner_bin, thm_like_assign_pat, thm_like_assign_pat_prop, thm_like_cover, thm_like_declarator, thm_like_class_prop, thm_like_private_prop, thm_like_expr_stmt, thm_like_with, thm_like_counted, thm_like_entered, thm_like_guarded, thm_like_for, thm_like_for_in, thm_like_for_of, thm_like_while, thm_like_do_while }
