// -------------------------------------------------- what instrumenting each construct has to result in
pub open spec fn off(x: Ctx) -> bool { x.ign == Some(IgnoreScope::Next) }
/// below a hint everything is ignored
pub open spec fn z_below(old: Option<IgnoreScope>, h: Option<IgnoreScope>) -> Option<IgnoreScope> { if old == Some(IgnoreScope::Next) { old } else { h } }
pub open spec fn sub(x: Ctx, n: Node, sp: Span) -> Ctx { Ctx { ign: z_below(x.ign, z_hint(x, sp)), nodes: x.nodes.push(n), ..x } }
pub open spec fn keep<N>(n: N, c: Rec) -> Out<N> { Out { n, q: Seq::empty(), c } }
// --- counters
/// `cov_1().kind[id]++`, `cov_1().kind[id][k]++`: the result of `create_increase_counter_expr` (C12)
pub uninterp spec fn z_ctr(f: Ident, kind: Seq<char>, id: u32, k: Option<u32>) -> Expr;
/// counts an operand's value if it is truthy: the result of `create_increase_true_expr` (C13)
pub uninterp spec fn tctr(f: Ident, t: Ident, id: u32, k: u32, e: Expr) -> Expr;
pub open spec fn stmt_of(e: Expr) -> Stmt { Stmt::Expr(ExprStmt { span: DUMMY_SP, expr: Box::new(e) }) }
pub open spec fn sctr(x: Ctx, c: Rec) -> Expr { z_ctr(x.f, "s"@, c.s.len() as u32, None) }
pub open spec fn fctr(x: Ctx, c: Rec) -> Expr { z_ctr(x.f, "f"@, c.f.len() as u32, None) }
pub open spec fn bctr(x: Ctx, b: int, c: Rec) -> Expr { z_ctr(x.f, "b"@, b as u32, Some(c.b[b].paths.len() as u32)) }
/// the form of a counter
pub open spec fn injected(f: Ident, e: Expr) -> bool {
  match e { Expr::Update(u) => match *u.arg { Expr::Member(m) => match *m.obj { Expr::Member(m) => match *m.obj { Expr::Call(c) => match c.callee { Callee::Expr(i) => *i == Expr::Ident(f), _ => false }, _ => false }, _ => false }, _ => false }, _ => false }
}
pub open spec fn injected_s(f: Ident, s: Stmt) -> bool { match s { Stmt::Expr(e) => injected(f, *e.expr), _ => false } }
/// `(counter, e)`
pub open spec fn wrapped(k: Expr, e: Expr) -> Expr {
  Expr::Paren(ParenExpr { span: DUMMY_SP, expr: Box::new(Expr::Seq(SeqExpr { span: DUMMY_SP, exprs: mkvec(seq![Box::new(k), Box::new(e)]) })) })
}
// --- statements
/// records a statement: its counter is put in front
pub open spec fn z_marked(x: Ctx, sp: Span, c: Rec) -> Seq<Stmt> { seq![stmt_of(sctr(x, c))] }
pub open spec fn rs(x: Ctx, sp: Span, c: Rec) -> Rec { rec_stmt(c, rng(x, sp)) }
pub open spec fn then<N>(q: Seq<Stmt>, o: Out<N>) -> Out<N> { Out { q: q + o.q, ..o } }
/// a counter in front, then what is inside (even if this is ignored: hints inside of it)
pub open spec fn counted<N>(n: N, sp: Span, x: Ctx, c: Rec) -> Out<N> { if off(x) { z_kids(n, x, c) } else { then(z_marked(x, sp, c), z_kids(n, x, rs(x, sp, c))) } }
/// nothing is counted, but what is inside is; nothing at all below a hint
pub open spec fn entered<N>(n: N, x: Ctx, c: Rec) -> Out<N> { if off(x) { keep(n, c) } else { z_kids(n, x, c) } }
/// as `counted`, nothing below a hint
pub open spec fn guarded<N>(n: N, m: N, sp: Span, x: Ctx, c: Rec) -> Out<N> { if off(x) { keep(n, c) } else { then(z_marked(x, sp, c), z_kids(m, x, rs(x, sp, c))) } }
pub open spec fn stmts_x(x: Ctx) -> Ctx { Ctx { kind: Kind::Stmts, ..x } }
/// a list of statements: each of them on its own, its counters in front of it
pub open spec fn one(s: Stmt, x: Ctx, c: Rec) -> Out<Seq<Stmt>> {
  let y = sub(x, Node::Stmt, span_of(s));
  if injected_s(x.f, s) || off(y) { keep(seq![s], c) } else { let o = z_kids(s, stmts_x(y), c); Out { n: o.q.push(o.n), q: Seq::empty(), c: o.c } }
}
pub open spec fn z_stmts(s: Seq<Stmt>, x: Ctx, c: Rec) -> Out<Seq<Stmt>> decreases s.len() {
  if s.len() == 0 { keep(s, c) } else { let a = z_stmts(s.drop_last(), x, c); let b = one(s.last(), x, a.c); Out { n: a.n + b.n, q: Seq::empty(), c: b.c } }
}
/// a body that is no block becomes one
pub open spec fn z_block(s: Stmt) -> Stmt { match s { Stmt::Block(_) => s, _ => Stmt::Block(BlockStmt { stmts: mkvec(seq![s]), ..blank_block() }) } }
// --- functions
/// a counter as the first statement, after the directives
pub open spec fn fn_body(b: BlockStmt, k: Expr) -> BlockStmt { BlockStmt { stmts: mkvec(b.stmts@.insert(prologue(b.stmts@) as int, stmt_of(k))), ..b } }
pub open spec fn fn_name(name: Option<Seq<char>>, c: Rec) -> Seq<char> { match name { Some(n) => n, None => anonymous(c.f.len() as u32) } }
pub open spec fn rf(x: Ctx, name: Option<Seq<char>>, decl: Span, body: Span, c: Rec) -> Rec { rec_fn(c, fn_name(name, c), rng(x, decl), rng(x, body)) }
/// a function with a body
pub open spec fn z_function(f: Function, name: Option<Seq<char>>, decl: Span, x: Ctx, c: Rec) -> (Function, Rec) {
  match f.body { None => (f, c), Some(b) => (Function { body: Some(fn_body(b, fctr(x, c))), ..f }, rf(x, name, decl, b.span, c)) }
}
pub open spec fn z_instr(f: Function, i: Option<&Ident>, x: Ctx, c: Rec) -> Out<Function> {
  let (g, d) = match i { Some(i) => z_function(f, Some(i.sym@), i.span, x, c), None => z_function(f, None, f.span, x, c) };
  Out { n: g, q: Seq::empty(), c: d }
}
pub open spec fn body_of(b: Option<BlockStmt>, name: Seq<char>, decl: Span, x: Ctx, c: Rec) -> (Option<BlockStmt>, Rec) {
  match b { None => (b, c), Some(b) => (Some(fn_body(b, fctr(x, c))), rf(x, Some(name), decl, b.span, c)) }
}
pub open spec fn among(m: Seq<String>, n: int, name: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] m[i])@ == name }
pub open spec fn unwanted(x: Ctx, name: Seq<char>) -> bool { among(x.opts.ignore_class_methods@, x.opts.ignore_class_methods@.len() as int, name) }
pub open spec fn do_fn_decl(n: FnDecl, x: Ctx, c: Rec) -> Out<FnDecl> {
  let (g, d) = z_function(*n.function, Some(n.ident.sym@), n.ident.span, x, c);
  if off(x) { keep(n, c) } else { z_kids(FnDecl { function: Box::new(g), ..n }, x, d) }
}
pub open spec fn do_fn_expr(n: FnExpr, x: Ctx, c: Rec) -> Out<FnExpr> {
  let (g, d) = match n.ident { Some(i) => z_function(*n.function, Some(i.sym@), i.span, x, c), None => z_function(*n.function, None, n.function.span, x, c) };
  if off(x) || (n.ident is Some && unwanted(x, n.ident->0.sym@)) { keep(n, c) } else { z_kids(FnExpr { function: Box::new(g), ..n }, x, d) }
}
pub open spec fn do_class_method(n: ClassMethod, x: Ctx, c: Rec) -> Out<ClassMethod> {
  match n.key {
    PropName::Ident(i) => if off(x) || unwanted(x, i.sym@) { keep(n, c) } else {
      let (g, d) = z_function(*n.function, Some(i.sym@), i.span, x, c);
      z_kids(ClassMethod { function: Box::new(g), ..n }, x, d) },
    _ => if off(x) { keep(n, c) } else {
      let (g, d) = z_function(*n.function, None::<Seq<char>>, n.function.span, x, c);
      z_kids(ClassMethod { function: Box::new(g), ..n }, x, d) },
  }
}
pub open spec fn do_constructor(n: Constructor, x: Ctx, c: Rec) -> Out<Constructor> {
  let (b, d) = body_of(n.body, "constructor"@, span_of(n.key), x, c);
  if off(x) || unwanted(x, "constructor"@) { keep(n, c) } else { z_kids(Constructor { body: b, ..n }, x, d) }
}
pub open spec fn do_private_method(n: PrivateMethod, x: Ctx, c: Rec) -> Out<PrivateMethod> {
  let (g, d) = z_function(*n.function, Some("#"@ + n.key.name@), n.key.span, x, c);
  if off(x) { keep(n, c) } else { z_kids(PrivateMethod { function: Box::new(g), ..n }, x, d) }
}
pub open spec fn do_method_prop(n: MethodProp, x: Ctx, c: Rec) -> Out<MethodProp> {
  let (g, d) = match n.key { PropName::Ident(i) => z_function(*n.function, Some(i.sym@), i.span, x, c), _ => z_function(*n.function, Some("anonymous"@), DUMMY_SP, x, c) };
  if off(x) || (n.key is Ident && unwanted(x, n.key->Ident_0.sym@)) { keep(n, c) } else { z_kids(MethodProp { function: Box::new(g), ..n }, x, d) }
}
pub open spec fn do_getter(n: GetterProp, x: Ctx, c: Rec) -> Out<GetterProp> {
  let (b, d) = match n.key { PropName::Ident(i) => body_of(n.body, i.sym@, i.span, x, c), _ => body_of(n.body, "anonymous"@, n.span, x, c) };
  if off(x) || (n.key is Ident && unwanted(x, n.key->Ident_0.sym@)) { keep(n, c) } else { z_kids(GetterProp { body: b, ..n }, x, d) }
}
pub open spec fn do_setter(n: SetterProp, x: Ctx, c: Rec) -> Out<SetterProp> {
  let (b, d) = match n.key { PropName::Ident(i) => body_of(n.body, i.sym@, i.span, x, c), _ => body_of(n.body, "anonymous"@, n.span, x, c) };
  if off(x) || (n.key is Ident && unwanted(x, n.key->Ident_0.sym@)) { keep(n, c) } else { z_kids(SetterProp { body: b, ..n }, x, d) }
}
/// the body of an arrow function is counted statement by statement; an expression is returned
pub open spec fn do_arrow(n: ArrowExpr, x: Ctx, c: Rec) -> Out<ArrowExpr> {
  if off(x) { keep(n, c) } else { match *n.body {
    BlockStmtOrExpr::BlockStmt(b) => {
      let p = z_visit(n.params, x, rf(x, None, n.span, b.span, c));
      let o = z_stmts(b.stmts@, x, p.c);
      Out { n: ArrowExpr { params: p.n, body: Box::new(BlockStmtOrExpr::BlockStmt(fn_body(BlockStmt { stmts: mkvec(o.n), ..b }, fctr(x, c)))), ..n }, q: p.q, c: o.c } },
    BlockStmtOrExpr::Expr(e) => {
      let r = Stmt::Return(ReturnStmt { span: span_of(*e), arg: Some(e) });
      let p = z_visit(n.params, x, rf(x, None, n.span, span_of(*e), c));
      let o = z_stmts(seq![stmt_of(fctr(x, c))].push(r), x, p.c);
      Out { n: ArrowExpr { params: p.n, body: Box::new(BlockStmtOrExpr::BlockStmt(BlockStmt { stmts: mkvec(o.n), ..blank_block() })), ..n }, q: p.q, c: o.c } },
  } }
}
// --- branches
pub open spec fn rb(x: Ctx, k: BranchType, sp: Span, c: Rec) -> Rec { rec_branch(c, k, rng(x, sp), x.opts.report_logic) }
/// an expression that is a path of branch `b`
pub open spec fn z_arm(e: Expr, b: int, x: Ctx, c: Rec) -> Out<Expr> { Out { n: wrapped(bctr(x, b, c), e), q: Seq::empty(), c: rec_path(c, b, rng(x, span_of(e))) } }
pub open spec fn hinted_arm(e: Expr, b: int, x: Ctx, c: Rec) -> Out<Expr> { if text(x, span_of(e)) == Some("next"@) { keep(e, c) } else { z_arm(e, b, x, c) } }
pub open spec fn do_cond(n: CondExpr, x: Ctx, c: Rec) -> Out<CondExpr> {
  if off(x) { z_kids(n, x, c) } else {
    let b = c.b.len() as int;
    let o1 = hinted_arm(*n.cons, b, x, rb(x, BranchType::CondExpr, n.span, c));
    let o2 = hinted_arm(*n.alt, b, x, o1.c);
    z_kids(CondExpr { cons: Box::new(o1.n), alt: Box::new(o2.n), ..n }, x, o2.c)
  }
}
/// a statement that is a path of the `if` statement with branch `b` becomes a block that counts it
pub open spec fn z_path(s: Stmt, b: int, sp: Span, x: Ctx, c: Rec) -> Out<Stmt> {
  let k = seq![stmt_of(bctr(x, b, c))];
  let d = rec_path(c, b, rng(x, sp));
  match s {
    Stmt::Block(l) => { let o = z_stmts(l.stmts@, x, d); Out { n: Stmt::Block(BlockStmt { stmts: mkvec(k + o.n), ..l }), q: Seq::empty(), c: o.c } },
    _ => { let o = z_visit(s, stmts_x(x), d); Out { n: Stmt::Block(BlockStmt { stmts: mkvec((k + o.q).push(o.n)), ..blank_block() }), q: Seq::empty(), c: o.c } },
  }
}
pub open spec fn do_if(n: IfStmt, x: Ctx, c: Rec) -> Out<IfStmt> {
  if off(x) { keep(n, c) } else {
    let b = c.b.len() as int;
    let d = rb(x, BranchType::If, n.span, rs(x, n.span, c));
    let o1 = if x.ign == Some(IgnoreScope::If) { keep(*n.cons, d) } else { z_path(*n.cons, b, n.span, x, d) };
    let o2 = z_path(match n.alt { Some(a) => *a, None => Stmt::Block(blank_block()) }, b, n.span, x, o1.c);
    let (alt, e) = if x.ign == Some(IgnoreScope::Else) { (n.alt, o1.c) } else { (Some(Box::new(o2.n)), o2.c) };
    let o3 = z_visit(n.test, x, e);
    then(z_marked(x, n.span, c), Out { n: IfStmt { test: o3.n, cons: Box::new(o1.n), alt, ..n }, q: o3.q, c: o3.c })
  }
}
pub open spec fn do_switch(n: SwitchStmt, x: Ctx, c: Rec) -> Out<SwitchStmt> {
  if off(x) { keep(n, c) } else {
    then(z_marked(x, n.span, c), z_kids(n, Ctx { kind: Kind::Switch(c.b.len() as u32), ..x }, rb(x, BranchType::Switch, n.span, rs(x, n.span, c))))
  }
}
pub open spec fn do_case(n: SwitchCase, b: int, x: Ctx, c: Rec) -> Out<SwitchCase> {
  if off(x) { keep(n, c) } else {
    let o = z_kids(n, x, rec_path(c, b, rng(x, n.span)));
    Out { n: SwitchCase { cons: mkvec(seq![stmt_of(bctr(x, b, c))] + o.n.cons@), ..o.n }, ..o }
  }
}
pub open spec fn logical(op: BinaryOp) -> bool { op == BinaryOp::LogicalOr || op == BinaryOp::LogicalAnd || op == BinaryOp::NullishCoalescing }
/// an operand of the logical expression with branch `b`
pub open spec fn z_operand(e: Expr, b: int, x: Ctx, c: Rec) -> Out<Expr> {
  let h = z_hint(x, span_of(e));
  if h == Some(IgnoreScope::Next) { keep(e, c) }
  else if has_logic(e) { let o = z_kids(e, Ctx { ign: h, kind: Kind::Logic(b as u32), ..x }, c); Out { q: Seq::empty(), ..o } }
  else if x.opts.report_logic {
    Out { n: Expr::Seq(SeqExpr { span: DUMMY_SP, exprs: mkvec(seq![Box::new(bctr(x, b, c)), Box::new(tctr(x.f, x.t, b as u32, c.b[b].paths.len() as u32, e))]) }), q: Seq::empty(), c: rec_path(c, b, rng(x, span_of(e))) }
  } else { let o = z_kids(e, x, c); then(o.q, z_arm(o.n, b, x, o.c)) }
}
pub open spec fn operands(n: BinExpr, b: int, x: Ctx, c: Rec) -> Out<BinExpr> {
  let o1 = z_operand(*n.left, b, x, c);
  let o2 = z_operand(*n.right, b, x, o1.c);
  Out { n: BinExpr { left: Box::new(o1.n), right: Box::new(o2.n), ..n }, q: o1.q + o2.q, c: o2.c }
}
pub open spec fn bin_x(n: BinExpr, x: Ctx) -> Ctx {
  let y = sub(x, Node::BinExpr, n.span);
  if !off(y) && logical(n.op) { Ctx { nodes: x.nodes.push(Node::LogicalExpr), ..y } } else { y }
}
pub open spec fn do_bin(n: BinExpr, x: Ctx, c: Rec) -> Out<BinExpr> {
  let y = bin_x(n, x);
  if off(y) || !logical(n.op) { z_kids(n, y, c) } else { operands(n, c.b.len() as int, y, rb(x, BranchType::BinaryExpr, n.span, c)) }
}
pub open spec fn do_inner_bin(n: BinExpr, b: int, x: Ctx, c: Rec) -> Out<BinExpr> {
  let y = bin_x(n, x);
  if off(y) || !logical(n.op) { z_kids(n, y, c) } else { operands(n, b, y, c) }
}
/// a default value is a branch with one path
pub open spec fn z_default(e: Box<Expr>, b: int, x: Ctx, c: Rec) -> Out<Box<Expr>> {
  if z_hint(x, span_of(*e)) == Some(IgnoreScope::Next) { keep(e, c) }
  else { let o = z_visit(e, x, c); let a = z_arm(*o.n, b, x, o.c); Out { n: Box::new(a.n), q: o.q, c: a.c } }
}
pub open spec fn do_assign_pat(n: AssignPat, x: Ctx, c: Rec) -> Out<AssignPat> {
  let d = rb(x, BranchType::DefaultArg, n.span, c);
  let l = z_visit(n.left, x, d);
  let r = z_default(n.right, c.b.len() as int, x, l.c);
  if off(x) { keep(n, c) } else { Out { n: AssignPat { left: l.n, right: r.n, ..n }, q: l.q + r.q, c: r.c } }
}
pub open spec fn do_assign_pat_prop(n: AssignPatProp, x: Ctx, c: Rec) -> Out<AssignPatProp> {
  let d = rb(x, BranchType::DefaultArg, n.span, c);
  if off(x) || n.value is None { keep(n, c) }
  else { let r = z_default(n.value->0, c.b.len() as int, x, d); Out { n: AssignPatProp { value: Some(r.n), ..n }, q: r.q, c: r.c } }
}
// --- values
pub open spec fn expr_counted(e: Expr, x: Ctx, c: Rec) -> Out<Expr> { Out { n: wrapped(sctr(x, c), e), q: Seq::empty(), c: rs(x, span_of(e), c) } }
pub open spec fn z_cover(e: Expr, x: Ctx, c: Rec) -> Out<Expr> {
  let sp = span_of(e);
  let front = Out { n: e, q: z_marked(x, sp, c), c: rs(x, sp, c) };
  let n = x.nodes.len() as int;
  if e is TaggedTpl { then(front.q, z_kids(e, x, front.c)) }
  else if has_block(e) { front }
  else {
    let o = if has_stmt(e) { front } else { keep(e, c) };
    if has_fn(e) && x.nodes.last() == Node::VarDeclarator {
      // in the head of a loop there is no place for a statement
      let p = x.nodes[if n >= 3 { n - 3 } else { 0 }];
      if p == Node::ForStmt || p == Node::ForInStmt || p == Node::ForOfStmt { then(o.q, expr_counted(e, x, o.c)) }
      else { Out { q: o.q + z_marked(x, sp, o.c), n: e, c: rs(x, sp, o.c) } }
    } else if has_expr(e) { then(o.q, expr_counted(e, x, o.c)) } else { o }
  }
}
pub open spec fn do_value(v: Option<Box<Expr>>, x: Ctx, c: Rec) -> Out<Option<Box<Expr>>> {
  match v { Some(e) => { let o = z_cover(*e, x, c); Out { n: Some(Box::new(o.n)), q: o.q, c: o.c } }, None => keep(v, c) }
}
pub open spec fn do_declarator(n: VarDeclarator, x: Ctx, c: Rec) -> Out<VarDeclarator> {
  let o = do_value(n.init, x, c);
  if off(x) { keep(n, c) } else { then(o.q, z_kids(VarDeclarator { init: o.n, ..n }, x, o.c)) }
}
pub open spec fn do_class_prop(n: ClassProp, x: Ctx, c: Rec) -> Out<ClassProp> {
  let o = do_value(n.value, x, c);
  if off(x) { keep(n, c) } else { then(o.q, z_kids(ClassProp { value: o.n, ..n }, x, o.c)) }
}
pub open spec fn do_private_prop(n: PrivateProp, x: Ctx, c: Rec) -> Out<PrivateProp> {
  let o = do_value(n.value, x, c);
  if off(x) { keep(n, c) } else { then(o.q, z_kids(PrivateProp { value: o.n, ..n }, x, o.c)) }
}
pub open spec fn do_expr_stmt(n: ExprStmt, x: Ctx, c: Rec) -> Out<ExprStmt> {
  if str_stmt(Stmt::Expr(n)) { keep(n, c) } else if off(x) || injected(x.f, *n.expr) { z_kids(n, x, c) } else { then(z_marked(x, n.span, c), z_kids(n, x, rs(x, n.span, c))) }
}
pub open spec fn do_with(n: WithStmt, x: Ctx, c: Rec) -> Out<WithStmt> {
  let d = rs(x, n.span, c);
  if off(x) { keep(n, c) } else { match *n.body {
    Stmt::Block(l) => { let o = z_stmts(l.stmts@, x, d); Out { n: WithStmt { body: Box::new(Stmt::Block(BlockStmt { stmts: mkvec(o.n), ..l })), ..n }, q: z_marked(x, n.span, c), c: o.c } },
    _ => { let o = z_visit(n.body, stmts_x(x), d); Out { n: WithStmt { body: Box::new(Stmt::Block(BlockStmt { stmts: mkvec(o.q.push(*o.n)), ..blank_block() })), ..n }, q: z_marked(x, n.span, c), c: o.c } },
  } }
}
// --- what a hint in front of a node is looked up for
pub trait VxHint { spec fn node(&self) -> Node; spec fn hspan(&self) -> Span; }
impl VxHint for Expr { open spec fn node(&self) -> Node { Node::Expr } open spec fn hspan(&self) -> Span { span_of(*self) } }
impl VxHint for Stmt { open spec fn node(&self) -> Node { Node::Stmt } open spec fn hspan(&self) -> Span { span_of(*self) } }
impl VxHint for ModuleDecl { open spec fn node(&self) -> Node { Node::ModuleDecl } open spec fn hspan(&self) -> Span { span_of(*self) } }
impl VxHint for ClassDecl { open spec fn node(&self) -> Node { Node::ClassDecl } open spec fn hspan(&self) -> Span { self.class.span } }
impl VxHint for FnExpr { open spec fn node(&self) -> Node { Node::FnExpr } open spec fn hspan(&self) -> Span { self.function.span } }
impl VxHint for MethodProp { open spec fn node(&self) -> Node { Node::MethodProp } open spec fn hspan(&self) -> Span { self.function.span } }
impl VxHint for FnDecl { open spec fn node(&self) -> Node { Node::FnDecl } open spec fn hspan(&self) -> Span { self.function.span } }
impl VxHint for BinExpr { open spec fn node(&self) -> Node { Node::BinExpr } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for VarDeclarator { open spec fn node(&self) -> Node { Node::VarDeclarator } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for VarDecl { open spec fn node(&self) -> Node { Node::VarDecl } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for CondExpr { open spec fn node(&self) -> Node { Node::CondExpr } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ExprStmt { open spec fn node(&self) -> Node { Node::ExprStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for IfStmt { open spec fn node(&self) -> Node { Node::IfStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for LabeledStmt { open spec fn node(&self) -> Node { Node::LabeledStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ContinueStmt { open spec fn node(&self) -> Node { Node::ContinueStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ClassProp { open spec fn node(&self) -> Node { Node::ClassProp } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for PrivateProp { open spec fn node(&self) -> Node { Node::PrivateProp } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ClassMethod { open spec fn node(&self) -> Node { Node::ClassMethod } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ArrowExpr { open spec fn node(&self) -> Node { Node::ArrowExpr } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ForStmt { open spec fn node(&self) -> Node { Node::ForStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ForOfStmt { open spec fn node(&self) -> Node { Node::ForOfStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ForInStmt { open spec fn node(&self) -> Node { Node::ForInStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for WhileStmt { open spec fn node(&self) -> Node { Node::WhileStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for DoWhileStmt { open spec fn node(&self) -> Node { Node::DoWhileStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for SwitchStmt { open spec fn node(&self) -> Node { Node::SwitchStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for SwitchCase { open spec fn node(&self) -> Node { Node::SwitchCase } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for BreakStmt { open spec fn node(&self) -> Node { Node::BreakStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ReturnStmt { open spec fn node(&self) -> Node { Node::ReturnStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for BlockStmt { open spec fn node(&self) -> Node { Node::BlockStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for WithStmt { open spec fn node(&self) -> Node { Node::WithStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for TryStmt { open spec fn node(&self) -> Node { Node::TryStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ThrowStmt { open spec fn node(&self) -> Node { Node::ThrowStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ExportDecl { open spec fn node(&self) -> Node { Node::ExportDecl } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for ExportDefaultDecl { open spec fn node(&self) -> Node { Node::ExportDefaultDecl } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for DebuggerStmt { open spec fn node(&self) -> Node { Node::DebuggerStmt } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for AssignPat { open spec fn node(&self) -> Node { Node::AssignPat } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for Constructor { open spec fn node(&self) -> Node { Node::Constructor } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for PrivateMethod { open spec fn node(&self) -> Node { Node::PrivateMethod } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for AssignPatProp { open spec fn node(&self) -> Node { Node::AssignPatProp } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for GetterProp { open spec fn node(&self) -> Node { Node::GetterProp } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for SetterProp { open spec fn node(&self) -> Node { Node::SetterProp } open spec fn hspan(&self) -> Span { self.span } }
impl VxHint for TaggedTpl { open spec fn node(&self) -> Node { Node::TaggedTpl } open spec fn hspan(&self) -> Span { self.span } }
pub open spec fn z_inside<N: VxHint>(x: Ctx, n: N) -> Ctx { sub(x, n.node(), n.hspan()) }
pub trait CoverageInstrumentationMutVisitEnter<N: VxHint>: VxVisitor {
  fn on_enter(&mut self, n: &mut N) -> (r: (Option<IgnoreScope>, Option<IgnoreScope>))
    ensures final(self).ctx() == z_inside(old(self).ctx(), *old(n)), final(self).bef() == old(self).bef(), final(self).same(*old(self)), *final(n) == *old(n),
      r.0 == old(self).ctx().ign, r.1 == final(self).ctx().ign;
}
pub proof fn lem_stmts(s: Seq<Stmt>, i: int, x: Ctx, c: Rec) requires 0 <= i < s.len()
  ensures z_stmts(s.take(0), x, c) == keep(Seq::<Stmt>::empty(), c),
    ({ let a = z_stmts(s.take(i), x, c); let b = one(s[i], x, a.c); z_stmts(s.take(i + 1), x, c) == (Out { n: a.n + b.n, q: Seq::<Stmt>::empty(), c: b.c }) })
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(0) =~= Seq::empty()); }

pub broadcast proof fn lem_stmts_more(s: Seq<Stmt>, x: Ctx, c: Rec) ensures more(c, (#[trigger] z_stmts(s, x, c)).c) decreases s.len()
{
  broadcast use traversal;
  if s.len() > 0 { lem_stmts_more(s.drop_last(), x, c); }
}

/// where things are does not matter for the new code
pub closed spec fn zs_n(s: Seq<Stmt>, x: Ctx, h: Shape) -> Seq<Stmt> { z_stmts(s, x, blank(h)).n }
pub closed spec fn zs_s(s: Seq<Stmt>, x: Ctx, h: Shape) -> Shape { shape(z_stmts(s, x, blank(h)).c) }
pub proof fn lem_blank(h: Shape) ensures shape(blank(h)) == h { assert(shape(blank(h)).f =~= h.f); assert(shape(blank(h)).b =~= h.b); }
pub proof fn lem_same_shape(s: Seq<Stmt>, x: Ctx, c: Rec, d: Rec) requires shape(c) == shape(d) ensures z_stmts(s, x, c).n == z_stmts(s, x, d).n, shape(z_stmts(s, x, c).c) == shape(z_stmts(s, x, d).c) decreases s.len()
{ broadcast use shapes; if s.len() > 0 { lem_same_shape(s.drop_last(), x, c, d); } }
pub broadcast proof fn lem_stmts_shape(s: Seq<Stmt>, x: Ctx, c: Rec) ensures (#[trigger] z_stmts(s, x, c)).n == zs_n(s, x, shape(c)), shape(z_stmts(s, x, c).c) == zs_s(s, x, shape(c))
{ lem_blank(shape(c)); lem_same_shape(s, x, c, blank(shape(c))); }
// --- the top of the file
/// `function cov_1() {..}` with the coverage data (C14), the results of `create_coverage_fn_decl`, `create_global_stmt_template`
pub uninterp spec fn cov_decl<C>(var: Seq<char>, global: Stmt, f: Ident, path: Seq<char>, data: FileCoverage, comments: C, debug: bool) -> Stmt;
pub uninterp spec fn global_of(scope: Seq<char>) -> Stmt;
pub open spec fn template<C>(x: Ctx, path: Seq<char>, comments: C, cov: SourceCoverage) -> Stmt {
  cov_decl(x.opts.coverage_variable@, global_of("this"@), x.f, path, frozen_data(cov), comments, x.opts.debug_initial_coverage_comment)
}
/// `cov_1();`
pub open spec fn is_call_of(f: Ident, s: Stmt) -> bool {
  match s { Stmt::Expr(e) => match *e.expr { Expr::Call(c) => no_call(c) && match c.callee { Callee::Expr(i) => *i == Expr::Ident(f), _ => false }, _ => false }, _ => false }
}
/// both statements at the top of the file
pub open spec fn top_of<C>(x: Ctx, file: Seq<char>, comments: C, c: Rec, path: Seq<char>, r: (Stmt, Stmt)) -> bool {
  (exists|d: SourceCoverage| d.rec() == c && d.path() == path && r.0 == #[trigger] template(x, file, comments, d)) && is_call_of(x.f, r.1)
}
/// the place below the directives (in a module below the first item, too)
pub open spec fn put<T>(s: Seq<T>, i: int, a: T, b: T) -> Seq<T> { s.insert(i, a).insert(i + 1, b) }
pub open spec fn with_top(s: Seq<ModuleItem>, r: (Stmt, Stmt)) -> Seq<ModuleItem> {
  put(s, if s.len() == 0 { 0 } else if prologue(s) == 0 { 1 } else { prologue(s) as int }, ModuleItem::Stmt(r.0), ModuleItem::Stmt(r.1))
}
pub open spec fn item_node(i: ModuleItem) -> Node { match i { ModuleItem::ModuleDecl(_) => Node::ModuleDecl, ModuleItem::Stmt(_) => Node::Stmt } }
pub open spec fn item_span(i: ModuleItem) -> Span { match i { ModuleItem::ModuleDecl(d) => span_of(d), ModuleItem::Stmt(s) => span_of(s) } }
pub open spec fn const_export(i: ModuleItem) -> Option<Span> {
  match i { ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(e)) => match e.decl { Decl::Var(v) => if v.kind == VarDeclKind::Const { Some(e.span) } else { None }, _ => None }, _ => None }
}
pub open spec fn as_items(s: Seq<Stmt>) -> Seq<ModuleItem> { s.map_values(|s: Stmt| ModuleItem::Stmt(s)) }
/// an item of a module: its counters are put in front of it
pub open spec fn one_item(i: ModuleItem, x: Ctx, c: Rec) -> Out<Seq<ModuleItem>> {
  if i.dir() { keep(seq![i], c) } else {
    let y = sub(x, item_node(i), item_span(i));
    let e = const_export(i);
    let m = e is Some && !off(y);
    let o = z_kids(i, y, if m { rs(y, e->0, c) } else { c });
    Out { n: as_items(if m { z_marked(y, e->0, c) + o.q } else { o.q }).push(o.n), q: Seq::empty(), c: o.c }
  }
}
pub open spec fn z_items(s: Seq<ModuleItem>, x: Ctx, c: Rec) -> Out<Seq<ModuleItem>> decreases s.len() {
  if s.len() == 0 { keep(s, c) } else { let a = z_items(s.drop_last(), x, c); let b = one_item(s.last(), x, a.c); Out { n: a.n + b.n, q: Seq::empty(), c: b.c } }
}
pub proof fn lem_items(s: Seq<ModuleItem>, i: int, x: Ctx, c: Rec) requires 0 <= i < s.len()
  ensures z_items(s.take(0), x, c) == keep(Seq::<ModuleItem>::empty(), c),
    ({ let a = z_items(s.take(i), x, c); let b = one_item(s[i], x, a.c); z_items(s.take(i + 1), x, c) == (Out { n: a.n + b.n, q: Seq::<Stmt>::empty(), c: b.c }) })
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(0) =~= Seq::empty()); }
pub open spec fn one_line(s: Stmt, x: Ctx, c: Rec) -> Out<Seq<Stmt>> { let o = z_kids(s, x, c); Out { n: o.q.push(o.n), q: Seq::empty(), c: o.c } }
pub open spec fn z_lines(s: Seq<Stmt>, x: Ctx, c: Rec) -> Out<Seq<Stmt>> decreases s.len() {
  if s.len() == 0 { keep(s, c) } else { let a = z_lines(s.drop_last(), x, c); let b = one_line(s.last(), x, a.c); Out { n: a.n + b.n, q: Seq::empty(), c: b.c } }
}
pub proof fn lem_lines(s: Seq<Stmt>, i: int, x: Ctx, c: Rec) requires 0 <= i < s.len()
  ensures z_lines(s.take(0), x, c) == keep(Seq::<Stmt>::empty(), c),
    ({ let a = z_lines(s.take(i), x, c); let b = one_line(s[i], x, a.c); z_lines(s.take(i + 1), x, c) == (Out { n: a.n + b.n, q: Seq::<Stmt>::empty(), c: b.c }) })
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(0) =~= Seq::empty()); }
pub open spec fn rooted(x: Ctx) -> bool { x.nodes.len() > 0 && x.nodes[0] == Node::Program }
/// in the body of a namespace
pub open spec fn nested(x: Ctx) -> bool { x.nodes.len() > 0 && x.nodes.last() == Node::ModuleItems }
pub open spec fn root_x(x: Ctx) -> Ctx { if rooted(x) || nested(x) { x } else { Ctx { nodes: seq![Node::Program] + x.nodes, ..x } } }

// --- directives
pub open spec fn same_dirs<T: IsDirective>(a: Seq<T>, b: Seq<T>) -> bool { prologue(a) == prologue(b) && a.take(prologue(a) as int) =~= b.take(prologue(b) as int) }
pub open spec fn first<T>(q: Seq<T>, n: T) -> T { if q.len() == 0 { n } else { q[0] } }
/// a string statement stays as it is (`visit_mut_expr_stmt`), nothing else becomes one (the traversal keeps the kind of a statement)
pub broadcast axiom fn ax_kids_str(s: Stmt, x: Ctx, c: Rec)
  ensures str_stmt(s) ==> #[trigger] z_kids(s, x, c) == keep(s, c), !str_stmt(s) ==> !str_stmt(first(z_kids(s, x, c).q, z_kids(s, x, c).n));
pub broadcast axiom fn ax_kids_item(s: ModuleItem, x: Ctx, c: Rec)
  ensures !s.dir() ==> !first(as_items((#[trigger] z_kids(s, x, c)).q), z_kids(s, x, c).n).dir();
/// a counter is `cov_1().s[0]++` (unit counters), `function cov_1() {..}` is a declaration
pub broadcast axiom fn ax_ctr_form(f: Ident, k: Seq<char>, i: u32, j: Option<u32>) ensures injected(f, #[trigger] z_ctr(f, k, i, j));
pub broadcast axiom fn ax_decl_form<C>(var: Seq<char>, global: Stmt, f: Ident, path: Seq<char>, data: FileCoverage, comments: C, debug: bool)
  ensures (#[trigger] cov_decl(var, global, f, path, data, comments, debug)) is Decl;
pub proof fn lem_prologue_end<T: IsDirective>(s: Seq<T>) ensures prologue(s) <= s.len(), prologue(s) < s.len() ==> !s[prologue(s) as int].dir(), forall|i: int| 0 <= i < prologue(s) ==> (#[trigger] s[i]).dir() decreases s.len()
{ if s.len() > 0 && s[0].dir() { lem_prologue_end(s.skip(1)); assert forall|i: int| 0 <= i < prologue(s) implies (#[trigger] s[i]).dir() by { if i > 0 { assert(s.skip(1)[i - 1].dir()); } } } }
/// code put in below the directives
pub proof fn lem_dirs_insert<T: IsDirective>(s: Seq<T>, i: int, y: T) requires prologue(s) <= i <= s.len(), !y.dir() ensures same_dirs(s.insert(i, y), s)
{
  lem_prologue_end(s);
  let t = s.insert(i, y); let p = prologue(s);
  assert(forall|j: int| 0 <= j < p ==> #[trigger] t[j] == s[j]);
  assert(is_prologue(t, p as int));
  lem_prologue(t, p as int);
}
pub proof fn lem_dirs_put<T: IsDirective>(s: Seq<T>, i: int, a: T, b: T) requires prologue(s) <= i <= s.len(), !a.dir(), !b.dir() ensures same_dirs(put(s, i, a, b), s)
{ lem_dirs_insert(s, i, a); lem_dirs_insert(s.insert(i, a), i + 1, b); }
/// lists that start with the same directives, and are equal if they are all directives
pub open spec fn dirs_kept<T: IsDirective>(b: Seq<T>, a: Seq<T>) -> bool { same_dirs(b, a) && (prologue(a) == a.len() ==> b == a) && (prologue(a) < a.len() ==> prologue(b) < b.len()) }
pub proof fn lem_dirs_add<T: IsDirective>(a: Seq<T>, b: Seq<T>, x: T, y: Seq<T>)
  requires dirs_kept(b, a), x.dir() ==> y == seq![x], !x.dir() ==> y.len() > 0 && !y[0].dir() ensures dirs_kept(b + y, a.push(x))
{
  lem_prologue_end(a); lem_prologue_end(b);
  let (p, s, t) = (prologue(a), a.push(x), b + y);
  assert(forall|j: int| 0 <= j < p ==> #[trigger] b[j] == b.take(p as int)[j] && a[j] == a.take(p as int)[j]);
  assert(forall|j: int| 0 <= j < p ==> #[trigger] t[j] == b[j] && s[j] == a[j]);
  if p == a.len() && x.dir() {
    assert(t =~= s);
    assert(is_prologue(s, p as int + 1)); lem_prologue(s, p as int + 1);
  } else {
    if p == a.len() { assert(t[p as int] == y[0]); assert(s[p as int] == x); } else { assert(t[p as int] == b[p as int]); assert(s[p as int] == a[p as int]); }
    assert(is_prologue(s, p as int)); assert(is_prologue(t, p as int));
    lem_prologue(s, p as int); lem_prologue(t, p as int);
    assert(s.take(p as int) =~= t.take(p as int));
  }
}
pub broadcast proof fn thm_dirs_stmts(s: Seq<Stmt>, x: Ctx, c: Rec) ensures dirs_kept((#[trigger] z_stmts(s, x, c)).n, s) decreases s.len()
{
  broadcast use ax_kids_str;
  if s.len() > 0 {
    let a = z_stmts(s.drop_last(), x, c);
    thm_dirs_stmts(s.drop_last(), x, c);
    let y = one(s.last(), x, a.c);
    let w = sub(x, Node::Stmt, span_of(s.last()));
    let o = z_kids(s.last(), stmts_x(w), a.c);
    if !s.last().dir() && !injected_s(x.f, s.last()) && !off(w) { assert(y.n[0] == first(o.q, o.n)); }
    if s.last().dir() { assert(y.n =~= seq![s.last()]); }
    lem_dirs_add(s.drop_last(), a.n, s.last(), y.n);
    assert(s.drop_last().push(s.last()) =~= s);
  }
}
pub broadcast proof fn thm_dirs_items(s: Seq<ModuleItem>, x: Ctx, c: Rec) ensures dirs_kept((#[trigger] z_items(s, x, c)).n, s) decreases s.len()
{
  broadcast use ax_kids_item, ax_ctr_form;
  if s.len() > 0 {
    let a = z_items(s.drop_last(), x, c);
    thm_dirs_items(s.drop_last(), x, c);
    let y = one_item(s.last(), x, a.c);
    if !s.last().dir() {
      let i = s.last();
      let w = sub(x, item_node(i), item_span(i));
      let m = const_export(i) is Some && !off(w);
      let d = if m { rs(w, const_export(i)->0, a.c) } else { a.c };
      let o = z_kids(i, w, d);
      if m { assert(y.n[0] == ModuleItem::Stmt(stmt_of(sctr(w, a.c)))); } else { assert(y.n[0] == first(as_items(o.q), o.n)); }
    }
    lem_dirs_add(s.drop_last(), a.n, s.last(), y.n);
    assert(s.drop_last().push(s.last()) =~= s);
  }
}
pub broadcast proof fn thm_dirs_lines(s: Seq<Stmt>, x: Ctx, c: Rec) ensures dirs_kept((#[trigger] z_lines(s, x, c)).n, s) decreases s.len()
{
  broadcast use ax_kids_str;
  if s.len() > 0 {
    let a = z_lines(s.drop_last(), x, c);
    thm_dirs_lines(s.drop_last(), x, c);
    let y = one_line(s.last(), x, a.c);
    let o = z_kids(s.last(), x, a.c);
    if s.last().dir() { assert(y.n =~= seq![s.last()]); } else { assert(y.n[0] == first(o.q, o.n)); }
    lem_dirs_add(s.drop_last(), a.n, s.last(), y.n);
    assert(s.drop_last().push(s.last()) =~= s);
  }
}
/// the statements at the top of the file stay below the directives
pub broadcast proof fn thm_dirs_module<C>(s: Seq<ModuleItem>, x: Ctx, file: Seq<char>, comments: C, c: Rec, path: Seq<char>, r: (Stmt, Stmt))
  requires #[trigger] top_of(x, file, comments, c, path, r) ensures same_dirs(#[trigger] with_top(s, r), s)
{ broadcast use ax_decl_form; lem_prologue_end(s); lem_dirs_put(s, if s.len() == 0 { 0 } else if prologue(s) == 0 { 1 } else { prologue(s) as int }, ModuleItem::Stmt(r.0), ModuleItem::Stmt(r.1)); }
pub broadcast proof fn thm_dirs_script<C>(s: Seq<Stmt>, x: Ctx, file: Seq<char>, comments: C, c: Rec, path: Seq<char>, r: (Stmt, Stmt))
  requires #[trigger] top_of(x, file, comments, c, path, r) ensures same_dirs(#[trigger] put(s, prologue(s) as int, r.0, r.1), s)
{ broadcast use ax_decl_form; lem_prologue_end(s); lem_dirs_put(s, prologue(s) as int, r.0, r.1); }
pub broadcast proof fn thm_dirs_fn(b: BlockStmt, f: Ident, k: Seq<char>, i: u32, j: Option<u32>) ensures same_dirs((#[trigger] fn_body(b, z_ctr(f, k, i, j))).stmts@, b.stmts@)
{ broadcast use ax_ctr_form, vecs; lem_prologue_end(b.stmts@); lem_dirs_insert(b.stmts@, prologue(b.stmts@) as int, stmt_of(z_ctr(f, k, i, j))); }
pub broadcast proof fn thm_dirs_expr(f: Ident, k: Seq<char>, i: u32, j: Option<u32>, r: Stmt) ensures prologue(#[trigger] seq![stmt_of(z_ctr(f, k, i, j))].push(r)) == 0
{ broadcast use ax_ctr_form; lem_prologue(seq![stmt_of(z_ctr(f, k, i, j))].push(r), 0); }
pub broadcast group dirs { thm_dirs_expr, thm_dirs_stmts, thm_dirs_items, thm_dirs_lines, thm_dirs_module, thm_dirs_script, thm_dirs_fn }

// --- ignored code stays as it is (one step of the induction over the tree: `z_kids` of the same node stands for the smaller parts)
pub proof fn thm_ignored_stmts(s: Seq<Stmt>, x: Ctx, c: Rec) requires off(x) ensures z_stmts(s, x, c) == keep(s, c) decreases s.len()
{ if s.len() > 0 { thm_ignored_stmts(s.drop_last(), x, c); assert(s.drop_last() + seq![s.last()] =~= s); } }
pub proof fn thm_ignored_fn_decl(n: FnDecl, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_fn_decl(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_fn_expr(n: FnExpr, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_fn_expr(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_class_method(n: ClassMethod, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_class_method(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_constructor(n: Constructor, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_constructor(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_private_method(n: PrivateMethod, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_private_method(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_method_prop(n: MethodProp, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_method_prop(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_getter(n: GetterProp, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_getter(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_setter(n: SetterProp, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_setter(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_arrow(n: ArrowExpr, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_arrow(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_cond(n: CondExpr, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_cond(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_if(n: IfStmt, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_if(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_switch(n: SwitchStmt, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_switch(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_assign_pat(n: AssignPat, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_assign_pat(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_assign_pat_prop(n: AssignPatProp, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_assign_pat_prop(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_declarator(n: VarDeclarator, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_declarator(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_class_prop(n: ClassProp, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_class_prop(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_private_prop(n: PrivateProp, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_private_prop(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_expr_stmt(n: ExprStmt, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_expr_stmt(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_with(n: WithStmt, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures do_with(n, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_case(n: SwitchCase, b: int, x: Ctx, c: Rec) requires off(x) ensures do_case(n, b, z_inside(x, n), c) == keep(n, c) { }
pub proof fn thm_ignored_bin(n: BinExpr, b: int, x: Ctx, c: Rec) requires off(x), z_kids(n, bin_x(n, x), c) == keep(n, c) ensures do_bin(n, x, c) == keep(n, c), do_inner_bin(n, b, x, c) == keep(n, c) { }
pub proof fn thm_ignored_counted<N: VxHint>(n: N, sp: Span, x: Ctx, c: Rec) requires off(x), z_kids(n, z_inside(x, n), c) == keep(n, c) ensures counted(n, sp, z_inside(x, n), c) == keep(n, c), entered(n, z_inside(x, n), c) == keep(n, c), guarded(n, n, sp, z_inside(x, n), c) == keep(n, c) { }
// --- the entries of a list of statements are those of its parts, one after the other
pub proof fn thm_parts_stmts(s: Seq<Stmt>, t: Seq<Stmt>, x: Ctx, c: Rec) ensures ({ let a = z_stmts(s, x, c); let b = z_stmts(t, x, a.c); z_stmts(s + t, x, c) == (Out { n: a.n + b.n, q: Seq::<Stmt>::empty(), c: b.c }) }) decreases t.len()
{
  if t.len() == 0 { assert(s + t =~= s); assert(z_stmts(s, x, c).n + t =~= z_stmts(s, x, c).n); } else {
    thm_parts_stmts(s, t.drop_last(), x, c);
    assert((s + t).drop_last() =~= s + t.drop_last());
    let a = z_stmts(s, x, c); let b = z_stmts(t.drop_last(), x, a.c);
    assert((a.n + b.n) + one(t.last(), x, b.c).n =~= a.n + (b.n + one(t.last(), x, b.c).n));
  }
}
pub proof fn thm_parts_items(s: Seq<ModuleItem>, t: Seq<ModuleItem>, x: Ctx, c: Rec) ensures ({ let a = z_items(s, x, c); let b = z_items(t, x, a.c); z_items(s + t, x, c) == (Out { n: a.n + b.n, q: Seq::<Stmt>::empty(), c: b.c }) }) decreases t.len()
{
  if t.len() == 0 { assert(s + t =~= s); assert(z_items(s, x, c).n + t =~= z_items(s, x, c).n); } else {
    thm_parts_items(s, t.drop_last(), x, c);
    assert((s + t).drop_last() =~= s + t.drop_last());
    let a = z_items(s, x, c); let b = z_items(t.drop_last(), x, a.c);
    assert((a.n + b.n) + one_item(t.last(), x, b.c).n =~= a.n + (b.n + one_item(t.last(), x, b.c).n));
  }
}
pub proof fn thm_parts_lines(s: Seq<Stmt>, t: Seq<Stmt>, x: Ctx, c: Rec) ensures ({ let a = z_lines(s, x, c); let b = z_lines(t, x, a.c); z_lines(s + t, x, c) == (Out { n: a.n + b.n, q: Seq::<Stmt>::empty(), c: b.c }) }) decreases t.len()
{
  if t.len() == 0 { assert(s + t =~= s); assert(z_lines(s, x, c).n + t =~= z_lines(s, x, c).n); } else {
    thm_parts_lines(s, t.drop_last(), x, c);
    assert((s + t).drop_last() =~= s + t.drop_last());
    let a = z_lines(s, x, c); let b = z_lines(t.drop_last(), x, a.c);
    assert((a.n + b.n) + one_line(t.last(), x, b.c).n =~= a.n + (b.n + one_line(t.last(), x, b.c).n));
  }
}
