%fn stmt_like_visitor.rs StmtVisitor::on_enter_with_span
%params span
%ret r
  ensures final(self).ctx() == (Ctx { ign: z_below(old(self).ctx().ign, match span { Some(s) => z_hint(old(self).ctx(), *s), None => None }), ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),
    r.0 == old(self).ctx().ign, r.1 == final(self).ctx().ign,


%fn stmt_like_visitor.rs StmtVisitor::on_exit
%params scope
  ensures final(self).ctx() == (Ctx { ign: scope, nodes: if old(self).ctx().nodes.len() > 0 { old(self).ctx().nodes.drop_last() } else { old(self).ctx().nodes }, ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),


%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<Expr>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<Stmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ModuleDecl>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ClassDecl>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<FnExpr>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<MethodProp>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<FnDecl>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<BinExpr>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<VarDeclarator>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<VarDecl>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<CondExpr>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ExprStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<IfStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<LabeledStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ContinueStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ClassProp>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<PrivateProp>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ClassMethod>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<Constructor>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<PrivateMethod>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ArrowExpr>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ForStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ForOfStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ForInStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<WhileStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<DoWhileStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<SwitchStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<SwitchCase>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<BreakStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ReturnStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<BlockStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<WithStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<TryStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ThrowStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ExportDecl>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<ExportDefaultDecl>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<DebuggerStmt>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<AssignPat>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<AssignPatProp>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<GetterProp>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<SetterProp>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs CoverageInstrumentationMutVisitEnter<TaggedTpl>@StmtVisitor::on_enter
%params n
%trait

%fn stmt_like_visitor.rs StmtVisitor::create_stmt_increase_counter_expr
%params span, idx
%ret r
  requires fits(*old(self), *old(vxw)),
    ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; () == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    r == z_ctr(old(self).ctx().f, "s"@, old(vxw).cov.rec().s.len() as u32, idx), // @tree
%start
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs StmtVisitor::mark_prepend_stmt_counter
%params span
  requires fits(*old(self), *old(vxw)),
    ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; () == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs StmtVisitor::replace_expr_with_stmt_counter
%params expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs StmtVisitor::replace_expr_with_branch_counter
%params expr, branch
  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs StmtVisitor::wrap_bin_expr_with_branch_counter
%params branch, expr
  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); !(z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); !(z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next)) ==> *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next) ==> *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs StmtVisitor::create_fn_instrumentation
%params ident, function
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); *final(function) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(function), old(self).ctx().f) == bare(*old(function), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    old(function).body is Some ==> final(function).body is Some && same_dirs((final(function).body->0).stmts@, (old(function).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(function), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs StmtVisitor::is_injected_counter_expr
%params expr
%ret r
  ensures r == injected(self.ctx().f, *expr),


%fn stmt_like_visitor.rs StmtVisitor::is_injected_counter_stmt
%params stmt
%ret r
  ensures r == injected_s(self.ctx().f, *stmt),


%fn stmt_like_visitor.rs StmtVisitor::cover_statement
%params expr
  requires fits(*old(self), *old(vxw)), old(self).ctx().nodes.len() > 0,
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs StmtVisitor::insert_stmts_counter
%params stmts
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); final(stmts)@ == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare_list(final(stmts)@, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    dirs_kept(final(stmts)@, old(stmts)@), // @dirs
%locals new_stmts=v0
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); bare_list(o.n, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
  assert(old(stmts)@.take(0) =~= Seq::empty() && old(stmts)@.take(old(stmts)@.len() as int) =~= old(stmts)@);
%loop 0
  self.ctx() == old(self).ctx(), self.bef() == old(self).bef(), self.same(*old(self)), fits(*self, *vxw), vxw.cov.path() == old(vxw).cov.path(),
  its0 == old(stmts)@,
  new_stmts@ == z_stmts(its0.take(it0.pos()), old(self).ctx(), old(vxw).cov.rec()).n, vxw.cov.rec() == z_stmts(its0.take(it0.pos()), old(self).ctx(), old(vxw).cov.rec()).c,
%loopstart 0
  proof { lem_stmts(its0, it0.pos() - 1, old(self).ctx(), old(vxw).cov.rec()); }


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_block_stmt
%params block_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(block_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(block_stmt)))) ==> *final(block_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(block_stmt), old(self).ctx().f) == bare(*old(block_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(block_stmt))) ==> *final(block_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); like(o, *old(block_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_class_decl
%params class_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_decl)))) ==> *final(class_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(class_decl), old(self).ctx().f) == bare(*old(class_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(class_decl))) ==> *final(class_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); like(o, *old(class_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_fn_decl
%params fn_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_decl)))) ==> *final(fn_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(fn_decl), old(self).ctx().f) == bare(*old(fn_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(fn_decl))) ==> *final(fn_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); like(o, *old(fn_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_arrow_expr
%params arrow_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(arrow_expr)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(arrow_expr)))) ==> *final(arrow_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(arrow_expr), old(self).ctx().f) == bare(*old(arrow_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(arrow_expr))) ==> *final(arrow_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    match (*old(arrow_expr).body, *final(arrow_expr).body) { (BlockStmtOrExpr::BlockStmt(a), BlockStmtOrExpr::BlockStmt(b)) => same_dirs(b.stmts@, a.stmts@), (BlockStmtOrExpr::BlockStmt(a), _) => false, _ => true }, // @dirs
    match (*old(arrow_expr).body, *final(arrow_expr).body) { (BlockStmtOrExpr::Expr(_), BlockStmtOrExpr::BlockStmt(b)) => prologue(b.stmts@) == 0, _ => true }, // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); like(o, *old(arrow_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_stmts
%params stmts
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); final(stmts)@ == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare_list(final(stmts)@, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    dirs_kept(final(stmts)@, old(stmts)@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); bare_list(o.n, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_fn_expr
%params fn_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_expr))) || (old(fn_expr).ident is Some && unwanted(z_inside(old(self).ctx(), *old(fn_expr)), old(fn_expr).ident->0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_expr))) || (old(fn_expr).ident is Some && unwanted(z_inside(old(self).ctx(), *old(fn_expr)), old(fn_expr).ident->0.sym@))) ==> *final(fn_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(fn_expr), old(self).ctx().f) == bare(*old(fn_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(fn_expr))) || (old(fn_expr).ident is Some && unwanted(z_inside(old(self).ctx(), *old(fn_expr)), old(fn_expr).ident->0.sym@)) ==> *final(fn_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); like(o, *old(fn_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, fn_expr.ident->0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_expr_stmt
%params expr_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(expr_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(expr_stmt)))) ==> *final(expr_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr_stmt), old(self).ctx().f) == bare(*old(expr_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(expr_stmt))) ==> *final(expr_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); like(o, *old(expr_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_break_stmt
%params break_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(break_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(break_stmt)))) ==> *final(break_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(break_stmt), old(self).ctx().f) == bare(*old(break_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(break_stmt))) ==> *final(break_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); like(o, *old(break_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_return_stmt
%params return_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(return_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(return_stmt)))) ==> *final(return_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(return_stmt), old(self).ctx().f) == bare(*old(return_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(return_stmt))) ==> *final(return_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); like(o, *old(return_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_labeled_stmt
%params labeled_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(labeled_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(labeled_stmt)))) ==> *final(labeled_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(labeled_stmt), old(self).ctx().f) == bare(*old(labeled_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(labeled_stmt))) ==> *final(labeled_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); like(o, *old(labeled_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_continue_stmt
%params continue_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(continue_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(continue_stmt)))) ==> *final(continue_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(continue_stmt), old(self).ctx().f) == bare(*old(continue_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(continue_stmt))) ==> *final(continue_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); like(o, *old(continue_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_try_stmt
%params try_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(try_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(try_stmt)))) ==> *final(try_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(try_stmt), old(self).ctx().f) == bare(*old(try_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(try_stmt))) ==> *final(try_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); like(o, *old(try_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_throw_stmt
%params throw_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(throw_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(throw_stmt)))) ==> *final(throw_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(throw_stmt), old(self).ctx().f) == bare(*old(throw_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(throw_stmt))) ==> *final(throw_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); like(o, *old(throw_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_tagged_tpl
%params tagged_tpl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(tagged_tpl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(tagged_tpl)))) ==> *final(tagged_tpl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(tagged_tpl), old(self).ctx().f) == bare(*old(tagged_tpl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(tagged_tpl))) ==> *final(tagged_tpl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); like(o, *old(tagged_tpl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_for_stmt
%params for_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_stmt)))) ==> *final(for_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(for_stmt), old(self).ctx().f) == bare(*old(for_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(for_stmt))) ==> *final(for_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); like(o, *old(for_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_for_in_stmt
%params for_in_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_in_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_in_stmt)))) ==> *final(for_in_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(for_in_stmt), old(self).ctx().f) == bare(*old(for_in_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(for_in_stmt))) ==> *final(for_in_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); like(o, *old(for_in_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_for_of_stmt
%params for_of_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_of_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_of_stmt)))) ==> *final(for_of_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(for_of_stmt), old(self).ctx().f) == bare(*old(for_of_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(for_of_stmt))) ==> *final(for_of_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); like(o, *old(for_of_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_while_stmt
%params while_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(while_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(while_stmt)))) ==> *final(while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(while_stmt), old(self).ctx().f) == bare(*old(while_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(while_stmt))) ==> *final(while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); like(o, *old(while_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_do_while_stmt
%params do_while_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(do_while_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(do_while_stmt)))) ==> *final(do_while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(do_while_stmt), old(self).ctx().f) == bare(*old(do_while_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(do_while_stmt))) ==> *final(do_while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); like(o, *old(do_while_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_cond_expr
%params cond_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(cond_expr))) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).cons)) == Some("next"@) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).alt)) == Some("next"@)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(cond_expr))) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).cons)) == Some("next"@) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).alt)) == Some("next"@)) ==> *final(cond_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(cond_expr), old(self).ctx().f) == bare(*old(cond_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(cond_expr))) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).cons)) == Some("next"@) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).alt)) == Some("next"@) ==> *final(cond_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); like(o, *old(cond_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_var_decl
%params var_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(var_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(var_decl)))) ==> *final(var_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(var_decl), old(self).ctx().f) == bare(*old(var_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(var_decl))) ==> *final(var_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); like(o, *old(var_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_class_prop
%params class_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_prop)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_prop)))) ==> *final(class_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(class_prop), old(self).ctx().f) == bare(*old(class_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(class_prop))) ==> *final(class_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); like(o, *old(class_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_private_prop
%params private_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_prop)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_prop)))) ==> *final(private_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(private_prop), old(self).ctx().f) == bare(*old(private_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(private_prop))) ==> *final(private_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); like(o, *old(private_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_class_method
%params class_method
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_method))) || (old(class_method).key is Ident && unwanted(z_inside(old(self).ctx(), *old(class_method)), old(class_method).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_method))) || (old(class_method).key is Ident && unwanted(z_inside(old(self).ctx(), *old(class_method)), old(class_method).key->Ident_0.sym@))) ==> *final(class_method) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(class_method), old(self).ctx().f) == bare(*old(class_method), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(class_method))) || (old(class_method).key is Ident && unwanted(z_inside(old(self).ctx(), *old(class_method)), old(class_method).key->Ident_0.sym@)) ==> *final(class_method) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); like(o, *old(class_method), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, class_method.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_method_prop
%params method_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(method_prop))) || (old(method_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(method_prop)), old(method_prop).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(method_prop))) || (old(method_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(method_prop)), old(method_prop).key->Ident_0.sym@))) ==> *final(method_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(method_prop), old(self).ctx().f) == bare(*old(method_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(method_prop))) || (old(method_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(method_prop)), old(method_prop).key->Ident_0.sym@)) ==> *final(method_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); like(o, *old(method_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, method_prop.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_private_method
%params private_method
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_method)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_method)))) ==> *final(private_method) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(private_method), old(self).ctx().f) == bare(*old(private_method), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(private_method))) ==> *final(private_method) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); like(o, *old(private_method), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_constructor
%params constructor
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(constructor))) || unwanted(z_inside(old(self).ctx(), *old(constructor)), "constructor"@)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(constructor))) || unwanted(z_inside(old(self).ctx(), *old(constructor)), "constructor"@)) ==> *final(constructor) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(constructor), old(self).ctx().f) == bare(*old(constructor), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(constructor))) || unwanted(z_inside(old(self).ctx(), *old(constructor)), "constructor"@) ==> *final(constructor) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    old(constructor).body is Some ==> *final(constructor) == *old(constructor) || exists|m: Constructor, c: Rec| *final(constructor) == (#[trigger] z_kids(m, z_inside(old(self).ctx(), *old(constructor)), c)).n && m == (Constructor { body: m.body, ..*old(constructor) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(constructor).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); like(o, *old(constructor), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, "constructor"@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_getter_prop
%params getter_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(getter_prop))) || (old(getter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(getter_prop)), old(getter_prop).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(getter_prop))) || (old(getter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(getter_prop)), old(getter_prop).key->Ident_0.sym@))) ==> *final(getter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(getter_prop), old(self).ctx().f) == bare(*old(getter_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(getter_prop))) || (old(getter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(getter_prop)), old(getter_prop).key->Ident_0.sym@)) ==> *final(getter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    old(getter_prop).body is Some ==> *final(getter_prop) == *old(getter_prop) || exists|m: GetterProp, c: Rec| *final(getter_prop) == (#[trigger] z_kids(m, z_inside(old(self).ctx(), *old(getter_prop)), c)).n && m == (GetterProp { body: m.body, ..*old(getter_prop) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(getter_prop).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); like(o, *old(getter_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, getter_prop.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_setter_prop
%params setter_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(setter_prop))) || (old(setter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(setter_prop)), old(setter_prop).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(setter_prop))) || (old(setter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(setter_prop)), old(setter_prop).key->Ident_0.sym@))) ==> *final(setter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(setter_prop), old(self).ctx().f) == bare(*old(setter_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(setter_prop))) || (old(setter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(setter_prop)), old(setter_prop).key->Ident_0.sym@)) ==> *final(setter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    old(setter_prop).body is Some ==> *final(setter_prop) == *old(setter_prop) || exists|m: SetterProp, c: Rec| *final(setter_prop) == (#[trigger] z_kids(m, z_inside(old(self).ctx(), *old(setter_prop)), c)).n && m == (SetterProp { body: m.body, ..*old(setter_prop) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(setter_prop).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); like(o, *old(setter_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, setter_prop.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_var_declarator
%params declarator
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(declarator)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(declarator)))) ==> *final(declarator) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(declarator), old(self).ctx().f) == bare(*old(declarator), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(declarator))) ==> *final(declarator) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); like(o, *old(declarator), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_switch_stmt
%params switch_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(switch_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(switch_stmt)))) ==> *final(switch_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(switch_stmt), old(self).ctx().f) == bare(*old(switch_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(switch_stmt))) ==> *final(switch_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); like(o, *old(switch_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_if_stmt
%params if_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(if_stmt))) || z_inside(old(self).ctx(), *old(if_stmt)).ign is Some) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(if_stmt))) || z_inside(old(self).ctx(), *old(if_stmt)).ign is Some) ==> *final(if_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(if_stmt), old(self).ctx().f) == bare(*old(if_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(if_stmt))) || z_inside(old(self).ctx(), *old(if_stmt)).ign is Some ==> *final(if_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); like(o, *old(if_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_bin_expr
%params bin_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(bin_expr)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(bin_expr)))) ==> *final(bin_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(bin_expr), old(self).ctx().f) == bare(*old(bin_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(bin_expr))) ==> *final(bin_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(bin_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_assign_pat
%params assign_pat
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat))) || z_hint(z_inside(old(self).ctx(), *old(assign_pat)), span_of(*old(assign_pat).right)) == Some(IgnoreScope::Next)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat))) || z_hint(z_inside(old(self).ctx(), *old(assign_pat)), span_of(*old(assign_pat).right)) == Some(IgnoreScope::Next)) ==> *final(assign_pat) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(assign_pat), old(self).ctx().f) == bare(*old(assign_pat), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(assign_pat))) || z_hint(z_inside(old(self).ctx(), *old(assign_pat)), span_of(*old(assign_pat).right)) == Some(IgnoreScope::Next) ==> *final(assign_pat) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); like(o, *old(assign_pat), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_assign_pat_prop
%params assign_pat_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat_prop))) || old(assign_pat_prop).value is None || z_hint(z_inside(old(self).ctx(), *old(assign_pat_prop)), span_of(*old(assign_pat_prop).value->0)) == Some(IgnoreScope::Next)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat_prop))) || old(assign_pat_prop).value is None || z_hint(z_inside(old(self).ctx(), *old(assign_pat_prop)), span_of(*old(assign_pat_prop).value->0)) == Some(IgnoreScope::Next)) ==> *final(assign_pat_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(assign_pat_prop), old(self).ctx().f) == bare(*old(assign_pat_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(assign_pat_prop))) || old(assign_pat_prop).value is None || z_hint(z_inside(old(self).ctx(), *old(assign_pat_prop)), span_of(*old(assign_pat_prop).value->0)) == Some(IgnoreScope::Next) ==> *final(assign_pat_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); like(o, *old(assign_pat_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn stmt_like_visitor.rs VisitMut@StmtVisitor::visit_mut_with_stmt
%params with_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(with_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(with_stmt)))) ==> *final(with_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(with_stmt), old(self).ctx().f) == bare(*old(with_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(with_stmt))) ==> *final(with_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); like(o, *old(with_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%impl stmt_like_visitor.rs VisitMut@StmtVisitor
%params n
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); *final(n) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(n), old(self).ctx().f) == bare(*old(n), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(n), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
