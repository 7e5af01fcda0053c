%fn logical_expr_visitor.rs LogicalExprVisitor::on_enter_with_span
%params span
%ret r
  ensures final(self).ctx() == (Ctx { ign: z_below(old(self).ctx().ign, match span { Some(s) => z_hint(old(self).ctx(), *s), None => None }), ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),
    r.0 == old(self).ctx().ign, r.1 == final(self).ctx().ign,


%fn logical_expr_visitor.rs LogicalExprVisitor::on_exit
%params scope
  ensures final(self).ctx() == (Ctx { ign: scope, nodes: if old(self).ctx().nodes.len() > 0 { old(self).ctx().nodes.drop_last() } else { old(self).ctx().nodes }, ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),


%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<Expr>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<Stmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ModuleDecl>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ClassDecl>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<FnExpr>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<MethodProp>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<FnDecl>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<BinExpr>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<VarDeclarator>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<VarDecl>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<CondExpr>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ExprStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<IfStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<LabeledStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ContinueStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ClassProp>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<PrivateProp>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ClassMethod>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<Constructor>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<PrivateMethod>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ArrowExpr>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ForStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ForOfStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ForInStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<WhileStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<DoWhileStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<SwitchStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<SwitchCase>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<BreakStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ReturnStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<BlockStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<WithStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<TryStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ThrowStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ExportDecl>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<ExportDefaultDecl>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<DebuggerStmt>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<AssignPat>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<AssignPatProp>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<GetterProp>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<SetterProp>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs CoverageInstrumentationMutVisitEnter<TaggedTpl>@LogicalExprVisitor::on_enter
%params n
%trait

%fn logical_expr_visitor.rs LogicalExprVisitor::replace_expr_with_stmt_counter
%params expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn logical_expr_visitor.rs LogicalExprVisitor::replace_expr_with_branch_counter
%params expr, branch
  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn logical_expr_visitor.rs LogicalExprVisitor::wrap_bin_expr_with_branch_counter
%params branch, expr
  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); !(z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); !(z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next)) ==> *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next) ==> *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn logical_expr_visitor.rs VisitMut@LogicalExprVisitor::visit_mut_expr
%params expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(expr), z_inside(old(self).ctx(), *old(expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_kids(*old(expr), z_inside(old(self).ctx(), *old(expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_kids(*old(expr), z_inside(old(self).ctx(), *old(expr)), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_kids(*old(expr), z_inside(old(self).ctx(), *old(expr)), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn logical_expr_visitor.rs VisitMut@LogicalExprVisitor::visit_mut_bin_expr
%params bin_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_inner_bin(*old(bin_expr), old(self).branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_inner_bin(*old(bin_expr), old(self).branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_inner_bin(*old(bin_expr), old(self).branch as int, old(self).ctx(), old(vxw).cov.rec()); *final(bin_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(bin_expr), old(self).ctx().f) == bare(*old(bin_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_inner_bin(*old(bin_expr), old(self).branch as int, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(bin_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%impl logical_expr_visitor.rs VisitMut@LogicalExprVisitor
%params n
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); *final(n) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(n), old(self).ctx().f) == bare(*old(n), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(n), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
