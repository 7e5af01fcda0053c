%fn coverage_visitor.rs CoverageVisitor::on_enter_with_span
%params span
%ret r
  ensures final(self).ctx() == (Ctx { ign: z_below(old(self).ctx().ign, match span { Some(s) => z_hint(old(self).ctx(), *s), None => None }), ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),
    r.0 == old(self).ctx().ign, r.1 == final(self).ctx().ign,


%fn coverage_visitor.rs CoverageVisitor::on_exit
%params scope
  ensures final(self).ctx() == (Ctx { ign: scope, nodes: if old(self).ctx().nodes.len() > 0 { old(self).ctx().nodes.drop_last() } else { old(self).ctx().nodes }, ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),


%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<Expr>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<Stmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ModuleDecl>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ClassDecl>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<FnExpr>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<MethodProp>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<FnDecl>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<BinExpr>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<VarDeclarator>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<VarDecl>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<CondExpr>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ExprStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<IfStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<LabeledStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ContinueStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ClassProp>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<PrivateProp>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ClassMethod>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<Constructor>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<PrivateMethod>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ArrowExpr>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ForStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ForOfStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ForInStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<WhileStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<DoWhileStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<SwitchStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<SwitchCase>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<BreakStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ReturnStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<BlockStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<WithStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<TryStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ThrowStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ExportDecl>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<ExportDefaultDecl>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<DebuggerStmt>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<AssignPat>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<AssignPatProp>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<GetterProp>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<SetterProp>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageInstrumentationMutVisitEnter<TaggedTpl>@CoverageVisitor::on_enter
%params n
%trait

%fn coverage_visitor.rs CoverageVisitor::create_stmt_increase_counter_expr
%params span, idx
%ret r
  requires fits(*old(self), *old(vxw)),
    ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; () == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    r == z_ctr(old(self).ctx().f, "s"@, old(vxw).cov.rec().s.len() as u32, idx), // @tree
%start
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::mark_prepend_stmt_counter
%params span
  requires fits(*old(self), *old(vxw)),
    ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; () == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }; counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::replace_expr_with_stmt_counter
%params expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = expr_counted(*old(expr), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::replace_expr_with_branch_counter
%params expr, branch
  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_arm(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::wrap_bin_expr_with_branch_counter
%params branch, expr
  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); !(z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); !(z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next)) ==> *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next) ==> *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_operand(*old(expr), branch as int, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::create_fn_instrumentation
%params ident, function
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); *final(function) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(function), old(self).ctx().f) == bare(*old(function), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    old(function).body is Some ==> final(function).body is Some && same_dirs((final(function).body->0).stmts@, (old(function).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_instr(*old(function), *ident, old(self).ctx(), old(vxw).cov.rec()); like(o, *old(function), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::is_injected_counter_expr
%params expr
%ret r
  ensures r == injected(self.ctx().f, *expr),


%fn coverage_visitor.rs CoverageVisitor::is_injected_counter_stmt
%params stmt
%ret r
  ensures r == injected_s(self.ctx().f, *stmt),


%fn coverage_visitor.rs CoverageVisitor::cover_statement
%params expr
  requires fits(*old(self), *old(vxw)), old(self).ctx().nodes.len() > 0,
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); *final(expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr), old(self).ctx().f) == bare(*old(expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_cover(*old(expr), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::insert_stmts_counter
%params stmts
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); final(stmts)@ == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare_list(final(stmts)@, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    dirs_kept(final(stmts)@, old(stmts)@), // @dirs
%locals new_stmts=v0
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_stmts(old(stmts)@, old(self).ctx(), old(vxw).cov.rec()); bare_list(o.n, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
  assert(old(stmts)@.take(0) =~= Seq::empty() && old(stmts)@.take(old(stmts)@.len() as int) =~= old(stmts)@);
%loop 0
  self.ctx() == old(self).ctx(), self.bef() == old(self).bef(), self.same(*old(self)), fits(*self, *vxw), vxw.cov.path() == old(vxw).cov.path(),
  its0 == old(stmts)@,
  new_stmts@ == z_stmts(its0.take(it0.pos()), old(self).ctx(), old(vxw).cov.rec()).n, vxw.cov.rec() == z_stmts(its0.take(it0.pos()), old(self).ctx(), old(vxw).cov.rec()).c,
%loopstart 0
  proof { lem_stmts(its0, it0.pos() - 1, old(self).ctx(), old(vxw).cov.rec()); }


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_block_stmt
%params block_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(block_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(block_stmt)))) ==> *final(block_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(block_stmt), old(self).ctx().f) == bare(*old(block_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(block_stmt))) ==> *final(block_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = entered(*old(block_stmt), z_inside(old(self).ctx(), *old(block_stmt)), old(vxw).cov.rec()); like(o, *old(block_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_class_decl
%params class_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_decl)))) ==> *final(class_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(class_decl), old(self).ctx().f) == bare(*old(class_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(class_decl))) ==> *final(class_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = entered(*old(class_decl), z_inside(old(self).ctx(), *old(class_decl)), old(vxw).cov.rec()); like(o, *old(class_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_fn_decl
%params fn_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_decl)))) ==> *final(fn_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(fn_decl), old(self).ctx().f) == bare(*old(fn_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(fn_decl))) ==> *final(fn_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_fn_decl(*old(fn_decl), z_inside(old(self).ctx(), *old(fn_decl)), old(vxw).cov.rec()); like(o, *old(fn_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_arrow_expr
%params arrow_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(arrow_expr)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(arrow_expr)))) ==> *final(arrow_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(arrow_expr), old(self).ctx().f) == bare(*old(arrow_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(arrow_expr))) ==> *final(arrow_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    match (*old(arrow_expr).body, *final(arrow_expr).body) { (BlockStmtOrExpr::BlockStmt(a), BlockStmtOrExpr::BlockStmt(b)) => same_dirs(b.stmts@, a.stmts@), (BlockStmtOrExpr::BlockStmt(a), _) => false, _ => true }, // @dirs
    match (*old(arrow_expr).body, *final(arrow_expr).body) { (BlockStmtOrExpr::Expr(_), BlockStmtOrExpr::BlockStmt(b)) => prologue(b.stmts@) == 0, _ => true }, // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_arrow(*old(arrow_expr), z_inside(old(self).ctx(), *old(arrow_expr)), old(vxw).cov.rec()); like(o, *old(arrow_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_stmts
%params stmts
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); final(stmts)@ == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare_list(final(stmts)@, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    dirs_kept(final(stmts)@, old(stmts)@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_stmts(old(stmts)@, Ctx { nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }, old(vxw).cov.rec()); bare_list(o.n, old(self).ctx().f) == bare_list(old(stmts)@, old(self).ctx().f) && counters(o.q, old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_fn_expr
%params fn_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_expr))) || (old(fn_expr).ident is Some && unwanted(z_inside(old(self).ctx(), *old(fn_expr)), old(fn_expr).ident->0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(fn_expr))) || (old(fn_expr).ident is Some && unwanted(z_inside(old(self).ctx(), *old(fn_expr)), old(fn_expr).ident->0.sym@))) ==> *final(fn_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(fn_expr), old(self).ctx().f) == bare(*old(fn_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(fn_expr))) || (old(fn_expr).ident is Some && unwanted(z_inside(old(self).ctx(), *old(fn_expr)), old(fn_expr).ident->0.sym@)) ==> *final(fn_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_fn_expr(*old(fn_expr), z_inside(old(self).ctx(), *old(fn_expr)), old(vxw).cov.rec()); like(o, *old(fn_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, fn_expr.ident->0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_expr_stmt
%params expr_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(expr_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(expr_stmt)))) ==> *final(expr_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(expr_stmt), old(self).ctx().f) == bare(*old(expr_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(expr_stmt))) ==> *final(expr_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_expr_stmt(*old(expr_stmt), z_inside(old(self).ctx(), *old(expr_stmt)), old(vxw).cov.rec()); like(o, *old(expr_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_break_stmt
%params break_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(break_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(break_stmt)))) ==> *final(break_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(break_stmt), old(self).ctx().f) == bare(*old(break_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(break_stmt))) ==> *final(break_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(break_stmt), old(break_stmt).span, z_inside(old(self).ctx(), *old(break_stmt)), old(vxw).cov.rec()); like(o, *old(break_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_return_stmt
%params return_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(return_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(return_stmt)))) ==> *final(return_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(return_stmt), old(self).ctx().f) == bare(*old(return_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(return_stmt))) ==> *final(return_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(return_stmt), old(return_stmt).span, z_inside(old(self).ctx(), *old(return_stmt)), old(vxw).cov.rec()); like(o, *old(return_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_labeled_stmt
%params labeled_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(labeled_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(labeled_stmt)))) ==> *final(labeled_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(labeled_stmt), old(self).ctx().f) == bare(*old(labeled_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(labeled_stmt))) ==> *final(labeled_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(labeled_stmt), old(labeled_stmt).span, z_inside(old(self).ctx(), *old(labeled_stmt)), old(vxw).cov.rec()); like(o, *old(labeled_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_continue_stmt
%params continue_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(continue_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(continue_stmt)))) ==> *final(continue_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(continue_stmt), old(self).ctx().f) == bare(*old(continue_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(continue_stmt))) ==> *final(continue_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = counted(*old(continue_stmt), old(continue_stmt).span, z_inside(old(self).ctx(), *old(continue_stmt)), old(vxw).cov.rec()); like(o, *old(continue_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_try_stmt
%params try_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(try_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(try_stmt)))) ==> *final(try_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(try_stmt), old(self).ctx().f) == bare(*old(try_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(try_stmt))) ==> *final(try_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(try_stmt), *old(try_stmt), old(try_stmt).span, z_inside(old(self).ctx(), *old(try_stmt)), old(vxw).cov.rec()); like(o, *old(try_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_throw_stmt
%params throw_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(throw_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(throw_stmt)))) ==> *final(throw_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(throw_stmt), old(self).ctx().f) == bare(*old(throw_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(throw_stmt))) ==> *final(throw_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(throw_stmt), *old(throw_stmt), old(throw_stmt).span, z_inside(old(self).ctx(), *old(throw_stmt)), old(vxw).cov.rec()); like(o, *old(throw_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_tagged_tpl
%params tagged_tpl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(tagged_tpl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(tagged_tpl)))) ==> *final(tagged_tpl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(tagged_tpl), old(self).ctx().f) == bare(*old(tagged_tpl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(tagged_tpl))) ==> *final(tagged_tpl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(tagged_tpl), *old(tagged_tpl), old(tagged_tpl).span, z_inside(old(self).ctx(), *old(tagged_tpl)), old(vxw).cov.rec()); like(o, *old(tagged_tpl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_for_stmt
%params for_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_stmt)))) ==> *final(for_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(for_stmt), old(self).ctx().f) == bare(*old(for_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(for_stmt))) ==> *final(for_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(for_stmt), ForStmt { body: Box::new(z_block(*old(for_stmt).body)), ..*old(for_stmt) }, old(for_stmt).span, z_inside(old(self).ctx(), *old(for_stmt)), old(vxw).cov.rec()); like(o, *old(for_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_for_in_stmt
%params for_in_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_in_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_in_stmt)))) ==> *final(for_in_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(for_in_stmt), old(self).ctx().f) == bare(*old(for_in_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(for_in_stmt))) ==> *final(for_in_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(for_in_stmt), ForInStmt { body: Box::new(z_block(*old(for_in_stmt).body)), ..*old(for_in_stmt) }, old(for_in_stmt).span, z_inside(old(self).ctx(), *old(for_in_stmt)), old(vxw).cov.rec()); like(o, *old(for_in_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_for_of_stmt
%params for_of_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_of_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(for_of_stmt)))) ==> *final(for_of_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(for_of_stmt), old(self).ctx().f) == bare(*old(for_of_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(for_of_stmt))) ==> *final(for_of_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(for_of_stmt), ForOfStmt { body: Box::new(z_block(*old(for_of_stmt).body)), ..*old(for_of_stmt) }, old(for_of_stmt).span, z_inside(old(self).ctx(), *old(for_of_stmt)), old(vxw).cov.rec()); like(o, *old(for_of_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_while_stmt
%params while_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(while_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(while_stmt)))) ==> *final(while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(while_stmt), old(self).ctx().f) == bare(*old(while_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(while_stmt))) ==> *final(while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(while_stmt), WhileStmt { body: Box::new(z_block(*old(while_stmt).body)), ..*old(while_stmt) }, old(while_stmt).span, z_inside(old(self).ctx(), *old(while_stmt)), old(vxw).cov.rec()); like(o, *old(while_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_do_while_stmt
%params do_while_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(do_while_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(do_while_stmt)))) ==> *final(do_while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(do_while_stmt), old(self).ctx().f) == bare(*old(do_while_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(do_while_stmt))) ==> *final(do_while_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = guarded(*old(do_while_stmt), DoWhileStmt { body: Box::new(z_block(*old(do_while_stmt).body)), ..*old(do_while_stmt) }, old(do_while_stmt).span, z_inside(old(self).ctx(), *old(do_while_stmt)), old(vxw).cov.rec()); like(o, *old(do_while_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_cond_expr
%params cond_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(cond_expr))) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).cons)) == Some("next"@) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).alt)) == Some("next"@)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(cond_expr))) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).cons)) == Some("next"@) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).alt)) == Some("next"@)) ==> *final(cond_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(cond_expr), old(self).ctx().f) == bare(*old(cond_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(cond_expr))) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).cons)) == Some("next"@) || text(z_inside(old(self).ctx(), *old(cond_expr)), span_of(*old(cond_expr).alt)) == Some("next"@) ==> *final(cond_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_cond(*old(cond_expr), z_inside(old(self).ctx(), *old(cond_expr)), old(vxw).cov.rec()); like(o, *old(cond_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_var_decl
%params var_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(var_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(var_decl)))) ==> *final(var_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(var_decl), old(self).ctx().f) == bare(*old(var_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(var_decl))) ==> *final(var_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_kids(*old(var_decl), z_inside(old(self).ctx(), *old(var_decl)), old(vxw).cov.rec()); like(o, *old(var_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_class_prop
%params class_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_prop)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_prop)))) ==> *final(class_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(class_prop), old(self).ctx().f) == bare(*old(class_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(class_prop))) ==> *final(class_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_class_prop(*old(class_prop), z_inside(old(self).ctx(), *old(class_prop)), old(vxw).cov.rec()); like(o, *old(class_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_private_prop
%params private_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_prop)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_prop)))) ==> *final(private_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(private_prop), old(self).ctx().f) == bare(*old(private_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(private_prop))) ==> *final(private_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_private_prop(*old(private_prop), z_inside(old(self).ctx(), *old(private_prop)), old(vxw).cov.rec()); like(o, *old(private_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_class_method
%params class_method
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_method))) || (old(class_method).key is Ident && unwanted(z_inside(old(self).ctx(), *old(class_method)), old(class_method).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(class_method))) || (old(class_method).key is Ident && unwanted(z_inside(old(self).ctx(), *old(class_method)), old(class_method).key->Ident_0.sym@))) ==> *final(class_method) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(class_method), old(self).ctx().f) == bare(*old(class_method), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(class_method))) || (old(class_method).key is Ident && unwanted(z_inside(old(self).ctx(), *old(class_method)), old(class_method).key->Ident_0.sym@)) ==> *final(class_method) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_class_method(*old(class_method), z_inside(old(self).ctx(), *old(class_method)), old(vxw).cov.rec()); like(o, *old(class_method), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, class_method.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_method_prop
%params method_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(method_prop))) || (old(method_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(method_prop)), old(method_prop).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(method_prop))) || (old(method_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(method_prop)), old(method_prop).key->Ident_0.sym@))) ==> *final(method_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(method_prop), old(self).ctx().f) == bare(*old(method_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(method_prop))) || (old(method_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(method_prop)), old(method_prop).key->Ident_0.sym@)) ==> *final(method_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_method_prop(*old(method_prop), z_inside(old(self).ctx(), *old(method_prop)), old(vxw).cov.rec()); like(o, *old(method_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, method_prop.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_private_method
%params private_method
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_method)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(private_method)))) ==> *final(private_method) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(private_method), old(self).ctx().f) == bare(*old(private_method), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(private_method))) ==> *final(private_method) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_private_method(*old(private_method), z_inside(old(self).ctx(), *old(private_method)), old(vxw).cov.rec()); like(o, *old(private_method), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_constructor
%params constructor
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(constructor))) || unwanted(z_inside(old(self).ctx(), *old(constructor)), "constructor"@)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(constructor))) || unwanted(z_inside(old(self).ctx(), *old(constructor)), "constructor"@)) ==> *final(constructor) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(constructor), old(self).ctx().f) == bare(*old(constructor), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(constructor))) || unwanted(z_inside(old(self).ctx(), *old(constructor)), "constructor"@) ==> *final(constructor) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    old(constructor).body is Some ==> *final(constructor) == *old(constructor) || exists|m: Constructor, c: Rec| *final(constructor) == (#[trigger] z_kids(m, z_inside(old(self).ctx(), *old(constructor)), c)).n && m == (Constructor { body: m.body, ..*old(constructor) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(constructor).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_constructor(*old(constructor), z_inside(old(self).ctx(), *old(constructor)), old(vxw).cov.rec()); like(o, *old(constructor), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, "constructor"@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_getter_prop
%params getter_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(getter_prop))) || (old(getter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(getter_prop)), old(getter_prop).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(getter_prop))) || (old(getter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(getter_prop)), old(getter_prop).key->Ident_0.sym@))) ==> *final(getter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(getter_prop), old(self).ctx().f) == bare(*old(getter_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(getter_prop))) || (old(getter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(getter_prop)), old(getter_prop).key->Ident_0.sym@)) ==> *final(getter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    old(getter_prop).body is Some ==> *final(getter_prop) == *old(getter_prop) || exists|m: GetterProp, c: Rec| *final(getter_prop) == (#[trigger] z_kids(m, z_inside(old(self).ctx(), *old(getter_prop)), c)).n && m == (GetterProp { body: m.body, ..*old(getter_prop) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(getter_prop).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_getter(*old(getter_prop), z_inside(old(self).ctx(), *old(getter_prop)), old(vxw).cov.rec()); like(o, *old(getter_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, getter_prop.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_setter_prop
%params setter_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(setter_prop))) || (old(setter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(setter_prop)), old(setter_prop).key->Ident_0.sym@))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(setter_prop))) || (old(setter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(setter_prop)), old(setter_prop).key->Ident_0.sym@))) ==> *final(setter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(setter_prop), old(self).ctx().f) == bare(*old(setter_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(setter_prop))) || (old(setter_prop).key is Ident && unwanted(z_inside(old(self).ctx(), *old(setter_prop)), old(setter_prop).key->Ident_0.sym@)) ==> *final(setter_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
    old(setter_prop).body is Some ==> *final(setter_prop) == *old(setter_prop) || exists|m: SetterProp, c: Rec| *final(setter_prop) == (#[trigger] z_kids(m, z_inside(old(self).ctx(), *old(setter_prop)), c)).n && m == (SetterProp { body: m.body, ..*old(setter_prop) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(setter_prop).body->0).stmts@), // @dirs
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_setter(*old(setter_prop), z_inside(old(self).ctx(), *old(setter_prop)), old(vxw).cov.rec()); like(o, *old(setter_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, setter_prop.key->Ident_0.sym@), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_var_declarator
%params declarator
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(declarator)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(declarator)))) ==> *final(declarator) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(declarator), old(self).ctx().f) == bare(*old(declarator), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(declarator))) ==> *final(declarator) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_declarator(*old(declarator), z_inside(old(self).ctx(), *old(declarator)), old(vxw).cov.rec()); like(o, *old(declarator), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_switch_stmt
%params switch_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(switch_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(switch_stmt)))) ==> *final(switch_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(switch_stmt), old(self).ctx().f) == bare(*old(switch_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(switch_stmt))) ==> *final(switch_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_switch(*old(switch_stmt), z_inside(old(self).ctx(), *old(switch_stmt)), old(vxw).cov.rec()); like(o, *old(switch_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_if_stmt
%params if_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(if_stmt))) || z_inside(old(self).ctx(), *old(if_stmt)).ign is Some) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(if_stmt))) || z_inside(old(self).ctx(), *old(if_stmt)).ign is Some) ==> *final(if_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(if_stmt), old(self).ctx().f) == bare(*old(if_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(if_stmt))) || z_inside(old(self).ctx(), *old(if_stmt)).ign is Some ==> *final(if_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_if(*old(if_stmt), z_inside(old(self).ctx(), *old(if_stmt)), old(vxw).cov.rec()); like(o, *old(if_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_bin_expr
%params bin_expr
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(bin_expr)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(bin_expr)))) ==> *final(bin_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(bin_expr), old(self).ctx().f) == bare(*old(bin_expr), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(bin_expr))) ==> *final(bin_expr) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_bin(*old(bin_expr), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(bin_expr), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_assign_pat
%params assign_pat
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat))) || z_hint(z_inside(old(self).ctx(), *old(assign_pat)), span_of(*old(assign_pat).right)) == Some(IgnoreScope::Next)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat))) || z_hint(z_inside(old(self).ctx(), *old(assign_pat)), span_of(*old(assign_pat).right)) == Some(IgnoreScope::Next)) ==> *final(assign_pat) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(assign_pat), old(self).ctx().f) == bare(*old(assign_pat), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(assign_pat))) || z_hint(z_inside(old(self).ctx(), *old(assign_pat)), span_of(*old(assign_pat).right)) == Some(IgnoreScope::Next) ==> *final(assign_pat) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_assign_pat(*old(assign_pat), z_inside(old(self).ctx(), *old(assign_pat)), old(vxw).cov.rec()); like(o, *old(assign_pat), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_assign_pat_prop
%params assign_pat_prop
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat_prop))) || old(assign_pat_prop).value is None || z_hint(z_inside(old(self).ctx(), *old(assign_pat_prop)), span_of(*old(assign_pat_prop).value->0)) == Some(IgnoreScope::Next)) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(assign_pat_prop))) || old(assign_pat_prop).value is None || z_hint(z_inside(old(self).ctx(), *old(assign_pat_prop)), span_of(*old(assign_pat_prop).value->0)) == Some(IgnoreScope::Next)) ==> *final(assign_pat_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(assign_pat_prop), old(self).ctx().f) == bare(*old(assign_pat_prop), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(assign_pat_prop))) || old(assign_pat_prop).value is None || z_hint(z_inside(old(self).ctx(), *old(assign_pat_prop)), span_of(*old(assign_pat_prop).value->0)) == Some(IgnoreScope::Next) ==> *final(assign_pat_prop) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_assign_pat_prop(*old(assign_pat_prop), z_inside(old(self).ctx(), *old(assign_pat_prop)), old(vxw).cov.rec()); like(o, *old(assign_pat_prop), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_with_stmt
%params with_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(with_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(with_stmt)))) ==> *final(with_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(with_stmt), old(self).ctx().f) == bare(*old(with_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(with_stmt))) ==> *final(with_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = do_with(*old(with_stmt), z_inside(old(self).ctx(), *old(with_stmt)), old(vxw).cov.rec()); like(o, *old(with_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs CoverageVisitor::is_instrumented_already
%ret r
  ensures !r,


%fn coverage_visitor.rs CoverageVisitor::get_coverage_templates
%ret r
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).bef() == old(self).bef() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    final(vxw).cov.rec() == frozen(old(vxw).cov.rec()), // @shape @range @off
    top_of(old(self).ctx(), old(self).file_path@, old(self).comments, old(vxw).cov.rec(), old(vxw).cov.path(), r), // @tree @top
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
%end
  assert(r.0 == template(old(self).ctx(), old(self).file_path@, old(self).comments, old(vxw).cov));


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_export_default_decl
%params export_default_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = entered(*old(export_default_decl), z_inside(old(self).ctx(), *old(export_default_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(export_default_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = entered(*old(export_default_decl), z_inside(old(self).ctx(), *old(export_default_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = entered(*old(export_default_decl), z_inside(old(self).ctx(), *old(export_default_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(export_default_decl)))) ==> *final(export_default_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(export_default_decl), old(self).ctx().f) == bare(*old(export_default_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = entered(*old(export_default_decl), z_inside(old(self).ctx(), *old(export_default_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(export_default_decl))) ==> *final(export_default_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = entered(*old(export_default_decl), z_inside(old(self).ctx(), *old(export_default_decl)), old(vxw).cov.rec()); like(o, *old(export_default_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_export_decl
%params export_named_decl
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = entered(*old(export_named_decl), z_inside(old(self).ctx(), *old(export_named_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(export_named_decl)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = entered(*old(export_named_decl), z_inside(old(self).ctx(), *old(export_named_decl)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = entered(*old(export_named_decl), z_inside(old(self).ctx(), *old(export_named_decl)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(export_named_decl)))) ==> *final(export_named_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(export_named_decl), old(self).ctx().f) == bare(*old(export_named_decl), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = entered(*old(export_named_decl), z_inside(old(self).ctx(), *old(export_named_decl)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(export_named_decl))) ==> *final(export_named_decl) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = entered(*old(export_named_decl), z_inside(old(self).ctx(), *old(export_named_decl)), old(vxw).cov.rec()); like(o, *old(export_named_decl), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_debugger_stmt
%params debugger_stmt
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = entered(*old(debugger_stmt), z_inside(old(self).ctx(), *old(debugger_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(debugger_stmt)))) ==> shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = entered(*old(debugger_stmt), z_inside(old(self).ctx(), *old(debugger_stmt)), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = entered(*old(debugger_stmt), z_inside(old(self).ctx(), *old(debugger_stmt)), old(vxw).cov.rec()); !(off(z_inside(old(self).ctx(), *old(debugger_stmt)))) ==> *final(debugger_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(debugger_stmt), old(self).ctx().f) == bare(*old(debugger_stmt), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
    ({ let o = entered(*old(debugger_stmt), z_inside(old(self).ctx(), *old(debugger_stmt)), old(vxw).cov.rec()); off(z_inside(old(self).ctx(), *old(debugger_stmt))) ==> *final(debugger_stmt) == o.n && final(self).bef() =~= old(self).bef() + o.q && shape(final(vxw).cov.rec()) == shape(o.c) }), // @off
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = entered(*old(debugger_stmt), z_inside(old(self).ctx(), *old(debugger_stmt)), old(vxw).cov.rec()); like(o, *old(debugger_stmt), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_ts_module_block
%params block
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(block), Ctx { nodes: old(self).ctx().nodes.push(Node::ModuleItems), ..old(self).ctx() }, old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_kids(*old(block), Ctx { nodes: old(self).ctx().nodes.push(Node::ModuleItems), ..old(self).ctx() }, old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_kids(*old(block), Ctx { nodes: old(self).ctx().nodes.push(Node::ModuleItems), ..old(self).ctx() }, old(vxw).cov.rec()); *final(block) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(block), old(self).ctx().f) == bare(*old(block), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_kids(*old(block), Ctx { nodes: old(self).ctx().nodes.push(Node::ModuleItems), ..old(self).ctx() }, old(vxw).cov.rec()); like(o, *old(block), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_module_items
%params items
  requires fits(*old(self), *old(vxw)), old(self).bef().len() == 0,
  ensures
    final(self).bef().len() == 0 && final(vxw).cov.path() == old(vxw).cov.path() && (rooted(old(self).ctx()) || nested(old(self).ctx()) || old(self).ctx().nodes.len() == 0 ==> final(self).ctx() == old(self).ctx()), // @ctx
    ({ let o = z_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()); final(vxw).cov.rec() == if nested(old(self).ctx()) { o.c } else { frozen(o.c) } }), // @shape @range @off
    ({ let o = z_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec());
      if nested(old(self).ctx()) { final(items)@ == o.n } else { exists|r: (Stmt, Stmt)| #[trigger] top_of(root_x(old(self).ctx()), old(self).file_path@, old(self).comments, o.c, old(vxw).cov.path(), r) && final(items)@ == with_top(o.n, r) } }), // @tree @top
    same_dirs(final(items)@, old(items)@), // @dirs
    nested(old(self).ctx()) ==> bare_items(final(items)@, old(self).ctx().f) == bare_items(old(items)@, old(self).ctx().f), // @like
    !nested(old(self).ctx()) ==> exists|m: Seq<ModuleItem>, r: (Stmt, Stmt)| final(items)@ == #[trigger] with_top(m, r) && bare_items(m, old(self).ctx().f) == bare_items(old(items)@, old(self).ctx().f) && is_call_of(old(self).ctx().f, r.1), // @like
%locals new_items=v0 item=f0.0
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  assert(old(items)@.take(0) =~= Seq::empty() && old(items)@.take(old(items)@.len() as int) =~= old(items)@);
%loop 0
  self.ctx() == root_x(old(self).ctx()), self.bef().len() == 0, self.same(*old(self)), fits(*self, *vxw), vxw.cov.path() == old(vxw).cov.path(), its0 == old(items)@,
  new_items@ == z_items(its0.take(it0.pos()), root_x(old(self).ctx()), old(vxw).cov.rec()).n, vxw.cov.rec() == z_items(its0.take(it0.pos()), root_x(old(self).ctx()), old(vxw).cov.rec()).c,
%loopstart 0
  proof { lem_items(its0, it0.pos() - 1, root_x(old(self).ctx()), old(vxw).cov.rec()); }
  let ghost b0 = new_items@;
  let ghost o1 = one_item(its0[it0.pos() - 1], root_x(old(self).ctx()), vxw.cov.rec());
  assert(b0.push(item) =~= b0 + seq![item]);
%loopend 0
  assert(self.ctx() == root_x(old(self).ctx()));
  assert(vxw.cov.rec() == o1.c);
  assert(new_items@ =~= b0 + o1.n);
%loop 1
  acc@ =~= as_items(its1.take(it1.pos())),
%loopstart 1
  assert(its1.take(it1.pos()).drop_last() =~= its1.take(it1.pos() - 1));
%after 1
  assert(its1.take(its1.len() as int) =~= its1);
%after 0
  let ghost n0 = new_items@;
  assert(same_dirs(n0, old(items)@)) by { thm_dirs_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()); }
  assert(bare_items(n0, old(self).ctx().f) == bare_items(old(items)@, old(self).ctx().f)) by { thm_like_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()); } // @like
%callafter insert 0
  assert(items@.len() == items.len());
%end
  assert(old(self).ctx().nodes.len() == 0 ==> self.ctx().nodes =~= old(self).ctx().nodes);
  assert(top_of(root_x(old(self).ctx()), old(self).file_path@, old(self).comments, z_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()).c, old(vxw).cov.path(), (coverage_template, call_coverage_template_stmt)));
  assert(items@ =~= with_top(n0, (coverage_template, call_coverage_template_stmt)));
  assert(same_dirs(items@, old(items)@)) by { thm_dirs_module(n0, root_x(old(self).ctx()), old(self).file_path@, old(self).comments, z_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()).c, old(vxw).cov.path(), (coverage_template, call_coverage_template_stmt)); }


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_script
%params items
  requires fits(*old(self), *old(vxw)), old(self).bef().len() == 0,
  ensures
    final(self).bef().len() == 0 && final(vxw).cov.path() == old(vxw).cov.path() && final(self).ctx() == old(self).ctx(), // @ctx
    ({ let o = z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()); final(vxw).cov.rec() == frozen(o.c) }), // @shape @range @off
    ({ let o = z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()); final(items).span == old(items).span && final(items).shebang == old(items).shebang
      && exists|r: (Stmt, Stmt)| #[trigger] top_of(old(self).ctx(), old(self).file_path@, old(self).comments, o.c, old(vxw).cov.path(), r) && final(items).body@ == put(o.n, prologue(o.n) as int, r.0, r.1) }), // @tree @top
    same_dirs(final(items).body@, old(items).body@), // @dirs
    exists|m: Seq<Stmt>, i: int, r: (Stmt, Stmt)| final(items).body@ == #[trigger] put(m, i, r.0, r.1) && 0 <= i <= m.len() && bare_list(m, old(self).ctx().f) == bare_list(old(items).body@, old(self).ctx().f) && is_call_of(old(self).ctx().f, r.1), // @like
%locals new_items=v0
%start
  broadcast use traversal, dirs, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;
  assert(old(items).body@.take(0) =~= Seq::empty() && old(items).body@.take(old(items).body@.len() as int) =~= old(items).body@);
%loop 0
  self.ctx() == old(self).ctx(), self.bef().len() == 0, self.same(*old(self)), fits(*self, *vxw), vxw.cov.path() == old(vxw).cov.path(), its0 == old(items).body@,
  new_items@ == z_lines(its0.take(it0.pos()), old(self).ctx(), old(vxw).cov.rec()).n, vxw.cov.rec() == z_lines(its0.take(it0.pos()), old(self).ctx(), old(vxw).cov.rec()).c,
%loopstart 0
  proof { lem_lines(its0, it0.pos() - 1, old(self).ctx(), old(vxw).cov.rec()); }
%callafter insert 0
  assert(items.body@.len() == items.body.len());
%after 0
  let ghost n0 = new_items@;
  assert(bare_list(n0, old(self).ctx().f) == bare_list(old(items).body@, old(self).ctx().f)) by { thm_like_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()); } // @like
  assert(prologue(n0) <= n0.len()) by { lem_prologue_end(n0); }
%end
  assert(top_of(old(self).ctx(), old(self).file_path@, old(self).comments, z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()).c, old(vxw).cov.path(), (coverage_template, call_coverage_template_stmt)));
  assert(items.body@ == put(z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()).n, prologue(z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()).n) as int, (coverage_template, call_coverage_template_stmt).0, (coverage_template, call_coverage_template_stmt).1));


%fn coverage_visitor.rs VisitMut@CoverageVisitor::visit_mut_program
%params program
  requires fits(*old(self), *old(vxw)),
  ensures final(self).same(*old(self)),
    file_hint(old(self).comments, program_span(*old(program))) ==> *final(program) == *old(program) && *final(vxw) == *old(vxw) && final(self).bef() == old(self).bef(), // @hint @off
    !file_hint(old(self).comments, program_span(*old(program))) ==> final(self).ctx() == old(self).ctx() && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(program), Ctx { nodes: old(self).ctx().nodes.push(Node::Program), ..old(self).ctx() }, old(vxw).cov.rec()); !file_hint(old(self).comments, program_span(*old(program))) ==> final(vxw).cov.rec() == o.c }), // @shape @range
    ({ let o = z_kids(*old(program), Ctx { nodes: old(self).ctx().nodes.push(Node::Program), ..old(self).ctx() }, old(vxw).cov.rec()); !file_hint(old(self).comments, program_span(*old(program))) ==> *final(program) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;


%fn coverage_visitor.rs create_coverage_instrumentation_visitor
%params source_map, comments, instrument_options, filename
%ret r
  ensures r.ctx() == ctx_of(source_map, comments, *final(vxw), instrument_options, Seq::empty(), None, Kind::Root), fits(r, *final(vxw)), r.bef().len() == 0, r.file_path == filename, r.comments == comments,
    final(vxw).cov.rec() == no_rec(), final(vxw).cov.path() == filename@,
%noinline SourceCoverage::new, SourceCoverage::set_input_source_map
%start
  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;


%impl coverage_visitor.rs VisitMut@CoverageVisitor
%params n
  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) }), // @shape
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); shape(final(vxw).cov.rec()) == shape(o.c) ==> final(vxw).cov.rec() == o.c }), // @range
    ({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); *final(n) == o.n && final(self).bef() =~= old(self).bef() + o.q }), // @tree
    bare(*final(n), old(self).ctx().f) == bare(*old(n), old(self).ctx().f) && came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like
%start
  /*+ broadcast use congruence, induction, lists; +*/ // @like
  assert({ let o = z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec()); like(o, *old(n), old(self).ctx().f) && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), old(self).ctx().f) }) by { broadcast use likes; } // @like
