# writes units/visit_fns.vspec (the contracts of the visitors; many are alike)
o=[]
START='%start\n  broadcast use traversal, lem_stmts_more /*+ , shapes, lem_stmts_shape +*/;\n'
DIRS=START.replace(', lem',', dirs, lem',1)
# the clauses of a contract, each tagged with what it is about: the context (ctx), how many of what is recorded (shape), where it is (range), the new code (tree), what is ignored (off)
def did(node,spec,q=None,pre='',post=''):
    w='shape(final(vxw).cov.rec())'
    n='' if q is None else f'!({q}) ==> '
    s=[f'final(self).ctx() == old(self).ctx() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx',
       f'({{ {pre}let o = {spec}; {n}{w} == shape(o.c) }}), // @shape',
       f'({{ {pre}let o = {spec}; {w} == shape(o.c) ==> final(vxw).cov.rec() == o.c }}), // @range',
       f'({{ {pre}let o = {spec}; {n}{node} == o.n && final(self).bef() =~= old(self).bef() + o.q }}), // @tree']
    L='bare_list' if 'stmts)@' in node else 'bare'
    l='' if node=='()' else f'{L}({node}, old(self).ctx().f) == {L}({node.replace("final","old")}, old(self).ctx().f) && '
    global LIKE
    F='old(self).ctx().f'
    O=node.replace('final','old')
    LIKE='  /*+ broadcast use congruence, induction, lists; +*/ // @like\n  assert({ '+pre+('let o = '+spec+'; '+(f'counters(o.q, {F})' if node=='()' else f'bare_list(o.n, {F}) == bare_list({O}, {F}) && counters(o.q, {F})' if L!='bare' else f'like(o, {O}, {F})'))+f' && forall|b: Seq<Stmt>| b =~= old(self).bef() + o.q ==> #[trigger] came(b, old(self).bef(), {F}) }}) by {{ broadcast use likes; }} // @like\n'
    s.append(l+'came(final(self).bef(), old(self).bef(), old(self).ctx().f), // @like')
    if q is not None: s.append(f'({{ {pre}let o = {spec}; {q} ==> {node} == o.n && final(self).bef() =~= old(self).bef() + o.q && {w} == shape(o.c) }}), // @off')
    return '  ensures\n    '+'\n    '.join(s)+post
LIKE=''
def fn(file,path,params,clauses,ret=None,extra=''):
    global LIKE
    if LIKE:
        if '%start' in extra:
            i=extra.index('%start'); j=extra.index(';\n',i)+2
            extra=extra[:j]+LIKE+extra[j:]
        else: extra='%start\n'+LIKE+extra
    LIKE=''
    o.append(f"%fn {file} {path}\n"+(f"%params {params}\n" if params else "")+(f"%ret {ret}\n" if ret else "")+clauses.rstrip()+"\n"+extra+"\n")
for v,k,f,ex in (('StmtVisitor','Kind::Stmts','stmt_like_visitor.rs',''),('SwitchCaseVisitor','Kind::Switch(branch)','switch_case_visitor.rs',', branch'),('LogicalExprVisitor','Kind::Logic(branch)','logical_expr_visitor.rs',', branch'),('CoverageVisitor','Kind::Root','coverage_visitor.rs',', file_path')):
    fn(f,f'{v}::new','source_map, comments, cov, instrument_options, nodes, should_ignore'+ex,
f'''  ensures r.ctx() == ctx_of(source_map, comments, *old(vxw), instrument_options, nodes@, should_ignore, {k}), r.bef().len() == 0, *final(vxw) == *old(vxw), r.comments == comments, r.cov == cov,'''+(' r.file_path == file_path,' if 'file_path' in ex else ''),'r',START)
def all_methods(V, F, logic=False):
    def helper(name,params,clauses,ret=None,extra=''):
        if logic and name not in ('on_enter_with_span','on_exit','replace_expr_with_branch_counter','replace_expr_with_stmt_counter','wrap_bin_expr_with_branch_counter'): return
        fn(F,f'{V}::{name}',params,clauses,ret,extra)
    helper('on_enter_with_span','span','''  ensures final(self).ctx() == (Ctx { ign: z_below(old(self).ctx().ign, match span { Some(s) => z_hint(old(self).ctx(), *s), None => None }), ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),
    r.0 == old(self).ctx().ign, r.1 == final(self).ctx().ign,''','r')
    helper('on_exit','scope','''  ensures final(self).ctx() == (Ctx { ign: scope, nodes: if old(self).ctx().nodes.len() > 0 { old(self).ctx().nodes.drop_last() } else { old(self).ctx().nodes }, ..old(self).ctx() }), final(self).bef() == old(self).bef(), final(self).same(*old(self)),''')
    T="Expr Stmt ModuleDecl ClassDecl FnExpr MethodProp FnDecl BinExpr VarDeclarator VarDecl CondExpr ExprStmt IfStmt LabeledStmt ContinueStmt ClassProp PrivateProp ClassMethod Constructor PrivateMethod ArrowExpr ForStmt ForOfStmt ForInStmt WhileStmt DoWhileStmt SwitchStmt SwitchCase BreakStmt ReturnStmt BlockStmt WithStmt TryStmt ThrowStmt ExportDecl ExportDefaultDecl DebuggerStmt AssignPat AssignPatProp GetterProp SetterProp TaggedTpl".split()
    for t in T:
        o.append(f"%fn {F} CoverageInstrumentationMutVisitEnter<{t}>@{V}::on_enter\n%params n\n%trait\n")
    X='old(self).ctx(), old(vxw).cov.rec()'
    helper('create_stmt_increase_counter_expr','span, idx',f'''  requires fits(*old(self), *old(vxw)),
  '''+did('()','Out { n: (), q: Seq::<Stmt>::empty(), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }',post='''
    r == z_ctr(old(self).ctx().f, "s"@, old(vxw).cov.rec().s.len() as u32, idx), // @tree'''),'r')
    helper('mark_prepend_stmt_counter','span',f'''  requires fits(*old(self), *old(vxw)),
  '''+did('()','Out { n: (), q: z_marked(old(self).ctx(), *span, old(vxw).cov.rec()), c: rs(old(self).ctx(), *span, old(vxw).cov.rec()) }'))
    helper('replace_expr_with_stmt_counter','expr',f'''  requires fits(*old(self), *old(vxw)),
'''+did('*final(expr)',f'expr_counted(*old(expr), {X})'),None,START)
    helper('replace_expr_with_branch_counter','expr, branch',f'''  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
'''+did('*final(expr)',f'z_arm(*old(expr), branch as int, {X})'),None,START)
    helper('wrap_bin_expr_with_branch_counter','branch, expr',f'''  requires fits(*old(self), *old(vxw)), branch < old(vxw).cov.rec().b.len(),
'''+did('*final(expr)',f'z_operand(*old(expr), branch as int, {X})','z_hint(old(self).ctx(), span_of(*old(expr))) == Some(IgnoreScope::Next)'),None,START)
    helper('create_fn_instrumentation','ident, function',f'''  requires fits(*old(self), *old(vxw)),
'''+did('*final(function)',f'z_instr(*old(function), *ident, {X})',post='\n    old(function).body is Some ==> final(function).body is Some && same_dirs((final(function).body->0).stmts@, (old(function).body->0).stmts@), // @dirs'),None,DIRS)
    helper('is_injected_counter_expr','expr','''  ensures r == injected(self.ctx().f, *expr),''','r')
    helper('is_injected_counter_stmt','stmt','''  ensures r == injected_s(self.ctx().f, *stmt),''','r')
    helper('cover_statement','expr',f'''  requires fits(*old(self), *old(vxw)), old(self).ctx().nodes.len() > 0,
'''+did('*final(expr)',f'z_cover(*old(expr), {X})'),None,START)
    helper('insert_stmts_counter','stmts',f'''  requires fits(*old(self), *old(vxw)),
'''+did('final(stmts)@',f'z_stmts(old(stmts)@, {X})',post='\n    dirs_kept(final(stmts)@, old(stmts)@), // @dirs'),None,'%locals new_stmts=v0\n'+DIRS+'''  assert(old(stmts)@.take(0) =~= Seq::empty() && old(stmts)@.take(old(stmts)@.len() as int) =~= old(stmts)@);
%loop 0
  self.ctx() == old(self).ctx(), self.bef() == old(self).bef(), self.same(*old(self)), fits(*self, *vxw), vxw.cov.path() == old(vxw).cov.path(),
  its0 == old(stmts)@,
  new_stmts@ == z_stmts(its0.take(it0.pos()), '''+X+''').n, vxw.cov.rec() == z_stmts(its0.take(it0.pos()), '''+X+''').c,
%loopstart 0
  proof { lem_stmts(its0, it0.pos() - 1, '''+X+'''); }
''')
    def LOOP(name): return START+f"""%loop 0
  acc == among(self.ctx().opts.ignore_class_methods@, it0.pos() as int, {name}), its0 == vec_refs(self.ctx().opts.ignore_class_methods@),
"""
    def vm(name,param,spec,extra=START,pre='',q='',post=''):
        if logic: return
        q='off('+I(param)+')'+q if q is not None else q
        fn(F,f'VisitMut@{V}::{name}',param,f'''  requires fits(*old(self), *old(vxw)),{pre}
'''+did(f'*final({param})',spec,q,post=post),None,extra)
    def I(p): return f'z_inside(old(self).ctx(), *old({p}))'
    C='old(vxw).cov.rec()'
    def s(fnname,p): return f'{fnname}(*old({p}), {I(p)}, {C})'
    for n,p in (('visit_mut_block_stmt','block_stmt'),('visit_mut_class_decl','class_decl')): vm(n,p,s('entered',p))
    vm('visit_mut_fn_decl','fn_decl',s('do_fn_decl','fn_decl'))
    vm('visit_mut_arrow_expr','arrow_expr',s('do_arrow','arrow_expr'),DIRS,post='\n    match (*old(arrow_expr).body, *final(arrow_expr).body) { (BlockStmtOrExpr::BlockStmt(a), BlockStmtOrExpr::BlockStmt(b)) => same_dirs(b.stmts@, a.stmts@), (BlockStmtOrExpr::BlockStmt(a), _) => false, _ => true }, // @dirs\n    match (*old(arrow_expr).body, *final(arrow_expr).body) { (BlockStmtOrExpr::Expr(_), BlockStmtOrExpr::BlockStmt(b)) => prologue(b.stmts@) == 0, _ => true }, // @dirs')
    if not logic: fn(F,f'VisitMut@{V}::visit_mut_stmts','stmts',f'''  requires fits(*old(self), *old(vxw)),
'''+did('final(stmts)@',f'z_stmts(old(stmts)@, Ctx {{ nodes: old(self).ctx().nodes.push(Node::Stmts), ..old(self).ctx() }}, {C})',post='\n    dirs_kept(final(stmts)@, old(stmts)@), // @dirs'),None,DIRS)
    vm('visit_mut_fn_expr','fn_expr',s('do_fn_expr','fn_expr'),LOOP('fn_expr.ident->0.sym@'),q=f' || (old(fn_expr).ident is Some && unwanted({I("fn_expr")}, old(fn_expr).ident->0.sym@))')
    vm('visit_mut_expr_stmt','expr_stmt',s('do_expr_stmt','expr_stmt'))
    for n,p in (('break','break_stmt'),('return','return_stmt'),('labeled','labeled_stmt'),('continue','continue_stmt')):
        vm(f'visit_mut_{n}_stmt',p,f'counted(*old({p}), old({p}).span, {I(p)}, {C})')
    for n,p in (('try_stmt','try_stmt'),('throw_stmt','throw_stmt'),('tagged_tpl','tagged_tpl')):
        vm(f'visit_mut_{n}',p,f'guarded(*old({p}), *old({p}), old({p}).span, {I(p)}, {C})')
    for n,p,t in (('for_stmt','for_stmt','ForStmt'),('for_in_stmt','for_in_stmt','ForInStmt'),('for_of_stmt','for_of_stmt','ForOfStmt'),('while_stmt','while_stmt','WhileStmt'),('do_while_stmt','do_while_stmt','DoWhileStmt')):
        vm(f'visit_mut_{n}',p,f'guarded(*old({p}), {t} {{ body: Box::new(z_block(*old({p}).body)), ..*old({p}) }}, old({p}).span, {I(p)}, {C})')
    vm('visit_mut_cond_expr','cond_expr',s('do_cond','cond_expr'),q=f' || text({I("cond_expr")}, span_of(*old(cond_expr).cons)) == Some("next"@) || text({I("cond_expr")}, span_of(*old(cond_expr).alt)) == Some("next"@)')
    vm('visit_mut_var_decl','var_decl',s('z_kids','var_decl'))
    vm('visit_mut_class_prop','class_prop',s('do_class_prop','class_prop'))
    vm('visit_mut_private_prop','private_prop',s('do_private_prop','private_prop'))
    vm('visit_mut_class_method','class_method',s('do_class_method','class_method'),LOOP('class_method.key->Ident_0.sym@'),q=f' || (old(class_method).key is Ident && unwanted({I("class_method")}, old(class_method).key->Ident_0.sym@))')
    vm('visit_mut_method_prop','method_prop',s('do_method_prop','method_prop'),LOOP('method_prop.key->Ident_0.sym@'),q=f' || (old(method_prop).key is Ident && unwanted({I("method_prop")}, old(method_prop).key->Ident_0.sym@))')
    vm('visit_mut_private_method','private_method',s('do_private_method','private_method'))
    vm('visit_mut_constructor','constructor',s('do_constructor','constructor'),LOOP('"constructor"@').replace(', lem',', dirs, lem',1),post='\n    old(constructor).body is Some ==> *final(constructor) == *old(constructor) || exists|m: Constructor, c: Rec| *final(constructor) == (#[trigger] z_kids(m, '+I('constructor')+', c)).n && m == (Constructor { body: m.body, ..*old(constructor) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(constructor).body->0).stmts@), // @dirs',q=f' || unwanted({I("constructor")}, "constructor"@)')
    vm('visit_mut_getter_prop','getter_prop',s('do_getter','getter_prop'),LOOP('getter_prop.key->Ident_0.sym@').replace(', lem',', dirs, lem',1),post='\n    old(getter_prop).body is Some ==> *final(getter_prop) == *old(getter_prop) || exists|m: GetterProp, c: Rec| *final(getter_prop) == (#[trigger] z_kids(m, '+I('getter_prop')+', c)).n && m == (GetterProp { body: m.body, ..*old(getter_prop) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(getter_prop).body->0).stmts@), // @dirs',q=f' || (old(getter_prop).key is Ident && unwanted({I("getter_prop")}, old(getter_prop).key->Ident_0.sym@))')
    vm('visit_mut_setter_prop','setter_prop',s('do_setter','setter_prop'),LOOP('setter_prop.key->Ident_0.sym@').replace(', lem',', dirs, lem',1),post='\n    old(setter_prop).body is Some ==> *final(setter_prop) == *old(setter_prop) || exists|m: SetterProp, c: Rec| *final(setter_prop) == (#[trigger] z_kids(m, '+I('setter_prop')+', c)).n && m == (SetterProp { body: m.body, ..*old(setter_prop) }) && m.body is Some && same_dirs((m.body->0).stmts@, (old(setter_prop).body->0).stmts@), // @dirs',q=f' || (old(setter_prop).key is Ident && unwanted({I("setter_prop")}, old(setter_prop).key->Ident_0.sym@))')
    vm('visit_mut_var_declarator','declarator',s('do_declarator','declarator'))
    vm('visit_mut_switch_stmt','switch_stmt',s('do_switch','switch_stmt'))
    vm('visit_mut_if_stmt','if_stmt',s('do_if','if_stmt'),q=f' || {I("if_stmt")}.ign is Some')
    vm('visit_mut_bin_expr','bin_expr',f'do_bin(*old(bin_expr), old(self).ctx(), {C})')
    vm('visit_mut_assign_pat','assign_pat',s('do_assign_pat','assign_pat'),q=f' || z_hint({I("assign_pat")}, span_of(*old(assign_pat).right)) == Some(IgnoreScope::Next)')
    vm('visit_mut_assign_pat_prop','assign_pat_prop',s('do_assign_pat_prop','assign_pat_prop'),q=f' || old(assign_pat_prop).value is None || z_hint({I("assign_pat_prop")}, span_of(*old(assign_pat_prop).value->0)) == Some(IgnoreScope::Next)')
    vm('visit_mut_with_stmt','with_stmt',s('do_with','with_stmt'))

# every other node: visiting it is visiting its children
def others(V,F):
    global LIKE
    o.append(f"%impl {F} VisitMut@{V}\n%params n\n  requires fits(*old(self), *old(vxw)),\n"+did('*final(n)','z_kids(*old(n), old(self).ctx(), old(vxw).cov.rec())')+"\n%start\n"+LIKE); LIKE=''

def write(name):
    open(f'/verif/units/{name}.vspec','w').write('\n'.join(o)); o.clear()
write('visit_new')
all_methods('StmtVisitor','stmt_like_visitor.rs'); others('StmtVisitor','stmt_like_visitor.rs'); write('visit_fns')
C='old(vxw).cov.rec()'
def own(V,F,name,param,spec,extra=START,q=None):
    fn(F,f'VisitMut@{V}::{name}',param,f"""  requires fits(*old(self), *old(vxw)),
"""+did(f'*final({param})',spec,q),None,extra)
def I(p): return f'z_inside(old(self).ctx(), *old({p}))'
all_methods('SwitchCaseVisitor','switch_case_visitor.rs')
own('SwitchCaseVisitor','switch_case_visitor.rs','visit_mut_switch_case','switch_case',f'do_case(*old(switch_case), old(self).branch as int, {I("switch_case")}, {C})',q='off('+I('switch_case')+')')
others('SwitchCaseVisitor','switch_case_visitor.rs'); write('visit_switch')
V,F='LogicalExprVisitor','logical_expr_visitor.rs'
all_methods(V,F,True)
for n,p,sp in (('visit_mut_expr','expr',f'z_kids(*old(expr), {I("expr")}, {C})'),('visit_mut_bin_expr','bin_expr',f'do_inner_bin(*old(bin_expr), old(self).branch as int, old(self).ctx(), {C})')):
    own(V,F,n,p,sp)
others(V,F); write('visit_logic')
V,F='CoverageVisitor','coverage_visitor.rs'
all_methods(V,F)
fn(F,f'{V}::is_instrumented_already','',"  ensures !r,",'r')
fn(F,f'{V}::get_coverage_templates','',f"""  requires fits(*old(self), *old(vxw)),
  ensures
    final(self).ctx() == old(self).ctx() && final(self).bef() == old(self).bef() && final(self).same(*old(self)) && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    final(vxw).cov.rec() == frozen(old(vxw).cov.rec()), // @shape @range @off
    top_of(old(self).ctx(), old(self).file_path@, old(self).comments, old(vxw).cov.rec(), old(vxw).cov.path(), r), // @tree @top
""",'r',START+"""%end
  assert(r.0 == template(old(self).ctx(), old(self).file_path@, old(self).comments, old(vxw).cov));
""")
for n,p in (('export_default_decl','export_default_decl'),('export_decl','export_named_decl'),('debugger_stmt','debugger_stmt')):
    own(V,F,f'visit_mut_{n}',p,f'entered(*old({p}), {I(p)}, {C})',q='off('+I(p)+')')
own(V,F,'visit_mut_ts_module_block','block',f'z_kids(*old(block), Ctx {{ nodes: old(self).ctx().nodes.push(Node::ModuleItems), ..old(self).ctx() }}, {C})')
SAME='''  self.ctx() == XX, self.bef().len() == 0, self.same(*old(self)), fits(*self, *vxw), vxw.cov.path() == old(vxw).cov.path(), its0 == SS,
  new_items@ == F(its0.take(it0.pos()), XX, old(vxw).cov.rec()).n, vxw.cov.rec() == F(its0.take(it0.pos()), XX, old(vxw).cov.rec()).c,
%loopstart 0
  proof { L(its0, it0.pos() - 1, XX, old(vxw).cov.rec()); }
'''
def same(**k):
    t=SAME
    for a,b in k.items(): t=t.replace(a,b)
    return t
fn(F,f'VisitMut@{V}::visit_mut_module_items','items',f'''  requires fits(*old(self), *old(vxw)), old(self).bef().len() == 0,
  ensures
    final(self).bef().len() == 0 && final(vxw).cov.path() == old(vxw).cov.path() && (rooted(old(self).ctx()) || nested(old(self).ctx()) || old(self).ctx().nodes.len() == 0 ==> final(self).ctx() == old(self).ctx()), // @ctx
    ({{ let o = z_items(old(items)@, root_x(old(self).ctx()), {C}); final(vxw).cov.rec() == if nested(old(self).ctx()) {{ o.c }} else {{ frozen(o.c) }} }}), // @shape @range @off
    ({{ let o = z_items(old(items)@, root_x(old(self).ctx()), {C});
      if nested(old(self).ctx()) {{ final(items)@ == o.n }} else {{ exists|r: (Stmt, Stmt)| #[trigger] top_of(root_x(old(self).ctx()), old(self).file_path@, old(self).comments, o.c, old(vxw).cov.path(), r) && final(items)@ == with_top(o.n, r) }} }}), // @tree @top
    same_dirs(final(items)@, old(items)@), // @dirs
    nested(old(self).ctx()) ==> bare_items(final(items)@, old(self).ctx().f) == bare_items(old(items)@, old(self).ctx().f), // @like
    !nested(old(self).ctx()) ==> exists|m: Seq<ModuleItem>, r: (Stmt, Stmt)| final(items)@ == #[trigger] with_top(m, r) && bare_items(m, old(self).ctx().f) == bare_items(old(items)@, old(self).ctx().f) && is_call_of(old(self).ctx().f, r.1), // @like
''',None,
'%locals new_items=v0 item=f0.0\n'+START+'''  assert(old(items)@.take(0) =~= Seq::empty() && old(items)@.take(old(items)@.len() as int) =~= old(items)@);
%loop 0
'''+same(XX='root_x(old(self).ctx())',SS='old(items)@',F='z_items',L='lem_items')+'''  let ghost b0 = new_items@;
  let ghost o1 = one_item(its0[it0.pos() - 1], root_x(old(self).ctx()), vxw.cov.rec());
  assert(b0.push(item) =~= b0 + seq![item]);
%loopend 0
  assert(self.ctx() == root_x(old(self).ctx()));
  assert(vxw.cov.rec() == o1.c);
  assert(new_items@ =~= b0 + o1.n);
%loop 1
  acc@ =~= as_items(its1.take(it1.pos())),
%loopstart 1
  assert(its1.take(it1.pos()).drop_last() =~= its1.take(it1.pos() - 1));
%after 1
  assert(its1.take(its1.len() as int) =~= its1);
%after 0
  let ghost n0 = new_items@;
  assert(same_dirs(n0, old(items)@)) by { thm_dirs_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()); }
  assert(bare_items(n0, old(self).ctx().f) == bare_items(old(items)@, old(self).ctx().f)) by { thm_like_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()); } // @like
%callafter insert 0
  assert(items@.len() == items.len());
%end
  assert(old(self).ctx().nodes.len() == 0 ==> self.ctx().nodes =~= old(self).ctx().nodes);
  assert(top_of(root_x(old(self).ctx()), old(self).file_path@, old(self).comments, z_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()).c, old(vxw).cov.path(), (coverage_template, call_coverage_template_stmt)));
  assert(items@ =~= with_top(n0, (coverage_template, call_coverage_template_stmt)));
  assert(same_dirs(items@, old(items)@)) by { thm_dirs_module(n0, root_x(old(self).ctx()), old(self).file_path@, old(self).comments, z_items(old(items)@, root_x(old(self).ctx()), old(vxw).cov.rec()).c, old(vxw).cov.path(), (coverage_template, call_coverage_template_stmt)); }
''')
#S
fn(F,f'VisitMut@{V}::visit_mut_script','items',f'''  requires fits(*old(self), *old(vxw)), old(self).bef().len() == 0,
  ensures
    final(self).bef().len() == 0 && final(vxw).cov.path() == old(vxw).cov.path() && final(self).ctx() == old(self).ctx(), // @ctx
    ({{ let o = z_lines(old(items).body@, old(self).ctx(), {C}); final(vxw).cov.rec() == frozen(o.c) }}), // @shape @range @off
    ({{ let o = z_lines(old(items).body@, old(self).ctx(), {C}); final(items).span == old(items).span && final(items).shebang == old(items).shebang
      && exists|r: (Stmt, Stmt)| #[trigger] top_of(old(self).ctx(), old(self).file_path@, old(self).comments, o.c, old(vxw).cov.path(), r) && final(items).body@ == put(o.n, prologue(o.n) as int, r.0, r.1) }}), // @tree @top
    same_dirs(final(items).body@, old(items).body@), // @dirs
    exists|m: Seq<Stmt>, i: int, r: (Stmt, Stmt)| final(items).body@ == #[trigger] put(m, i, r.0, r.1) && 0 <= i <= m.len() && bare_list(m, old(self).ctx().f) == bare_list(old(items).body@, old(self).ctx().f) && is_call_of(old(self).ctx().f, r.1), // @like
''',None,
'%locals new_items=v0\n'+DIRS+'''  assert(old(items).body@.take(0) =~= Seq::empty() && old(items).body@.take(old(items).body@.len() as int) =~= old(items).body@);
%loop 0
'''+same(XX='old(self).ctx()',SS='old(items).body@',F='z_lines',L='lem_lines')+'''%callafter insert 0
  assert(items.body@.len() == items.body.len());
%after 0
  let ghost n0 = new_items@;
  assert(bare_list(n0, old(self).ctx().f) == bare_list(old(items).body@, old(self).ctx().f)) by { thm_like_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()); } // @like
  assert(prologue(n0) <= n0.len()) by { lem_prologue_end(n0); }
%end
  assert(top_of(old(self).ctx(), old(self).file_path@, old(self).comments, z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()).c, old(vxw).cov.path(), (coverage_template, call_coverage_template_stmt)));
  assert(items.body@ == put(z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()).n, prologue(z_lines(old(items).body@, old(self).ctx(), old(vxw).cov.rec()).n) as int, (coverage_template, call_coverage_template_stmt).0, (coverage_template, call_coverage_template_stmt).1));
''')
fn(F,f'VisitMut@{V}::visit_mut_program','program',f'''  requires fits(*old(self), *old(vxw)),
  ensures final(self).same(*old(self)),
    file_hint(old(self).comments, program_span(*old(program))) ==> *final(program) == *old(program) && *final(vxw) == *old(vxw) && final(self).bef() == old(self).bef(), // @hint @off
    !file_hint(old(self).comments, program_span(*old(program))) ==> final(self).ctx() == old(self).ctx() && final(vxw).cov.path() == old(vxw).cov.path(), // @ctx
    ({{ let o = z_kids(*old(program), Ctx {{ nodes: old(self).ctx().nodes.push(Node::Program), ..old(self).ctx() }}, {C}); !file_hint(old(self).comments, program_span(*old(program))) ==> final(vxw).cov.rec() == o.c }}), // @shape @range
    ({{ let o = z_kids(*old(program), Ctx {{ nodes: old(self).ctx().nodes.push(Node::Program), ..old(self).ctx() }}, {C}); !file_hint(old(self).comments, program_span(*old(program))) ==> *final(program) == o.n && final(self).bef() =~= old(self).bef() + o.q }}), // @tree
''',None,START)
fn(F,'create_coverage_instrumentation_visitor','source_map, comments, instrument_options, filename','''  ensures r.ctx() == ctx_of(source_map, comments, *final(vxw), instrument_options, Seq::empty(), None, Kind::Root), fits(r, *final(vxw)), r.bef().len() == 0, r.file_path == filename, r.comments == comments,
    final(vxw).cov.rec() == no_rec(), final(vxw).cov.path() == filename@,''','r','%noinline SourceCoverage::new, SourceCoverage::set_input_source_map\n'+START)
others(V,F); write('visit_root')
