//! Normal forms: the instrumented program with its counters and template taken out, and the
//! original with the same harmless wrapping applied (bodies are blocks, `else {}`, no parentheses).
use swc_core::common::DUMMY_SP;
use swc_core::ecma::ast::*;
use swc_core::ecma::visit::{VisitMut, VisitMutWith};

struct E {
    /// the counter function, when the tree is the instrumented one
    cov: Option<String>,
}
pub fn cov_name(p: &Program) -> Option<String> {
    let mut n = None;
    let mut look = |s: &Stmt| {
        if let Stmt::Decl(Decl::Fn(f)) = s {
            if f.ident.sym.starts_with("cov_") && n.is_none() {
                n = Some(f.ident.sym.to_string());
            }
        }
    };
    match p {
        Program::Script(s) => s.body.iter().for_each(|x| look(x)),
        Program::Module(m) => m.body.iter().for_each(|x| {
            if let ModuleItem::Stmt(x) = x {
                look(x)
            }
        }),
    }
    n
}
pub fn both(orig: Program, new: Program, _file: &str) -> (Program, Program) {
    let mut a = orig;
    let mut b = new;
    let n = cov_name(&b);
    a.visit_mut_with(&mut E { cov: None });
    b.visit_mut_with(&mut E { cov: n });
    (a, b)
}
fn body(s: &mut Box<Stmt>) {
    if !matches!(**s, Stmt::Block(_)) {
        let x = std::mem::replace(&mut **s, Stmt::Empty(EmptyStmt { span: DUMMY_SP }));
        **s = Stmt::Block(BlockStmt { stmts: vec![x], ..Default::default() });
    }
}
impl E {
    fn call(&self, e: &Expr) -> bool {
        let Some(n) = &self.cov else { return false };
        matches!(e, Expr::Call(CallExpr { callee: Callee::Expr(c), args, .. }) if args.is_empty() && matches!(&**c, Expr::Ident(i) if *i.sym == **n))
    }
    /// cov().X[n]++ or cov().X[n][m]++
    fn counter(&self, e: &Expr) -> bool {
        let Expr::Update(UpdateExpr { op: UpdateOp::PlusPlus, prefix: false, arg, .. }) = e else { return false };
        let mut a = &**arg;
        let mut n = 0;
        loop {
            match a {
                Expr::Member(MemberExpr { obj, prop: MemberProp::Computed(c), .. }) if matches!(*c.expr, Expr::Lit(Lit::Num(_))) => {
                    a = obj;
                    n += 1;
                }
                Expr::Member(MemberExpr { obj, prop: MemberProp::Ident(_), .. }) => return (n == 1 || n == 2) && self.call(obj),
                _ => return false,
            }
        }
    }
    fn cstmt(&self, s: &Stmt) -> bool {
        match s {
            Stmt::Expr(e) => self.counter(&e.expr) || self.call(&e.expr),
            Stmt::Decl(Decl::Fn(f)) => self.cov.as_deref() == Some(&*f.ident.sym),
            _ => false,
        }
    }
    /// cov().cov_temp
    fn temp(&self, e: &Expr) -> bool {
        matches!(e, Expr::Member(MemberExpr { obj, prop: MemberProp::Ident(_), .. }) if self.call(obj))
    }
}
impl VisitMut for E {
    fn visit_mut_stmts(&mut self, v: &mut Vec<Stmt>) {
        v.retain(|s| !self.cstmt(s));
        v.visit_mut_children_with(self);
    }
    fn visit_mut_script(&mut self, v: &mut Script) {
        v.body.retain(|s| !self.cstmt(s));
        v.visit_mut_children_with(self);
    }
    fn visit_mut_module_items(&mut self, v: &mut Vec<ModuleItem>) {
        v.retain(|s| !matches!(s, ModuleItem::Stmt(s) if self.cstmt(s)));
        v.visit_mut_children_with(self);
    }
    fn visit_mut_expr(&mut self, e: &mut Expr) {
        loop {
            match e {
                Expr::Paren(p) => {
                    let x = std::mem::replace(&mut *p.expr, Expr::This(ThisExpr { span: DUMMY_SP }));
                    *e = x;
                }
                Expr::Seq(s) if s.exprs.len() == 2 && self.counter(&s.exprs[0]) => {
                    let x = s.exprs.pop().unwrap();
                    *e = *x;
                }
                // (cov().temp = operand, (test ? cov().bT[..][..]++ : null), cov().temp)
                Expr::Seq(s)
                    if s.exprs.len() == 3
                        && self.temp(&s.exprs[2])
                        && matches!(&*s.exprs[0], Expr::Assign(AssignExpr { op: AssignOp::Assign, .. }))
                        && matches!(&*s.exprs[1], Expr::Paren(p) if matches!(&*p.expr, Expr::Cond(c) if self.counter(&c.cons))) =>
                {
                    let Expr::Assign(a) = std::mem::replace(&mut *s.exprs[0], Expr::This(ThisExpr { span: DUMMY_SP })) else { unreachable!() };
                    *e = *a.right;
                }
                _ => break,
            }
        }
        e.visit_mut_children_with(self);
    }
    fn visit_mut_if_stmt(&mut self, s: &mut IfStmt) {
        body(&mut s.cons);
        match &mut s.alt {
            Some(a) => body(a),
            None => s.alt = Some(Box::new(Stmt::Block(Default::default()))),
        }
        s.visit_mut_children_with(self);
    }
    fn visit_mut_for_stmt(&mut self, s: &mut ForStmt) {
        body(&mut s.body);
        s.visit_mut_children_with(self);
    }
    fn visit_mut_for_in_stmt(&mut self, s: &mut ForInStmt) {
        body(&mut s.body);
        s.visit_mut_children_with(self);
    }
    fn visit_mut_for_of_stmt(&mut self, s: &mut ForOfStmt) {
        body(&mut s.body);
        s.visit_mut_children_with(self);
    }
    fn visit_mut_while_stmt(&mut self, s: &mut WhileStmt) {
        body(&mut s.body);
        s.visit_mut_children_with(self);
    }
    fn visit_mut_do_while_stmt(&mut self, s: &mut DoWhileStmt) {
        body(&mut s.body);
        s.visit_mut_children_with(self);
    }
    fn visit_mut_with_stmt(&mut self, s: &mut WithStmt) {
        body(&mut s.body);
        s.visit_mut_children_with(self);
    }
    fn visit_mut_arrow_expr(&mut self, a: &mut ArrowExpr) {
        if let BlockStmtOrExpr::Expr(e) = &mut *a.body {
            let x = std::mem::replace(&mut **e, Expr::This(ThisExpr { span: DUMMY_SP }));
            let mut x = x;
            while let Expr::Paren(p) = x {
                x = *p.expr;
            }
            *a.body = BlockStmtOrExpr::BlockStmt(BlockStmt { stmts: vec![Stmt::Return(ReturnStmt { span: DUMMY_SP, arg: Some(Box::new(x)) })], ..Default::default() });
        }
        a.visit_mut_children_with(self);
    }
}

/// the non-empty directive prologues, in source order
pub fn prologues(p: &Program, cov: Option<String>) -> Vec<Vec<String>> {
    use swc_core::ecma::visit::{Visit, VisitWith};
    struct D {
        out: Vec<Vec<String>>,
        cov: Option<String>,
    }
    impl D {
        fn of<'a>(&mut self, v: impl Iterator<Item = Option<&'a Stmt>>) {
            let mut l = vec![];
            for s in v {
                match s {
                    Some(Stmt::Expr(e)) => match &*e.expr {
                        Expr::Lit(Lit::Str(s)) => l.push(s.value.to_string()),
                        _ => break,
                    },
                    _ => break,
                }
            }
            if !l.is_empty() {
                self.out.push(l);
            }
        }
        fn block(&mut self, b: &BlockStmt) {
            self.of(b.stmts.iter().map(Some));
        }
    }
    impl Visit for D {
        fn visit_script(&mut self, s: &Script) {
            self.of(s.body.iter().map(Some));
            s.visit_children_with(self);
        }
        fn visit_module(&mut self, m: &Module) {
            self.of(m.body.iter().map(|i| if let ModuleItem::Stmt(s) = i { Some(s) } else { None }));
            m.visit_children_with(self);
        }
        fn visit_fn_decl(&mut self, f: &FnDecl) {
            if self.cov.as_deref() != Some(&*f.ident.sym) {
                f.visit_children_with(self);
            }
        }
        fn visit_function(&mut self, f: &Function) {
            if let Some(b) = &f.body {
                self.block(b);
            }
            f.visit_children_with(self);
        }
        fn visit_constructor(&mut self, f: &Constructor) {
            if let Some(b) = &f.body {
                self.block(b);
            }
            f.visit_children_with(self);
        }
        fn visit_getter_prop(&mut self, f: &GetterProp) {
            if let Some(b) = &f.body {
                self.block(b);
            }
            f.visit_children_with(self);
        }
        fn visit_setter_prop(&mut self, f: &SetterProp) {
            if let Some(b) = &f.body {
                self.block(b);
            }
            f.visit_children_with(self);
        }
        fn visit_arrow_expr(&mut self, f: &ArrowExpr) {
            if let BlockStmtOrExpr::BlockStmt(b) = &*f.body {
                self.block(b);
            }
            f.visit_children_with(self);
        }
    }
    let mut d = D { out: vec![], cov };
    p.visit_with(&mut d);
    d.out
}
