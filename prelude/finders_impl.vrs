impl VxFinder for HoistingFinder { open spec fn found(&self) -> bool { self.0 } open spec fn what(&self) -> What { What::Hoist } }
impl VxFinder for BlockStmtFinder { open spec fn found(&self) -> bool { self.0 } open spec fn what(&self) -> What { What::Block } }
impl VxFinder for StmtFinder { open spec fn found(&self) -> bool { self.0 } open spec fn what(&self) -> What { What::Stmt } }
impl VxFinder for ExprFinder { open spec fn found(&self) -> bool { self.0 } open spec fn what(&self) -> What { What::Expr } }
impl VxFinder for LogicalExprLeafFinder { open spec fn found(&self) -> bool { self.0 } open spec fn what(&self) -> What { What::Logic } }
